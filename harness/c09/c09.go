// Package c09 decides property C09: the input cursor presents exactly the
// reader's bytes.
package c09

import (
	"fmt"
	"io"

	"github.com/zyedidia/gpeg/input"
	"verif/harness/sym"
)

// source is a random-access reader of b; what it reports with a read that
// reaches exactly the end is its choice.
type source struct {
	b     []byte
	early bool
	reads int
}

func (s *source) ReadAt(p []byte, off int64) (int, error) {
	s.reads++
	if off < 0 {
		sym.Assert(false, "read at a negative offset")
	}
	if off >= int64(len(s.b)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, s.b[off:])
	if n < len(p) || s.early && int(off)+n == len(s.b) {
		return n, io.EOF
	}
	return n, nil
}

// cursor is an input beside its position in the plain bytes.
type cursor struct {
	in   *input.Input
	b    []byte
	pos  int
	need int // furthest position peeked at
}

func open(b []byte) *cursor {
	if sym.Native() {
		sym.Note(fmt.Sprintf("reader of %d bytes", len(b)))
	}
	return &cursor{in: input.NewInput(&source{b: b, early: sym.Decide(sym.Bool())}), b: b, need: -1}
}

// content makes n bytes, arbitrary in the first and last two and around
// multiples of the buffer size.
func content(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		m := i % 4096
		if i < 2 || i >= n-2 || m < 2 || m > 4093 {
			b[i] = sym.Byte()
		} else {
			b[i] = byte(i*7 + i>>8)
		}
	}
	return b
}

func (c *cursor) state() {
	sym.Assert(c.in.Pos() == c.pos, "position of the cursor")
	if c.need >= 0 {
		sym.Assert(c.in.Furthest() >= c.need, "furthest examined position")
	}
}

func (c *cursor) look() {
	if sym.Native() {
		sym.Note(fmt.Sprintf("peek at %d", c.pos))
	}
	v, ok := c.in.Peek()
	if c.pos > c.need {
		c.need = c.pos
	}
	sym.Assert(ok == (c.pos < len(c.b)), "end of input")
	if ok {
		sym.Assert(v == c.b[c.pos], "byte at the cursor")
		sym.Reach("byte")
	}
	c.state()
}

func (c *cursor) before() {
	v, ok := c.in.PeekBefore()
	sym.Assert(ok == (c.pos > 0 && c.pos <= len(c.b)), "is there a byte before the cursor")
	if ok {
		sym.Assert(v == c.b[c.pos-1], "byte before the cursor")
	}
	c.state()
}

func (c *cursor) seek(p int) {
	if sym.Native() {
		sym.Note(fmt.Sprintf("seek %d", p))
	}
	ok := c.in.SeekTo(p)
	c.pos = p
	sym.Assert(ok == (p < len(c.b)), "result of a seek")
	c.state()
}

func (c *cursor) move(n int) {
	if sym.Native() {
		sym.Note(fmt.Sprintf("advance %d", n))
	}
	ok := c.in.Advance(n)
	sym.Assert(ok == (c.pos+n <= len(c.b)), "result of a forward move")
	if ok {
		c.pos += n
		sym.Reach("move")
	} else {
		sym.Reach("refused move")
	}
	c.state()
}

// step is one arbitrary operation.
func (c *cursor) step(p, n int) {
	switch sym.Concrete(sym.Choose(4)) {
	case 0:
		c.look()
	case 1:
		c.before()
	case 2:
		c.seek(p)
	default:
		c.move(n)
	}
}

// U_small: arbitrary histories over short texts.
//
// unit: budget=30
// bounds: texts of 0..3 (thorough 4) arbitrary bytes, histories of 4 (thorough 6) peeks, looks back, seeks to 0..len and forward moves of 0..len+2 or 255 bytes; readers that report the end with the last bytes or after them
func U_small() {
	n := sym.Concrete(sym.Range(0, sym.Pick(3, 4)))
	c := open(sym.Bytes(n))
	for i := 0; i < sym.Pick(4, 6); i++ {
		m := sym.Range(0, n+3)
		if sym.Decide(m == n+3) {
			m = 255
		}
		c.step(sym.Range(0, n), m)
	}
	c.look()
	c.before()
}

var sizes = []int{4094, 4095, 4096, 4097, 4100, 8191, 8192, 8193}

// near is a position close to a multiple of the buffer size or to the end.
func near(n int) int {
	base := []int{0, 4096, 8192, n}[sym.Concrete(sym.Choose(4))]
	p := base - 3 + sym.Choose(6)
	sym.Assume(p >= 0)
	sym.Assume(p <= n)
	return p
}

// U_edges: histories around buffer boundaries.
//
// unit: budget=60
// bounds: texts of 4095..4097 and 8192 (thorough also 4094, 4100, 8191, 8193) bytes (arbitrary at both ends and around multiples of 4096), a seek or forward move to within 3 bytes of a boundary or the end, 2 (thorough 3) operations with seeks to such places and forward moves of 0..3, 255, 4095..4097 bytes, then both peeks
func U_edges() {
	n := []int{4095, 4096, 4097, 8192}[sym.Concrete(sym.Choose(4))]
	if sym.Thorough() {
		n = sizes[sym.Concrete(sym.Choose(len(sizes)))]
	}
	c := open(content(n))
	p := near(n)
	if sym.Decide(sym.Bool()) {
		c.seek(p)
	} else {
		c.move(p)
	}
	for i := 0; i < sym.Pick(2, 3); i++ {
		switch sym.Concrete(sym.Choose(4)) {
		case 0:
			c.look()
		case 1:
			c.before()
		case 2:
			c.seek(near(n))
		default:
			k := sym.Choose(8)
			if sym.Decide(k == 4) {
				k = 255
			} else if sym.Decide(k > 4) {
				k += 4090
			}
			c.move(k)
		}
	}
	c.look()
	c.before()
}

// U_walk: the whole text byte by byte or in steps.
//
// unit: budget=30
// bounds: texts of 4095..4097 and 8191..8193 bytes, read forward in steps of 1, 3 or 255, with the byte at and before the cursor compared at every step
func U_walk() {
	n := sizes[1+sym.Concrete(sym.Choose(3))]
	if sym.Thorough() {
		n = sizes[sym.Concrete(sym.Choose(len(sizes)))]
	}
	c := open(content(n))
	k := []int{1, 3, 255}[sym.Concrete(sym.Choose(3))]
	for c.pos < n {
		c.look()
		c.before()
		p := c.pos
		c.move(k)
		if c.pos == p {
			break
		}
	}
	c.look()
	c.before()
}

// U_far: seeks beyond the end.
//
// unit: budget=10
// bounds: texts of 0..2 and 4096 bytes, a seek 0..3 bytes beyond the end, a forward move of 0..2, then a seek back and peeks
func U_far() {
	n := []int{0, 1, 2, 4096}[sym.Concrete(sym.Choose(4))]
	c := open(content(n))
	c.seek(n + sym.Choose(4))
	c.look()
	if c.pos <= n {
		c.before()
	}
	p := c.pos
	k := sym.Choose(3)
	if sym.Decide(k > 0) {
		c.move(k)
		sym.Assert(c.pos == p, "move beyond the end")
	}
	c.seek(near(n))
	c.look()
	c.before()
}

// U_jump: long ways back and forth in a text of several buffers.
//
// unit: budget=40
// bounds: a text of 12290 bytes, 3 (thorough 4) operations, each a seek to or a forward move by 0, 4095, 4096, 5000, 8193, 12289 or 12290 bytes, each followed by a peek or not, then both peeks
func U_jump() {
	const n = 12290
	at := []int{0, 4095, 4096, 5000, 8193, n - 1, n}
	c := open(content(n))
	for i := 0; i < sym.Pick(3, 4); i++ {
		k := at[sym.Concrete(sym.Choose(len(at)))]
		if sym.Decide(sym.Bool()) {
			c.seek(k)
		} else {
			c.move(k)
		}
		if sym.Decide(sym.Bool()) {
			c.look()
		}
	}
	c.look()
	c.before()
}

// U_reset: tracking starts over, the cursor stays where it is.
//
// unit: budget=10
// bounds: texts of 0..3 and 4097 bytes, a seek to within 3 bytes of a boundary or the end and a peek, a reset of the furthest position, then such a seek or none and a peek
func U_reset() {
	n := []int{0, 1, 2, 3, 4097}[sym.Concrete(sym.Choose(5))]
	c := open(content(n))
	c.seek(near(n))
	c.look()
	c.in.ResetFurthest()
	c.need = -1
	sym.Assert(c.in.Furthest() == 0, "furthest position after a reset")
	c.state()
	if sym.Decide(sym.Bool()) {
		c.seek(near(n))
	}
	c.look()
}

// U_two: two cursors used in turn.
//
// unit: budget=15
// bounds: cursors over texts of 0..3 and of 4097 bytes (also over the same reader), each moved by a seek to within 3 bytes of a boundary or the end, in turn with peeks and looks back, one forward move of 0..2 bytes each
func U_two() {
	n := sym.Concrete(sym.Range(0, 3))
	a, b := open(content(n)), open(content(4097))
	if sym.Decide(sym.Bool()) {
		n = 4097
		r := &source{b: b.b}
		a, b = &cursor{in: input.NewInput(r), b: r.b, need: -1}, &cursor{in: input.NewInput(r), b: r.b, need: -1}
	}
	a.look()
	b.seek(near(4097))
	a.seek(near(n))
	b.look()
	a.look()
	b.before()
	a.move(sym.Choose(3))
	b.move(sym.Choose(3))
	a.before()
	b.look()
	a.look()
}
