// Package c11 decides property C11: a rope always holds the text its edits
// produce.
package c11

import (
	"errors"
	"fmt"
	"io"

	"github.com/zyedidia/gpeg/input/linerope"
	"verif/harness/sym"
)

func one(l ...int) int { return l[sym.Concrete(sym.Choose(len(l)))] }

func note(f string, a ...interface{}) {
	if sym.Native() {
		sym.Note(fmt.Sprintf(f, a...))
	}
}

// sep never occurs in the short texts used here, so that line counting does
// not look at the bytes; C12 is about lines.
var sep = []byte("0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz")

// text is a rope beside the plain bytes.
type text struct {
	r *linerope.Node
	b []byte
}

func options() linerope.Options {
	o := linerope.Options{LineSep: sep}
	switch sym.Concrete(sym.Choose(sym.Pick(6, 7))) {
	case 0:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 2, 1, 1.2
	case 1:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 1, 0, 1
	case 2:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 3, 4, 2
	case 3:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 4, 2, 1.2
	case 4:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 1, 3, 0.5
	case 5:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 5, 5, 1.5
	default:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 100, 50, 1.2
	}
	note("split %d join %d ratio %v", o.SplitLen, o.JoinLen, o.RebalanceRatio)
	return o
}

func build(b []byte, o linerope.Options) *text {
	note("build from %d bytes", len(b))
	return &text{linerope.NewWithOpts(b, o), append([]byte{}, b...)}
}

func (t *text) insert(pos int, v []byte) {
	note("insert %d bytes at %d of %d", len(v), pos, len(t.b))
	keep := append([]byte{}, v...)
	t.r.Insert(pos, v)
	var n []byte
	n = append(n, t.b[:pos]...)
	n = append(n, keep...)
	n = append(n, t.b[pos:]...)
	t.b = n
	for i := range v {
		sym.Assert(v[i] == keep[i], "inserted slice was altered")
		v[i] ^= 0xff // the caller may reuse it
	}
}

func (t *text) remove(start, end int) {
	note("remove [%d,%d) of %d", start, end, len(t.b))
	t.r.Remove(start, end)
	var n []byte
	n = append(n, t.b[:start]...)
	n = append(n, t.b[end:]...)
	t.b = n
}

func equal(a, b []byte, what string) {
	sym.Assert(len(a) == len(b), what+": length")
	c := true
	for i := range a {
		c = sym.And(c, a[i] == b[i])
	}
	sym.Assert(c, what)
}

type sink struct {
	b     []byte
	calls int
	fail  int
}

var errSink = errors.New("sink")

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	if s.calls == s.fail {
		return 0, errSink
	}
	s.b = append(s.b, p...)
	return len(p), nil
}

// audit reads the rope in every way.
func (t *text) audit() {
	sym.Assert(t.r.Len() == len(t.b), "length of a rope")
	sym.Obs(t.r.Len())
	equal(t.r.Value(), t.b, "content of a rope")
	for i := range t.b {
		sym.Assert(t.r.At(i) == t.b[i], "byte of a rope")
	}
	var s sink
	n, err := t.r.WriteTo(&s)
	sym.Assert(err == nil && n == int64(len(t.b)), "result of streaming")
	equal(s.b, t.b, "streamed bytes")
	var leaves []byte
	k := 0
	t.r.EachLeaf(func(l *linerope.Node) bool {
		k++
		leaves = append(leaves, l.Value()...)
		return false
	})
	equal(leaves, t.b, "bytes of the leaves")
	if k > 2 {
		sym.Reach("several leaves")
	}
	t.r.Each(func(m *linerope.Node) {
		sym.Assert(m.Len() == len(m.Value()), "length of a node")
	})
}

// ranges reads one arbitrary range.
func (t *text) ranges() {
	off, n := sym.Concrete(sym.Range(0, len(t.b)+1)), sym.Concrete(sym.Range(0, len(t.b)+1))
	note("read %d at %d", n, off)
	p := make([]byte, n)
	k, err := t.r.ReadAt(p, int64(off))
	want := len(t.b) - off
	if want < 0 {
		want = 0
	}
	if want > n {
		want = n
	}
	sym.Assert(k == want, "number of bytes read")
	for i := 0; i < k; i++ {
		sym.Assert(p[i] == t.b[off+i], "bytes read")
	}
	if k < n {
		sym.Assert(err == io.EOF, "short read without end of file")
	} else if off+n < len(t.b) {
		sym.Assert(err == nil, "error before the end")
	} else {
		sym.Assert(err == nil || err == io.EOF, "error of a read")
	}
}

// edit is one arbitrary edit.
func (t *text) edit() {
	n := len(t.b)
	if sym.Decide(sym.Bool()) {
		k := one(1, 3, 0, 2)
		t.insert(sym.Concrete(sym.Range(0, n)), sym.Bytes(k))
		return
	}
	s := sym.Concrete(sym.Range(0, n))
	t.remove(s, sym.Concrete(sym.Range(s, n)))
}

// restructure changes the shape but not the content.
func (t *text) restructure() {
	switch sym.Concrete(sym.Choose(4)) {
	case 0:
		note("rebuild")
		t.r.Rebuild()
	case 1:
		note("rebalance")
		t.r.Rebalance()
	case 2:
		i := sym.Concrete(sym.Range(0, len(t.b)))
		note("split at %d and join", i)
		a, b := t.r.SplitAt(i)
		t.r = linerope.Join(a, b)
	default:
		i := sym.Concrete(sym.Range(0, len(t.b)))
		note("split at %d and join swapped", i)
		a, b := t.r.SplitAt(i)
		t.r = linerope.Join(b, a)
		t.b = append(append([]byte{}, t.b[i:]...), t.b[:i]...)
	}
}

// U_edits: insertions and removals.
//
// unit: budget=60
// bounds: 6 (thorough 7) settings of the thresholds, ropes built from 0..7 (thorough 9) arbitrary bytes, 2 (thorough 3) arbitrary insertions of 0..3 bytes or removals, read in every way at the end
func U_edits() {
	t := build(sym.Bytes(sym.Concrete(sym.Range(0, sym.Pick(7, 9)))), options())
	for i := 0; i < sym.Pick(2, 3); i++ {
		t.edit()
	}
	t.audit()
}

// U_shape: edits between splits, joins, rebuilding and rebalancing.
//
// unit: budget=60
// bounds: 6 (thorough 7) settings, ropes of 0..7 (thorough 8) arbitrary bytes, a change of shape (rebuild, rebalance, split and join, in order or swapped), an arbitrary edit, in the thorough tier a second change of shape, read in every way
func U_shape() {
	t := build(sym.Bytes(sym.Concrete(sym.Range(0, sym.Pick(7, 8)))), options())
	t.restructure()
	t.edit()
	if sym.Thorough() {
		t.restructure()
	}
	t.audit()
}

// U_shapes: several changes of shape.
//
// unit: budget=40
// bounds: 6 (thorough 7) settings, ropes of 0, 1, 4 or 7 arbitrary bytes after one insertion in the middle, 2 (thorough 3) changes of shape, read in every way
func U_shapes() {
	t := build(sym.Bytes(one(0, 1, 4, 7)), options())
	t.insert(len(t.b)/2, sym.Bytes(1))
	for i := 0; i < sym.Pick(2, 3); i++ {
		t.restructure()
	}
	t.audit()
}

// U_read: every range, with ends of file.
//
// unit: budget=40
// bounds: 6 (thorough 7) settings, ropes of 0..6 arbitrary bytes, built or edited once in the middle, every offset and length up to one beyond the end, and a writer that fails at its first, second or third call
func U_read() {
	t := build(sym.Bytes(sym.Concrete(sym.Range(0, 6))), options())
	switch sym.Concrete(sym.Choose(3)) {
	case 0:
		t.insert(len(t.b)/2, sym.Bytes(2))
	case 1:
		t.remove(len(t.b)/2, (len(t.b)+1)/2)
	}
	if sym.Decide(sym.Bool()) {
		t.ranges()
		return
	}
	s := sink{fail: one(1, 2, 3)}
	n, err := t.r.WriteTo(&s)
	sym.Assert(int(n) == len(s.b), "count of streamed bytes")
	if s.calls >= s.fail {
		sym.Assert(err == errSink && s.calls == s.fail, "a failing writer stops the streaming")
		equal(s.b, t.b[:len(s.b)], "bytes streamed before the failure")
	} else {
		sym.Assert(err == nil, "streaming without a failure")
		equal(s.b, t.b, "streamed bytes")
	}
}

// U_split: both halves of a split stay ropes of their own text.
//
// unit: budget=40
// bounds: 6 (thorough 7) settings, ropes of 4 (thorough 0..6) arbitrary bytes, built or edited, split anywhere, an arbitrary edit of the left and then of the right half, both read, then joined with a third rope
func U_split() {
	n := 4
	if sym.Thorough() {
		n = sym.Concrete(sym.Range(0, 6))
	}
	o := options()
	t := build(sym.Bytes(n), o)
	if sym.Decide(sym.Bool()) {
		t.remove(n/2, n/2+n/4)
	}
	i := sym.Concrete(sym.Range(0, len(t.b)))
	note("split at %d", i)
	a, b := t.r.SplitAt(i)
	l, r := &text{a, append([]byte{}, t.b[:i]...)}, &text{b, append([]byte{}, t.b[i:]...)}
	if sym.Decide(sym.Bool()) {
		l.edit()
	} else {
		r.edit()
	}
	l.audit()
	r.audit()
	m := build([]byte{sym.Byte()}, o)
	j := &text{linerope.Join(l.r, r.r, m.r), append(append(append([]byte{}, l.b...), r.b...), m.b...)}
	j.audit()
}

// U_alias: the source slice and other ropes stay as they were.
//
// unit: budget=40
// bounds: 6 (thorough 7) settings, two ropes built from one slice of 4 (thorough 0..6) bytes with spare capacity 0 or 3, or the second from the content of the first, 2 edits of one and 1 of the other, in either order
func U_alias() {
	n := 4
	if sym.Thorough() {
		n = sym.Concrete(sym.Range(0, 6))
	}
	full := make([]byte, n+one(0, 3))
	for i := range full {
		full[i] = sym.Byte()
	}
	keep := append([]byte{}, full...)
	o := options()
	a := build(full[:n], o)
	var b *text
	if sym.Decide(sym.Bool()) {
		b = build(full[:n], o)
	} else {
		b = build(a.r.Value(), o)
	}
	b.edit()
	equal(a.r.Value(), a.b, "content of another rope")
	if sym.Decide(sym.Bool()) {
		b.edit()
	} else {
		a.edit()
	}
	equal(full, keep, "bytes of the source slice")
	a.audit()
	b.audit()
}

// big is a text of n bytes with a few arbitrary ones.
func big(n int, at ...int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'A' + byte(i*i%53)
	}
	for _, i := range at {
		if i >= 0 && i < n {
			b[i] = sym.Byte()
		}
	}
	return b
}

// quick audit: every way of reading whole, and some bytes.
func (t *text) skim() {
	n := len(t.b)
	sym.Assert(t.r.Len() == n, "length of a rope")
	equal(t.r.Value(), t.b, "content of a rope")
	var s sink
	k, err := t.r.WriteTo(&s)
	sym.Assert(err == nil && k == int64(n), "result of streaming")
	equal(s.b, t.b, "streamed bytes")
	for i := 0; i < n; i += 1 + n/9 {
		sym.Assert(t.r.At(i) == t.b[i], "byte of a rope")
	}
	for _, off := range []int{0, n / 3, n - 1, n} {
		for _, l := range []int{1, n / 2, n + 1} {
			if off < 0 {
				continue
			}
			p := make([]byte, l)
			m, err := t.r.ReadAt(p, int64(off))
			w := min(l, n-off)
			sym.Assert(m == w, "number of bytes read")
			equal(p[:m], t.b[off:off+m], "bytes read")
			sym.Assert(m == l || err == io.EOF, "short read without end of file")
		}
	}
}

// U_default: ropes with the thresholds a user gets.
//
// unit: budget=40
// bounds: the default settings and 2 (thorough 3) others, texts whose length is at or one above (thorough also one below) the split threshold or 4 times it (thorough also its half and double), 2 (default settings: 1, thorough 3) edits at any of 3 (thorough 5) places: insertions of 1 byte and of half and one and a half times the threshold, removals of as many bytes and of everything, rebuilding, rebalancing, splitting and joining; one arbitrary byte in each text
func U_default() {
	sym.Steps(100_000_000)
	var o linerope.Options
	switch sym.Concrete(sym.Choose(sym.Pick(3, 4))) {
	case 0:
		o = linerope.DefaultOptions
	case 1:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 64, 32, 1.2
	case 2:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 40, 60, 3
	default:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 33, 8, 1
	}
	o.LineSep = []byte("\n")
	T := o.SplitLen
	n := one([]int{T, 4 * T, T / 2, 2 * T}[:sym.Pick(2, 4)]...) + one([]int{0, 1, -1}[:sym.Pick(2, 3)]...)
	t := build(big(n, n/2), o)
	edits := 2
	if T > 1000 {
		edits = 1
	}
	for i := 0; i < sym.Pick(edits, 3); i++ {
		n := len(t.b)
		at := []int{n / 2, n, 0, n / 3, n - 1}[sym.Concrete(sym.Choose(sym.Pick(3, 5)))]
		if at < 0 {
			at = 0
		}
		switch k := sym.Concrete(sym.Choose(7)); k {
		case 0, 1, 2:
			l := []int{1, T / 2, T + T/2}[k]
			t.insert(at, big(l, l/2))
		case 3, 4, 5:
			t.remove(at, min(n, at+[]int{1, T / 2, T + T/2}[k-3]))
		default:
			switch sym.Concrete(sym.Choose(3)) {
			case 0:
				t.r.Rebuild()
			case 1:
				t.r.Rebalance()
			default:
				a, b := t.r.SplitAt(at)
				t.r = linerope.Join(b, a)
				t.b = append(append([]byte{}, t.b[at:]...), t.b[:at]...)
			}
		}
	}
	t.skim()
}

// U_history: long histories.
//
// unit: budget=30
// bounds: 6 (thorough 7) settings, a text of 0 or 30 bytes, 40 (thorough 150) insertions of 1..4 bytes and removals at places spread by a fixed rule (all over, always in front, always at the end, or around the middle) with an arbitrary edit after 20 of them and one at the end
func U_history() {
	sym.Steps(100_000_000)
	t := build(big(one(0, 30), 1), options())
	rule := sym.Concrete(sym.Choose(4))
	x := 7
	for i := 0; i < sym.Pick(40, 150); i++ {
		n := len(t.b)
		x = (x*1103 + 12345) % 65536
		at := x * n / 65536
		switch rule {
		case 1:
			at = 0
		case 2:
			at = n
		case 3:
			at = n / 2
		}
		if i%4 == 3 && n > 0 {
			s := at * 3 / 4
			t.remove(s, min(n, s+1+x%5))
		} else {
			t.insert(at, big(1+x%4, -1))
		}
		if i == 20 {
			s := sym.Concrete(sym.Range(0, sym.Pick(4, 8))) * len(t.b) / sym.Pick(4, 8)
			if sym.Decide(sym.Bool()) {
				t.insert(s, sym.Bytes(1))
			} else {
				t.remove(s, min(len(t.b), s+one(1, 9)))
			}
		}
		if i%16 == 9 {
			sym.Assert(t.r.Len() == len(t.b), "length of a rope")
		}
	}
	t.insert(one([]int{len(t.b) / 2, 0, len(t.b)}[:sym.Pick(1, 3)]...), sym.Bytes(2))
	t.audit()
}
