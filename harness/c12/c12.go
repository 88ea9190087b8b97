// Package c12 decides property C12: rope line and column positions agree with
// the text.
package c12

import (
	"fmt"

	"github.com/zyedidia/gpeg/input/linerope"
	"verif/harness/sym"
)

func one(l ...int) int { return l[sym.Concrete(sym.Choose(len(l)))] }

func note(f string, a ...interface{}) {
	if sym.Native() {
		sym.Note(fmt.Sprintf(f, a...))
	}
}

type text struct {
	r   *linerope.Node
	b   []byte
	sep []byte
}

func options(sep []byte) linerope.Options {
	o := linerope.Options{LineSep: sep}
	switch sym.Concrete(sym.Choose(sym.Pick(3, 5))) {
	case 0:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 2, 1, 1.2
	case 1:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 3, 4, 2
	case 2:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 1, 0, 1
	case 3:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 4, 2, 1.2
	default:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 100, 50, 1.2
	}
	note("split %d join %d ratio %v separator %q", o.SplitLen, o.JoinLen, o.RebalanceRatio, sep)
	return o
}

func build(b, sep []byte, o linerope.Options) *text {
	note("build from %q", b)
	return &text{linerope.NewWithOpts(b, o), append([]byte{}, b...), sep}
}

func (t *text) insert(pos int, v []byte) {
	note("insert %q at %d", v, pos)
	t.r.Insert(pos, v)
	var n []byte
	n = append(n, t.b[:pos]...)
	n = append(n, v...)
	n = append(n, t.b[pos:]...)
	t.b = n
}

func (t *text) remove(start, end int) {
	note("remove [%d,%d)", start, end)
	t.r.Remove(start, end)
	var n []byte
	n = append(n, t.b[:start]...)
	n = append(n, t.b[end:]...)
	t.b = n
}

// isSep: a separator starts at i.
func (t *text) isSep(i int) bool {
	if i+len(t.sep) > len(t.b) {
		return false
	}
	c := true
	for j, s := range t.sep {
		c = sym.And(c, t.b[i+j] == s)
	}
	return sym.Decide(c)
}

// straddled: a separator crosses a leaf boundary.
func (t *text) straddled() bool {
	at, r := 0, false
	t.r.EachLeaf(func(l *linerope.Node) bool {
		for k := 1; k < len(t.sep); k++ {
			if at-k >= 0 && at > 0 && at < len(t.b) && t.isSep(at-k) {
				r = true
			}
		}
		at += l.Len()
		return false
	})
	return r
}

// lc lists the line and column of every offset, the end included.
func (t *text) lc() (line, col []int) {
	n, start := 0, 0
	for i := 0; i <= len(t.b); {
		k := 1
		sep := t.isSep(i)
		if sep {
			k = len(t.sep)
		}
		for j := i; j < i+k; j++ {
			line, col = append(line, n), append(col, j-start)
		}
		i += k
		if sep {
			n++
			start = i
		}
	}
	return
}

// audit compares every conversion.
func (t *text) audit() {
	n := len(t.b)
	line, col := t.lc()
	sym.Assert(t.r.NumLines() == line[n], "number of lines")
	l, c := t.r.LLen()
	sym.Assert(l == line[n] && c == col[n], "end location")
	sym.Obs(l)
	sym.Obs(c)
	for i := 0; i <= n; i++ {
		l, c := t.r.LineColAt(i)
		sym.Assert(l == line[i] && c == col[i], "line and column of an offset")
		sym.Assert(t.r.OffsetAt(line[i], col[i]) == i, "offset of a line and column")
	}
	if line[n] > 1 {
		sym.Reach("several lines")
	}
}

// slice compares one slice by line and column.
func (t *text) slice() {
	n := len(t.b)
	line, col := t.lc()
	i := sym.Concrete(sym.Range(0, n))
	j := sym.Concrete(sym.Range(0, n))
	note("slice [%d:%d) of %q", i, j, t.b)
	got := t.r.SliceLC(line[i], col[i], line[j], col[j])
	want := []byte{}
	if i < j {
		want = t.b[i:j]
	}
	sym.Assert(len(got) == len(want), "length of a slice by line and column")
	for k := range want {
		sym.Assert(got[k] == want[k], "bytes of a slice by line and column")
	}
}

func (t *text) check() {
	if t.straddled() {
		sym.Assume(false) // see U_straddle
	}
	if sym.Decide(sym.Bool()) {
		t.audit()
	} else {
		t.slice()
	}
}

func (t *text) edit(k int) {
	n := len(t.b)
	switch sym.Concrete(sym.Choose(2)) {
	case 0:
		t.insert(sym.Concrete(sym.Range(0, n)), sym.Bytes(k))
	default:
		s := sym.Concrete(sym.Range(0, n))
		t.remove(s, sym.Concrete(sym.Range(s, n)))
	}
}

// restructure changes the shape but not the content.
func (t *text) restructure() {
	switch sym.Concrete(sym.Choose(3)) {
	case 0:
		note("rebuild")
		t.r.Rebuild()
	case 1:
		note("rebalance")
		t.r.Rebalance()
	default:
		i := sym.Concrete(sym.Range(0, len(t.b)))
		note("split at %d and join", i)
		a, b := t.r.SplitAt(i)
		t.r = linerope.Join(a, b)
	}
}

// U_built: freshly built ropes.
//
// unit: budget=40
// bounds: 3 (thorough 5) settings of the thresholds, an arbitrary 1-byte separator, texts of 0..6 (thorough 8) arbitrary bytes, every offset and every slice
func U_built() {
	sep := sym.Bytes(1)
	t := build(sym.Bytes(sym.Concrete(sym.Range(0, sym.Pick(6, 8)))), sep, options(sep))
	t.check()
}

// U_edits: edited ropes.
//
// unit: budget=60
// bounds: 3 (thorough 5) settings, separator newline, texts of 0, 2 or 4 (thorough 0..5) arbitrary bytes, 1 (thorough 2) insertion of 2 arbitrary bytes or removal anywhere, a change of shape or none, every offset and every slice
func U_edits() {
	sep := []byte("\n")
	n := one(0, 2, 4)
	if sym.Thorough() {
		n = sym.Concrete(sym.Range(0, 5))
	}
	t := build(sym.Bytes(n), sep, options(sep))
	for i := 0; i < sym.Pick(1, 2); i++ {
		t.edit(2)
	}
	if sym.Decide(sym.Bool()) {
		t.restructure()
	}
	t.check()
}

// U_wide: separators of several bytes.
//
// unit: budget=60
// bounds: 3 (thorough 5) settings, separators of 2 or 3 arbitrary distinct bytes no occurrence of which crosses a leaf boundary, texts of 0..4 (thorough 6) arbitrary bytes, one insertion of 2 arbitrary bytes or removal, or none, every offset and every slice
func U_wide() {
	sep := sym.Bytes(one(2, 3))
	sym.Assume(sep[0] != sep[1])
	if len(sep) == 3 {
		sym.Assume(sep[0] != sep[2])
	}
	t := build(sym.Bytes(sym.Concrete(sym.Range(0, sym.Pick(4, 6)))), sep, options(sep))
	if sym.Decide(sym.Bool()) {
		t.edit(2)
	}
	t.check()
}

// U_straddle: a separator of two bytes that crosses a leaf boundary.
//
// unit: budget=10
// bounds: the text "a\r\nb" with separator "\r\n" in leaves of 2 bytes
func U_straddle() {
	sep := []byte("\r\n")
	t := build([]byte("a\r\nb"), sep, linerope.Options{SplitLen: 2, JoinLen: 1, RebalanceRatio: 1.2, LineSep: sep})
	t.audit()
}

// skim compares some conversions of a large text.
func (t *text) skim(places int) {
	n := len(t.b)
	line, col := t.lc()
	sym.Assert(t.r.NumLines() == line[n], "number of lines")
	l, c := t.r.LLen()
	sym.Assert(l == line[n] && c == col[n], "end location")
	for k := 0; k <= places; k++ {
		i := k * n / places
		l, c := t.r.LineColAt(i)
		sym.Assert(l == line[i] && c == col[i], "line and column of an offset")
		sym.Assert(t.r.OffsetAt(line[i], col[i]) == i, "offset of a line and column")
		j := min(n, i+n/3+1)
		got := t.r.SliceLC(line[i], col[i], line[j], col[j])
		sym.Assert(len(got) == j-i, "length of a slice by line and column")
		for x := range got {
			sym.Assert(got[x] == t.b[i+x], "bytes of a slice by line and column")
		}
	}
}

// U_big: large texts.
//
// unit: budget=30
// bounds: the default settings and 3 others, texts of one byte more than 4 times the split threshold (thorough also at or one above it, its double and 4 times it), lines of 9 (thorough also 1 and 70) bytes or a single one, separator newline, 2 (default settings: 1, thorough: 3) insertions of 1 byte, half or one and a half times the threshold and removals at any of 3 (thorough 5) places, a change of shape or none, one arbitrary byte in the text and in each insertion; 7 (thorough 40) offsets and slices
func U_big() {
	sym.Steps(200_000_000)
	var o linerope.Options
	switch sym.Concrete(sym.Choose(4)) {
	case 0:
		o = linerope.DefaultOptions
	case 1:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 32, 16, 1.2
	case 2:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 20, 30, 3
	default:
		o.SplitLen, o.JoinLen, o.RebalanceRatio = 17, 4, 1
	}
	o.LineSep = []byte("\n")
	every := one([]int{9, 1 << 30, 1, 70}[:sym.Pick(2, 4)]...)
	lines := func(n int, at int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = 'A' + byte(i*i%53)
			if i%every == every-1 {
				b[i] = '\n'
			}
		}
		if n > 0 {
			b[at] = sym.Byte()
		}
		return b
	}
	T := o.SplitLen
	n := one([]int{4 * T, T, 2 * T}[:sym.Pick(1, 3)]...) + one([]int{1, 0}[:sym.Pick(1, 2)]...)
	t := build(lines(n, n/2), o.LineSep, o)
	edits := 2
	if T > 1000 {
		edits = 1
	}
	for i := 0; i < sym.Pick(edits, 3); i++ {
		n := len(t.b)
		at := max(0, []int{n / 2, 0, n, n / 3, n - 1}[sym.Concrete(sym.Choose(sym.Pick(3, 5)))])
		l := one(1, T/2, T+T/2)
		if sym.Decide(sym.Bool()) {
			t.insert(at, lines(l, l-1))
		} else {
			t.remove(at, min(n, at+l))
		}
	}
	switch sym.Concrete(sym.Choose(sym.Pick(2, 4))) {
	case 0:
	case 1:
		i := len(t.b) / 3
		a, b := t.r.SplitAt(i)
		t.r = linerope.Join(a, b)
	case 2:
		t.r.Rebuild()
	default:
		t.r.Rebalance()
	}
	t.skim(sym.Pick(6, 39))
}
