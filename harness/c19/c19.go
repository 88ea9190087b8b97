// Package c19 decides property C19: an interval parse returns the captures
// that overlap the interval.
package c19

import (
	"fmt"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

func one(l ...int) int { return l[sym.Concrete(sym.Choose(len(l)))] }

func b() *P { return LB(sym.Byte()) }

// overlaps tells whether a capture shares a byte with the interval or, if it
// is empty, lies inside it.
func overlaps(n *Node, lo, hi int) bool {
	return lo < n.Start+n.Len && n.Start < hi
}

// kept are the captures overlapping the interval, nested as they were.
func kept(l []*Node, lo, hi int) []*Node {
	var r []*Node
	for _, n := range l {
		kids := kept(n.Kids, lo, hi)
		if overlaps(n, lo, hi) {
			r = append(r, &Node{Id: n.Id, Start: n.Start, Len: n.Len, Kids: kids})
		} else {
			r = append(r, kids...)
		}
	}
	return r
}

func cover(l []*Node, lo, hi int) (int, int) {
	for _, n := range l {
		if n.Start < lo {
			lo = n.Start
		}
		if n.Start+n.Len > hi {
			hi = n.Start + n.Len
		}
		lo, hi = cover(n.Kids, lo, hi)
	}
	return lo, hi
}

type doc struct {
	p    *P
	code vm.Code
	tbl  memo.Table
	text []byte
	at   int // where the text begins
}

func open(p *P, text []byte, tbl memo.Table) *doc {
	return openAt(p, text, 0, tbl)
}

func openAt(p *P, text []byte, at int, tbl memo.Table) *doc {
	Note(p, text)
	d := &doc{p: p, tbl: tbl, text: text, at: at}
	patt := p.Build()
	if at > 0 {
		patt = From(&d.at, patt)
	}
	prog, err := pattern.Compile(patt)
	sym.Assert(err == nil, "pattern does not compile")
	d.code = vm.Encode(prog)
	return d
}

// parse parses an interval.
func (d *doc) parse(lo, hi int) {
	if sym.Native() {
		sym.Note(fmt.Sprintf("interval [%d,%d)", lo, hi))
	}
	lo, hi = lo+d.at, hi+d.at
	ok, n, c, _ := d.code.ExecInterval(&Far{d.at, d.text}, d.tbl, &vm.Interval{Low: lo, High: hi})
	wok, wn, all, _ := Run(d.p, d.text)
	wn, all = wn+d.at, Moved(all, d.at)
	sym.ObsB(ok)
	sym.Assert(ok == wok, "verdict")
	if !ok {
		return
	}
	sym.Obs(n)
	sym.Assert(n == wn, "end")
	want := kept(all, lo, hi)
	SameTree(c, want, "captures of the interval")
	wlo, whi := cover(want, lo, hi)
	sym.Obs(c.Start())
	sym.Obs(c.Len())
	sym.Assert(c.Start() == wlo && c.End() == whi, "span of the root")
	if len(want) > 0 && len(want) < len(all) {
		sym.Reach("some of the captures")
	}
}

// interval is any non-empty interval beginning in the text, possibly ending
// behind it.
func (d *doc) interval() (int, int) {
	lo := sym.Concrete(sym.Range(0, len(d.text)))
	return lo, lo + sym.Concrete(sym.Range(1, len(d.text)+1-lo))
}

func (d *doc) change() {
	start := sym.Concrete(sym.Range(0, len(d.text)))
	end := start
	if start < len(d.text) {
		end += sym.Concrete(sym.Choose(2))
	}
	add := Subject(1)
	if sym.Native() {
		sym.Note(fmt.Sprintf("edit [%d,%d) := %q", start, end, add))
	}
	t := append([]byte{}, d.text[:start]...)
	t = append(t, add...)
	d.text = append(t, d.text[end:]...)
	d.tbl.ApplyEdit(memo.Edit{Start: start, End: end, Len: len(add)})
}

// U_terms: captures anywhere.
//
// unit: budget=60
// bounds: every pattern term of 1..5 (thorough 6) nodes with a capture over leaves {1-byte literal, any, empty} and operators {capture, star, option, not, and, alternation, concatenation}, every non-empty interval, no table, subjects of 0..3 arbitrary bytes
func U_terms() {
	g := &Gen{Leaves: []Op{Lit, Any, Empty}, Unary: []Op{Cap, Star, Opt, Not, And}, Binary: []Op{Alt, Seq}}
	p := g.Pattern(sym.Concrete(sym.Range(1, sym.Pick(5, 6))))
	if g.Caps() == 0 {
		sym.Assume(false)
	}
	d := open(p, Subject(3), memo.NoneTable{})
	d.parse(d.interval())
}

// template is a pattern with many captures and memo entries.
func template(i int) *P {
	any := AnyN(1)
	switch i {
	case 0:
		return Un(Star, MemoP(Capt(Cat(any, Un(Opt, Capt(b(), 1))), 2)))
	case 1:
		return Un(Star, Capt(MemoP(Cat(any, Un(Opt, Capt(b(), 1)))), 2))
	case 2: // an abandoned capture
		return Or(Cat(Capt(Cat(any, any), 1), b()), Un(Star, Capt(any, 2)))
	case 3:
		return Capt(Cat(Un(Star, Capt(Cat(b(), Capt(any, 1)), 2)), Un(Opt, Capt(any, 3))), 4)
	case 4:
		return Grammar("S", []string{"S", "A"}, []*P{Cat(NT("A"), Un(Opt, NT("S"))), MemoP(Capt(Or(Cat(b(), NT("A")), any), 1))})
	case 5:
		return Cat(MemoP(Un(Opt, Capt(b(), 1))), Un(Opt, Capt(MemoP(Cat(any, Un(And, Capt(any, 2)))), 3)), Un(Star, any))
	case 6:
		return Grammar("S", []string{"S", "A"}, []*P{Capt(Or(Cat(NT("A"), NT("S")), E()), 1), Capt(any, 2)})
	}
	return Un(Star, Or(MemoP(Capt(Cat(b(), Un(Not, b())), 1)), Cat(Capt(E(), 2), Capt(any, 3))))
}

// U_nested: nested, repeated, recursive and abandoned captures.
//
// unit: budget=60
// bounds: 8 templates, every interval, no table, subjects of 0..4 (thorough 5) arbitrary bytes
func U_nested() {
	d := open(template(one(0, 1, 2, 3, 4, 5, 6, 7)), Subject(sym.Pick(4, 5)), memo.NoneTable{})
	d.parse(d.interval())
}

// U_table: several interval parses with one table.
//
// unit: budget=60
// bounds: 8 templates, thresholds {0, 2}, 2 (thorough 3) interval parses of subjects of 0..2 (thorough 3) arbitrary bytes, with or without an edit of up to 1 byte for up to 1 byte in between
func U_table() {
	d := open(template(one(0, 1, 2, 3, 4, 5, 6, 7)), Subject(sym.Pick(2, 3)), memo.NewTreeTable(one(0, 2)))
	d.parse(d.interval())
	for i := 1; i < sym.Pick(2, 3); i++ {
		if sym.Decide(sym.Bool()) {
			d.change()
		}
		d.parse(d.interval())
		if d.tbl.Size() > 0 {
			sym.Reach("table used")
		}
	}
}

// U_runs: memoized repetitions.
//
// unit: budget=60
// bounds: repetitions of 3 memoized elements, with captures in or around the elements, of 4 or 5 (thorough 4..8) bytes, 2 interval parses, the first of any interval, the second of the first, last or middle bytes, with or without the replacement of one byte in between, threshold 0
func U_runs() {
	var e *P
	switch one(0, 1, 2) {
	case 0:
		e = MemoP(Capt(AnyN(1), 1))
	case 1:
		e = MemoP(Or(Capt(b(), 1), Capt(Cat(AnyN(1), Un(Opt, AnyN(1))), 2)))
	default:
		e = MemoP(Cat(AnyN(1), Un(Opt, Capt(E(), 3))))
	}
	n := sym.Concrete(sym.Range(4, sym.Pick(5, 8)))
	in := sym.Bytes(n)
	d := open(Un(Star, e), in, memo.NewTreeTable(0))
	d.parse(d.interval())
	if sym.Decide(sym.Bool()) {
		at := sym.Concrete(sym.Choose(n))
		d.text = append([]byte{}, d.text...)
		d.text[at] = sym.Byte()
		if sym.Native() {
			sym.Note(fmt.Sprintf("byte %d := %q", at, d.text[at]))
		}
		d.tbl.ApplyEdit(memo.Edit{Start: at, End: at + 1, Len: 1})
	}
	switch one(0, 1, 2) {
	case 0:
		d.parse(0, 1)
	case 1:
		d.parse(n-2, n)
	default:
		d.parse(1, 3)
	}
	sym.Reach("run")
}

// U_nil: no interval.
//
// unit: budget=10
// bounds: the 8 templates, no interval given, subjects of 0..3 arbitrary bytes
func U_nil() {
	p := template(one(0, 1, 2, 3, 4, 5, 6, 7))
	d := open(p, Subject(3), memo.NoneTable{})
	ok, n, c, _ := d.code.ExecInterval(&Reader{B: d.text}, d.tbl, nil)
	wok, wn, all, _ := Run(p, d.text)
	sym.Assert(ok == wok, "verdict")
	if ok {
		sym.Assert(n == wn, "end")
		SameTree(c, all, "captures")
		sym.Assert(c.Start() == 0 && c.Len() == n, "span of the root")
	}
}

// U_long: long captures and arbitrary intervals.
//
// unit: budget=30
// bounds: texts of 3 runs of 1, 300 or 5000 equal bytes, captured in 3 ways (each run and everything, by constant width and late starts, behind lookahead), any interval with 0 <= low < high <= 20000, no table
func U_long() {
	sym.Steps(60000000)
	var in []byte
	var runs []*P
	for i := 0; i < 3; i++ {
		c := byte('a' + i)
		for k := one(1, 300, 5000); k > 0; k-- {
			in = append(in, c)
		}
		r := Un(Star, L(string(c)))
		switch i {
		case 1:
			r = Cat(L(string(c)), r)
		case 2:
			r = Un(Plus, Cls(charset.Range('c', 'd')))
		}
		runs = append(runs, r)
	}
	var p *P
	switch one(0, 1, 2) {
	case 0:
		p = Capt(Cat(Capt(runs[0], 1), Capt(runs[1], 2), Capt(runs[2], 3)), 4)
	case 1:
		p = Cat(runs[0], Capt(L("b"), 1), Un(Star, L("b")), Capt(Cat(AnyN(1), Capt(runs[2], 2)), 3))
		p = Or(p, Capt(Cat(runs[0], runs[1], runs[2]), 4))
	default:
		p = Cat(Un(And, Cat(Capt(runs[0], 1), Capt(runs[1], 2))), Capt(Cat(runs[0], Capt(runs[1], 3)), 4), Un(Star, Capt(Un(Plus, AnyN(1)), 5)))
	}
	d := open(p, in, memo.NoneTable{})
	lo := int(sym.U64() & 0x7fff)
	hi := int(sym.U64() & 0x7fff)
	sym.Assume(sym.And(lo < hi, hi <= 20000))
	d.parse(lo, hi)
}

// U_many: many captures.
//
// unit: budget=20
// bounds: 40 (thorough 150) captures in a row, or 20 (thorough 80) nested, or 4 (thorough 8) groups of 8 inside captures with empty captures between them, with an arbitrary interval that begins at any of 3 places (thorough anywhere) and ends anywhere up to 20000; no table
func U_many() {
	sym.Steps(100_000_000)
	var p *P
	var in []byte
	switch one(0, 1, 2) {
	case 0:
		n := sym.Pick(40, 150)
		for i := 0; i < n; i++ {
			in = append(in, "aab"[i%3])
		}
		p = Un(Star, Or(Capt(L("a"), 1), Capt(L("b"), 2)))
	case 1:
		n := sym.Pick(20, 80)
		for i := 0; i < 2*n; i++ {
			in = append(in, "()"[i/n])
		}
		p = Grammar("S", []string{"S"}, []*P{Capt(Cat(L("("), Un(Opt, NT("S")), L(")")), 3)})
	default:
		for i := 0; i < sym.Pick(36, 72); i++ {
			in = append(in, "aaaaaaaa;"[i%9])
		}
		p = Un(Star, Cat(Capt(Un(Plus, Capt(L("a"), 1)), 2), Capt(E(), 3), L(";")))
	}
	lo := sym.Concrete(sym.Range(0, len(in)))
	if !sym.Thorough() {
		lo = one(0, len(in)/2, len(in)-1)
	}
	hi := int(sym.U64() & 0x7fff)
	sym.Assume(sym.And(lo < hi, hi <= 20000))
	open(p, in, memo.NoneTable{}).parse(lo, hi)
}

// U_far: intervals at far positions.
//
// unit: budget=30
// bounds: the 8 templates matched at positions 65535, 2^31-2, 2^32-1 and 2^40, where 0..2 (thorough 3) arbitrary bytes follow; every interval there, with a table (threshold 0) or without; two parses
func U_far() {
	p := template(sym.Concrete(sym.Choose(8)))
	var tbl memo.Table = memo.NoneTable{}
	if one(0, 1) == 1 {
		tbl = memo.NewTreeTable(0)
	}
	d := openAt(p, Subject(sym.Pick(2, 3)), one(Places...), tbl)
	d.parse(d.interval())
	d.parse(0, 1)
}
