// Package c23 decides property C23: zero-width assertions test the bytes
// around the position.
package c23

import (
	"regexp/syntax"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

func one(l ...int) int { return l[sym.Concrete(sym.Choose(len(l)))] }

func b() *P { return LB(sym.Byte()) }

// assertion is one of the six kinds.
func assertion() *P {
	return &P{Op: EmptyOp, EOp: syntax.EmptyOp(1 << uint(sym.Concrete(sym.Choose(6))))}
}

func check(p *P, in []byte, tbl memo.Table) {
	Note(p, in)
	prog, err := pattern.Compile(p.Build())
	sym.Assert(err == nil, "pattern does not compile")
	code := vm.Encode(prog)
	wok, wn, caps, _ := Run(p, in)
	ok, n, c, _ := code.Exec(&Reader{B: in}, tbl)
	sym.ObsB(ok)
	sym.Assert(ok == wok, "verdict")
	if !ok {
		return
	}
	sym.Obs(n)
	sym.Assert(n == wn, "end")
	SameTree(c, caps, "captures")
	if n > 1 {
		sym.Reach("asserted")
	}
}

// U_every: every assertion at every position.
//
// unit: budget=30
// bounds: each of the 6 assertions after 0..4 (thorough 6) arbitrary bytes, with 0..4 (thorough 6) behind
func U_every() {
	k := sym.Concrete(sym.Range(0, sym.Pick(4, 6)))
	a := assertion()
	p := a
	if k > 0 {
		p = Cat(AnyN(k), a)
	}
	check(p, sym.Bytes(k+sym.Concrete(sym.Range(0, sym.Pick(4, 6)))), memo.NoneTable{})
}

// U_context: assertions inside other patterns.
//
// unit: budget=60
// bounds: 1 or 2 assertions of any kinds alone, in sequences, choices, repetitions, options, predicates, captures, searches, memo entries and rules, after predicates and abandoned alternatives that went further; subjects of 0..3 (thorough 4) arbitrary bytes
func U_context() {
	a := assertion()
	any := AnyN(1)
	var p *P
	switch one(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15) {
	case 0:
		p = Cat(a, any)
	case 1:
		p = Cat(any, a, b())
	case 2:
		p = Or(Cat(any, any, b()), Cat(any, a))
	case 3:
		p = Or(Cat(any, a), Cat(any, any))
	case 4:
		p = Un(Star, Cat(any, a))
	case 5:
		p = Un(Plus, Cat(a, any))
	case 6:
		p = Cat(any, Un(Not, a), Un(Opt, any))
	case 7:
		p = Cat(any, Un(And, a), Un(Opt, any))
	case 8:
		p = Cat(any, Un(And, Cat(any, any)), a)
	case 9:
		p = Cat(any, Un(Not, Cat(any, b())), a)
	case 10:
		p = Cat(Un(Search, Cat(a, b())), a)
	case 11:
		p = Un(Star, Cat(Un(Not, Cat(any, a)), Capt(any, 1)))
	case 12:
		p = Cat(Un(Star, b()), a, assertion())
	case 13:
		p = Grammar("S", []string{"S", "A"}, []*P{Or(Cat(any, NT("A"), NT("S")), any), a})
	case 14:
		p = Cat(Un(Opt, Cat(any, Capt(a, 1), any)), a)
	default:
		p = Un(Search, Cat(Capt(Un(Star, Cls(WordSet())), 1), a, Un(Not, b())))
	}
	check(p, Subject(sym.Pick(3, 4)), memo.NoneTable{})
}

// U_memo: assertions in memo entries.
//
// unit: budget=30
// bounds: an assertion alone, before, behind or between bytes in a memo entry used at several positions, with a fresh table of threshold 0; subjects of 0..3 (thorough 4) arbitrary bytes
func U_memo() {
	a := assertion()
	any := AnyN(1)
	var m *P
	switch one(0, 1, 2, 3) {
	case 0:
		m = MemoP(Un(Opt, Cat(a, any)))
	case 1:
		m = MemoP(Cat(any, a))
	case 2:
		m = MemoP(Cat(Capt(any, 1), Un(Opt, Cat(a, Capt(any, 2)))))
	default:
		m = MemoP(Or(Cat(any, any, a), any))
	}
	m.Share = true
	var p *P
	switch one(0, 1, 2) {
	case 0:
		p = Cat(any, Or(Cat(m, b()), m))
	case 1:
		p = Or(Cat(any, m, b()), Cat(any, m), m)
	default:
		p = Cat(m, Un(Opt, m), Un(Opt, m))
	}
	check(p, Subject(sym.Pick(3, 4)), memo.NewTreeTable(0))
}

// U_far: positions around buffer boundaries.
//
// unit: budget=60
// bounds: each assertion at positions 4095..4097 (thorough 4094..4098 and 8192; the input buffer's boundaries), the bytes before and behind arbitrary, at the end or not, reached directly, by a repetition, or after a predicate or abandoned alternative looked up to 3 bytes further
func U_far() {
	sym.Steps(20000000)
	at := []int{4095, 4096, 4097, 4094, 4098, 8192}[sym.Concrete(sym.Choose(sym.Pick(3, 6)))]
	in := make([]byte, at-1)
	for i := range in {
		in[i] = '-'
	}
	in = append(in, sym.Byte())
	if n := one(0, 1, 3); n > 0 {
		in = append(in, sym.Byte())
		in = append(in, "bcd"[:n-1]...)
	}
	a := assertion()
	var p *P
	switch one(0, 1, 2) {
	case 0:
		var l []*P
		for n := at; n > 0; n -= 200 {
			if n > 200 {
				l = append(l, AnyN(200))
			} else {
				l = append(l, AnyN(n))
			}
		}
		p = Cat(append(l, a)...)
	case 1:
		sym.Assume(in[at-1] != '-')
		p = Cat(Un(Star, Cls(charset.New([]byte{'-'}))), AnyN(1), a)
	default:
		sym.Assume(in[at-1] != '-')
		p = Cat(Un(Star, Cls(charset.New([]byte{'-'}))), Un(And, AnyN(1)), Un(Opt, Cat(AnyN(3), L("x"))), AnyN(1), Un(Not, Cat(AnyN(2), L("x"))), a)
	}
	check(p, in, memo.NoneTable{})
}
