// Package c20 decides property C20: a search matches at the first possible
// position.
package c20

import (
	"regexp/syntax"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

func one(l ...int) int { return l[sym.Concrete(sym.Choose(len(l)))] }

func b() *P { return LB(sym.Byte()) }

// check compares a parse with the reference, in which a search tries one
// position after the other.
func check(p *P, in []byte) {
	Note(p, in)
	prog, err := pattern.Compile(p.Build())
	sym.Assert(err == nil, "pattern does not compile")
	code := vm.Encode(prog)
	wok, wn, caps, m := Run(p, in)
	ok, n, c, errs := code.Exec(&Reader{B: in}, memo.NoneTable{})
	sym.ObsB(ok)
	sym.Assert(ok == wok, "verdict")
	sym.Assert(len(errs) == len(m.Log), "number of errors")
	if !ok {
		return
	}
	sym.Obs(n)
	sym.Assert(n == wn, "end")
	SameTree(c, caps, "captures")
	if n > 1 {
		sym.Reach("found behind the beginning")
	}
}

// U_terms: searching for anything.
//
// unit: budget=60
// bounds: searches for every pattern term of 1..4 (thorough 5) nodes over leaves {1-byte literal, set with arbitrary part in 64..127, any, empty} and operators {capture, star, option, not, and, memo, alternation, concatenation}, nullable ones included, subjects of 0..3 (thorough 4) arbitrary bytes
func U_terms() {
	g := &Gen{Leaves: []Op{Lit, Set, Any, Empty}, Word: true, Unary: []Op{Cap, Star, Opt, Not, And, Memo}, Binary: []Op{Alt, Seq}}
	k := sym.Concrete(sym.Range(1, sym.Pick(4, 5)))
	if k == sym.Pick(4, 5) {
		g.Leaves = []Op{Lit, Any}
	}
	p := g.Pattern(k)
	n := sym.Pick(3, 4)
	if k > 3 {
		n--
	}
	check(Un(Search, p), Subject(n))
}

// set is a set of a given size with an arbitrary smallest byte.
func set() charset.Set {
	from := one(0, 50, 120, 200)
	n := one(0, 1, 2, 8, 9, 10, 11, 40, 255, 256)
	var l []byte
	for i := 0; i < n; i++ {
		l = append(l, byte(from+i))
	}
	return charset.New(l)
}

// U_sets: sets of every size.
//
// unit: budget=60
// bounds: searches for a set of {0, 1, 2, 8, 9, 10, 11, 40, 255, 256} consecutive bytes beginning at {0, 50, 120, 200} (mod 256), alone, followed by another byte, captured, or after an assertion; subjects of 0..3 arbitrary bytes
func U_sets() {
	s := Cls(set())
	switch one(0, 1, 2, 3) {
	case 1:
		s = Cat(s, b())
	case 2:
		s = Cat(s, Capt(Or(b(), E()), 1))
	case 3:
		s = Cat(Un(Not, b()), s)
	}
	check(Un(Search, s), Subject(3))
}

// U_anyset: arbitrary sets.
//
// unit: budget=60
// bounds: searches for an arbitrary set followed by nothing, a byte or another arbitrary set; subjects of 0..3 arbitrary bytes
func U_anyset() {
	s := Cls(AnySet())
	switch one(0, 1, 2) {
	case 1:
		s = Cat(s, b())
	case 2:
		s = Cat(s, Cls(AnySet()))
	}
	check(Un(Search, s), Subject(3))
}

// target is something to search for.
func target(i int) *P {
	switch i {
	case 0:
		return b()
	case 1:
		return Cat(b(), b())
	case 2:
		return Or(Cat(b(), b()), b())
	case 3:
		return Cls(WordSet())
	case 4:
		return Cat(Cls(WordSet()), Un(Not, b()))
	case 5:
		return Capt(Un(Plus, b()), 3)
	case 6:
		return Cat(AnyN(1), b())
	}
	return MemoP(Cat(b(), Un(Opt, AnyN(1))))
}

// U_repeat: successive occurrences.
//
// unit: budget=60
// bounds: repeated searches (zero or more, one or more, twice, captured, memoized) for 8 targets of 1..2 bytes, with any rest; subjects of 0..4 (thorough 5) arbitrary bytes
func U_repeat() {
	t := target(one(0, 1, 2, 3, 4, 5, 6, 7))
	var p *P
	switch one(0, 1, 2, 3, 4) {
	case 0:
		p = Un(Star, Un(Search, Capt(t, 1)))
	case 1:
		p = Un(Plus, Un(Search, Capt(t, 1)))
	case 2:
		p = Repeat(Un(Search, Capt(t, 1)), 2)
	case 3:
		p = Un(Star, Capt(Un(Search, t), 1))
	default:
		p = Un(Star, MemoP(Un(Search, Capt(t, 1))))
	}
	check(p, Subject(sym.Pick(4, 5)))
}

// U_context: searches inside other patterns.
//
// unit: budget=60
// bounds: searches in sequences, choices, predicates, other searches, grammar rules (also recursive, and for a rule) and before or after errors and assertions, for 4 (thorough 8) targets; subjects of 0..3 arbitrary bytes
func U_context() {
	t := target([]int{2, 4, 7, 5, 0, 1, 3, 6}[sym.Concrete(sym.Choose(sym.Pick(4, 8)))])
	s := Un(Search, t)
	var p *P
	switch one(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10) {
	case 0:
		p = Cat(b(), s, b())
	case 1:
		p = Or(Cat(s, b()), Cat(AnyN(1), s))
	case 2:
		p = Cat(Un(Not, s), AnyN(1))
	case 3:
		p = Cat(Un(And, s), AnyN(1))
	case 4:
		p = Un(Search, Cat(s, b()))
	case 5:
		p = Un(Search, Cat(b(), s))
	case 6:
		p = Grammar("S", []string{"S", "A"}, []*P{Un(Search, NT("A")), t})
	case 7:
		p = Grammar("S", []string{"S", "A"}, []*P{Cat(s, Un(Opt, NT("A"))), Or(Cat(b(), NT("S")), b())})
	case 8:
		p = Cat(Un(Search, Cat(Un(Opt, t), &P{Op: EmptyOp, EOp: []syntax.EmptyOp{syntax.EmptyEndLine, syntax.EmptyWordBoundary}[one(0, 1)]})), Un(Opt, b()))
	case 9:
		p = Un(Search, Or(Cat(t, b()), Cat(b(), Error("e", AnyN(1)))))
	default:
		p = Un(Search, Un(And, t))
	}
	check(p, Subject(3))
}

// U_far: matches far away.
//
// unit: budget=60
// bounds: searches for a literal of 1..3 arbitrary bytes, a set of 1 or 200 bytes, or an alternation, whose first candidate byte comes 4093..4097 (buffer boundary) or 8191 bytes from the beginning, followed by 3 arbitrary bytes
func U_far() {
	var t *P
	switch one(0, 1, 2, 3, 4) {
	case 0:
		t = LB(sym.Byte())
	case 1:
		t = LB(sym.Byte(), sym.Byte(), sym.Byte())
	case 2:
		t = Cat(Cls(charset.New([]byte{'a'})), b())
	case 3:
		t = Cat(Cls(charset.New([]byte{'-'}).Complement()), b())
	default:
		t = Or(Cat(L("a"), b()), L("c"))
	}
	in := make([]byte, one(4093, 4095, 4096, 4097, 8191))
	for i := range in {
		in[i] = '-'
	}
	rest := sym.Bytes(3)
	if t.Op == Lit {
		sym.Assume(t.S[0] != '-')
	}
	sym.Steps(20000000)
	check(Un(Search, t), append(in, rest...))
}
