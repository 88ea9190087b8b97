// Package c17 decides property C17: errors are logged in order and recovery
// continues the parse.
package c17

import (
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

// check compares one parse with the reference.
func check(p *P, in []byte) {
	Note(p, in)
	prog, err := pattern.Compile(p.Build())
	sym.Assert(err == nil, "pattern does not compile")
	code := vm.Encode(prog)
	ok, n, c, errs := code.Exec(&Reader{B: in}, memo.NoneTable{})
	wok, wn, caps, m := Run(p, in)
	sym.ObsB(ok)
	sym.Obs(len(errs))
	sym.Assert(ok == wok, "verdict")
	sym.Assert(len(errs) == len(m.Log), "number of errors")
	for i, e := range m.Log {
		sym.Assert(errs[i].Pos == e.Pos, "position of an error")
		sym.Assert(errs[i].Message == e.Msg, "message of an error")
		sym.Obs(errs[i].Pos)
	}
	if m.Aborted {
		sym.Assert(n == m.AbortAt, "position of the failure")
		sym.Reach("aborted")
		return
	}
	if !wok {
		return
	}
	sym.Obs(n)
	sym.Assert(n == wn, "end")
	SameTree(c, caps, "captures")
	if len(errs) > 1 {
		sym.Reach("recovered")
	}
}

// U_small: every small pattern with errors.
//
// unit: budget=60
// bounds: every pattern term of 2..4 (thorough 5) nodes over leaves {1-byte literal, arbitrary subset of 64..127, any, error without recovery} and operators {star, option, not, and, capture, error with recovery, alternation, concatenation}, all byte values, subjects of 0..2 (thorough 3) bytes
func U_small() {
	g := &Gen{Word: true, Throw: true, Leaves: []Op{Lit, Set, Any}, Unary: []Op{Star, Opt, Not, And, Cap, Err}, Binary: []Op{Alt, Seq}}
	p := g.Pattern(sym.Concrete(sym.Range(2, sym.Pick(4, 5))))
	check(p, Subject(sym.Pick(2, 3)))
}

// U_tree: errors in larger alternations and sequences.
//
// unit: budget=60
// bounds: every binary tree of alternation and concatenation with 3 (thorough 4) leaves from {1-byte literal, error without recovery}, 2 sub-trees under {error with recovery, star, option} , all byte values, subjects of 0..3 bytes
func U_tree() {
	g := &Gen{Throw: true, Leaves: []Op{Lit}, Unary: []Op{Err, Star, Opt}, Binary: []Op{Alt, Seq}}
	check(g.Tree(sym.Pick(3, 4), 2), Subject(3))
}

func b() *P { return LB(sym.Byte()) }

// U_list: a list that synchronises after an error.
//
// unit: budget=60
// bounds: a list grammar of items and separators with arbitrary bytes; each of the three error sites recovers by skipping to a separator, to an item or not at all, by an expression or by a rule; messages distinct or equal; subjects of 0..4 (thorough 5) bytes
func U_list() {
	item, sep := sym.Byte(), sym.Byte()
	sync := func(c byte) *P { return Un(Star, Cat(Un(Not, LB(c)), AnyN(1))) }
	same := sym.Decide(sym.Bool())
	site := func(msg, rule string) *P {
		if same {
			msg = "same"
		}
		switch sym.Concrete(sym.Choose(4)) {
		case 0:
			return Error(msg, NT(rule))
		case 1:
			return Error(msg, sync(sep))
		case 2:
			return Error(msg, E())
		}
		return Error(msg, nil)
	}
	p := Grammar("S", []string{"S", "Item", "Sep", "ToItem", "ToSep"}, []*P{
		Or(Cat(NT("Item"), Un(Star, Cat(Un(And, AnyN(1)), NT("Sep"), Or(NT("Item"), site("item", "ToSep"))))), Cat(AnyN(1), site("list", "ToItem"))),
		Capt(Un(Plus, LB(item)), 1),
		Or(LB(sep), site("sep", "ToItem")),
		sync(item),
		sync(sep),
	})
	// every round of the list must consume: skip lists where neither part does
	if _, wf := Sound(p); !wf {
		sym.Assume(false)
	}
	check(p, Subject(sym.Pick(4, 5)))
}

// U_rules: errors in rules, in every position.
//
// unit: budget=60
// bounds: a rule of 5 forms used in the middle, in tail position, repeated, looked ahead, searched or recursively, whose error recovers by a byte, by a rule (also the same rule) or not; inlining thresholds {0, 100}; all byte values, subjects of 0..3 bytes
func U_rules() {
	pattern.InlineThreshold = 100 * sym.Concrete(sym.Choose(2))
	var rec *P
	switch sym.Concrete(sym.Choose(4)) {
	case 0:
		rec = b()
	case 1:
		rec = NT("R")
	case 2:
		rec = Cat(AnyN(1), NT("A"))
	}
	er := Error("a", rec)
	var a *P
	switch sym.Concrete(sym.Choose(5)) {
	case 0:
		a = Or(b(), er)
	case 1:
		a = Cat(b(), er)
	case 2:
		a = Cat(er, b())
	case 3:
		a = Or(Cat(b(), er), b())
	default:
		a = Capt(Or(Cat(b(), b()), er), 3)
	}
	A := NT("A")
	var s *P
	switch sym.Concrete(sym.Choose(8)) {
	case 0:
		s = Cat(b(), A, b())
	case 1:
		s = Or(b(), A)
	case 2:
		s = Un(Star, Cat(b(), A))
	case 3:
		s = Cat(Un(Not, A), AnyN(1))
	case 4:
		s = Cat(Un(And, A), A)
	case 5:
		s = Un(Search, A)
	case 6:
		s = Or(Cat(b(), NT("S")), A)
	default:
		s = Or(Cat(A, b()), Cat(A, Error("s", b())))
	}
	p := Grammar("S", []string{"S", "A", "R"}, []*P{s, a, Or(b(), Error("r", AnyN(1)))})
	if _, wf := Sound(p); !wf {
		sym.Assume(false)
	}
	check(p, Subject(3))
}

// U_nested: recovery patterns that contain errors themselves.
//
// unit: budget=40
// bounds: three errors nested as each other's recovery, with a byte before, behind or as alternative at each level, the last with or without recovery, alone, repeated, optional or followed by an alternative; subjects of 0..3 bytes
func U_nested() {
	var p *P
	if sym.Decide(sym.Bool()) {
		p = b()
	}
	for i := 0; i < 3; i++ {
		p = Error(string(rune('x'+i)), p)
		switch sym.Concrete(sym.Choose(4)) {
		case 0:
			p = Cat(b(), p)
		case 1:
			p = Cat(p, b())
		case 2:
			p = Or(b(), p)
		}
	}
	switch sym.Concrete(sym.Choose(4)) {
	case 0:
		if p.Nullable() {
			sym.Assume(false)
		}
		p = Un(Star, p)
	case 1:
		p = Un(Opt, p)
	case 2:
		p = Or(p, b())
	}
	check(p, Subject(3))
}

// U_context: errors below every other operator.
//
// unit: budget=40
// bounds: an error with and without recovery, after a byte or not, below {repeat 2, plus, search, checker, memo, capture, star of a capture} and followed by a byte; subjects of 0..3 bytes
func U_context() {
	var rec *P
	if sym.Decide(sym.Bool()) {
		rec = b()
	}
	p := Error("e", rec)
	if sym.Decide(sym.Bool()) {
		p = Cat(b(), p)
	}
	switch sym.Concrete(sym.Choose(7)) {
	case 0:
		p = Repeat(p, 2)
	case 1:
		p = Un(Plus, p)
	case 2:
		p = Un(Search, p)
	case 3:
		p = MemoP(p)
	case 4:
		p = Capt(p, 1)
	case 5:
		p = Un(Star, Capt(p, 1))
	default:
		p = Un(Star, Un(Search, p))
	}
	check(Cat(p, Un(Opt, b())), Subject(3))
}

// U_many: many errors, and errors far into the text.
//
// unit: budget=20
// bounds: a list of items of which every k-th (k in 1, 2, 7) is damaged, 150 (thorough 300) items long or 20 items long behind 4080 (thorough also 70000) bytes; the errors recover by skipping to the separator, by a rule with a capture or by nothing, or the last does not recover; one arbitrary byte at any of 4 places of the list
func U_many() {
	sym.Steps(100_000_000)
	n, skip := sym.Pick(150, 300), 0
	if k := sym.Concrete(sym.Choose(sym.Pick(2, 3))); k > 0 {
		n, skip = 20, []int{0, 4080, 70000}[k]
	}
	k := []int{1, 2, 7}[sym.Concrete(sym.Choose(3))]
	var in []byte
	for i := 0; i < skip; i++ {
		in = append(in, '-')
	}
	for i := 0; i < n; i++ {
		if i%k == 0 {
			in = append(in, "xi,"...)
		} else {
			in = append(in, "ii,"...)
		}
	}
	in = append(in, '.')
	l := len(in) - skip
	in[skip+[]int{0, l/2 + 1, l - 2, l - 1}[sym.Concrete(sym.Choose(4))]] = sym.Byte()
	sync := Un(Star, Cat(Un(Not, Or(L(","), L("."))), AnyN(1)))
	var rec *P
	switch sym.Concrete(sym.Choose(4)) {
	case 0:
		rec = Error("item", sync)
	case 1:
		rec = Error("item", NT("Skip"))
	case 2:
		rec = Cat(Error("item", E()), Un(Opt, L("x")), Un(Star, L("i")))
	default:
		rec = Error("item", Or(Cat(sync, Un(And, L(","))), Error("end", nil)))
	}
	p := Grammar("S", []string{"S", "Item", "Skip"}, []*P{
		Cat(Un(Star, L("-")), Un(Star, Cat(Or(NT("Item"), rec), Or(L(","), Cat(Error("comma", E()), AnyN(1))), Un(And, AnyN(1)), Un(Not, L("."))))),
		Capt(Cat(L("i"), L("i")), 1),
		Capt(sync, 2),
	})
	check(p, in)
}
