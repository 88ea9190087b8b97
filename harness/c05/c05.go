// Package c05 decides property C05: a memo table never changes a parse result.
package c05

import (
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

// check parses several times with one table and compares every result, and
// the trees returned before, with the reference.
func check(p *P, in []byte, threshold, times int) { checkAt(p, in, 0, threshold, times) }

// checkAt does so with a text that begins at a position.
func checkAt(p *P, in []byte, at, threshold, times int) {
	Note(p, in)
	patt := p.Build()
	if at > 0 {
		patt = From(&at, patt)
	}
	prog, err := pattern.Compile(patt)
	sym.Assert(err == nil, "pattern does not compile")
	code := vm.Encode(prog)
	wok, wn, caps, _ := Run(p, in)
	wn, caps = wn+at, Moved(caps, at)
	tbl := memo.NewTreeTable(threshold)
	var trees []*memo.Capture
	for i := 0; i < times; i++ {
		ok, n, c, _ := code.Exec(&Far{at, in}, tbl)
		sym.ObsB(ok)
		sym.Assert(ok == wok, "verdict with a memo table")
		if !wok {
			continue
		}
		sym.Obs(n)
		sym.Assert(n == wn, "end with a memo table")
		sym.Assert(c.Start() == 0 && c.Len() == n, "root span")
		trees = append(trees, c)
		for _, t := range trees {
			SameTree(t, caps, "tree with a memo table")
		}
	}
	sym.Obs(tbl.Size())
	if tbl.Size() > 0 {
		sym.Reach("table used")
	}
	if wok && len(caps) > 0 {
		sym.Reach("captures")
	}
}

func one(l ...int) int { return l[sym.Concrete(sym.Choose(len(l)))] }

// U_terms: memo entries anywhere.
//
// unit: budget=60
// bounds: every pattern term of 2..5 (thorough 6) nodes with a memo entry over leaves {1-byte literal, any} and operators {memo, capture, star, option, not, alternation, concatenation} (thorough also and), thresholds {0, 2}, two parses, subjects of 0..3 arbitrary bytes
func U_terms() {
	g := &Gen{Leaves: []Op{Lit, Any}, Unary: []Op{Memo, Cap, Star, Opt, Not}, Binary: []Op{Alt, Seq}}
	if sym.Thorough() {
		g.Unary = append(g.Unary, And)
	}
	p := g.Pattern(sym.Concrete(sym.Range(2, sym.Pick(5, 6))))
	if !has(p, Memo) {
		sym.Assume(false)
	}
	check(p, Subject(3), one(0, 2), 2)
}

func has(p *P, op Op) bool {
	if p.Op == op || p.A != nil && has(p.A, op) {
		return true
	}
	for _, x := range p.L {
		if has(x, op) {
			return true
		}
	}
	return false
}

// caps is a sequence of k captured bytes followed by an optional rest.
func caps(k int, from int) *P {
	var l []*P
	for i := 0; i < k; i++ {
		if i == 1 {
			l = append(l, Capt(LB(sym.Byte()), from+i))
		} else {
			l = append(l, Capt(AnyN(1), from+i))
		}
	}
	return Cat(l...)
}

// U_twice: one memo entry used at the same position more than once.
//
// unit: budget=40
// bounds: an entry with 0..6 captures used by two alternatives, by a lookahead and its continuation, by two lookaheads, inside captures, and in an enclosing entry, with 1..3 further captures after each use; thresholds {0, 1, 4}, 3 parses, subjects of k..k+3 arbitrary bytes for an entry of k bytes
func U_twice() {
	k := one(0, 1, 2, 3, 4, 5, 6)
	m := MemoP(caps(k, 1))
	m.Share = true
	a, b := caps(one(1, 2, 3), 20), Capt(LB(sym.Byte()), 40)
	var p *P
	switch sym.Concrete(sym.Choose(8)) {
	case 0:
		p = Or(Cat(m, a, Capt(L("!"), 9)), Cat(m, b))
	case 1:
		p = Cat(Un(And, Cat(m, a)), m, b)
	case 2:
		p = Cat(Un(And, Capt(Cat(m, a), 11)), Un(And, Capt(Cat(m, b), 12)), Capt(m, 13))
	case 3:
		p = Cat(Un(And, MemoP(Cat(m, a))), Capt(Cat(m, b), 12))
	case 4:
		p = Cat(Un(Not, Cat(m, L("!"))), m, b)
	case 5:
		p = Cat(Un(And, Cat(m, b)), Un(Opt, Cat(m, a)), Un(Opt, b))
	case 6:
		p = Capt(Or(Cat(m, m, b), Cat(m, a), m), 14)
	default:
		o := MemoP(Cat(m, b))
		o.Share = true
		p = Or(Cat(Capt(o, 15), a, L("!")), Cat(o, Un(Opt, a)), Cat(m, a))
	}
	n := k + sym.Concrete(sym.Range(0, 3))
	check(p, sym.Bytes(n), one(0, 1, 4), 3)
}

// element is the body of a memoized repetition.
func element(i int) *P {
	switch i {
	case 0:
		return Capt(L("a"), 1)
	case 1:
		return Cat(Capt(L("a"), 1), Un(Opt, Capt(L("b"), 2)))
	case 2:
		return L("a")
	case 3:
		return Or(Capt(Cat(L("a"), L("b")), 1), Cat(Capt(L("a"), 2), Capt(Un(Opt, L("c")), 3)))
	case 4:
		return Cat(L("a"), Un(Not, L("b")))
	}
	return Capt(Cat(Un(Plus, L("a")), L("b")), 1)
}

// repeated wraps a memoized repetition.
func repeated(k int, e *P) *P {
	s := Un(Star, MemoP(e))
	switch k {
	case 0:
		return s
	case 1:
		return Cat(s, Un(Opt, Capt(AnyN(1), 8)))
	case 2:
		return Capt(s, 7)
	case 3:
		return Or(Cat(s, L("!")), Cat(s, Un(Star, AnyN(1))))
	case 4:
		return Cat(Un(Plus, MemoP(e)), Capt(E(), 6))
	case 5:
		return Cat(Un(And, s), Un(Star, MemoP(Capt(AnyN(1), 5))))
	case 6:
		return Un(Star, MemoP(Cat(Un(Plus, MemoP(e)), Un(Opt, Capt(L(";"), 4)))))
	case 7:
		return Cat(Un(Opt, L("x")), MemoP(Capt(s, 7)), Un(Opt, AnyN(1)))
	}
	return Cat(Un(Not, Cat(s, L("!"))), Capt(s, 3), Un(Star, AnyN(1)))
}

// U_star: repetitions of memo entries combined into trees.
//
// unit: budget=60
// bounds: 6 element bodies in 9 contexts (bare, captured, followed by more, in two alternatives, plus, lookahead, nested repetition, enclosing entry, negative lookahead), subjects of 0..9 (thorough 17) bytes, arbitrary from the first or a middle or only at the last two positions and made of repeated elements before; thresholds {0, 2, 3}, 3 parses
func U_star() {
	i := sym.Concrete(sym.Choose(6))
	e := element(i)
	p := repeated(sym.Concrete(sym.Choose(9)), e)
	n := sym.Concrete(sym.Range(0, sym.Pick(9, 17)))
	in := make([]byte, n)
	unit := []string{"a", "ab", "a", "aba", "a", "ab"}[i]
	from := 0
	if n > 3 {
		from = n - 3 + sym.Concrete(sym.Choose(2))
	}
	for j := range in {
		if j < from {
			in[j] = unit[j%len(unit)]
		} else {
			in[j] = sym.Byte()
		}
	}
	check(p, in, one(0, 2, 3), 3)
}

// U_hole: one arbitrary byte anywhere in a run of elements.
//
// unit: budget=30
// bounds: the repetitions of U_star over runs of elements of 4..10 bytes with one arbitrary byte at every position; thresholds {0, 2}, 2 parses
func U_hole() {
	i := sym.Concrete(sym.Choose(6))
	p := repeated(sym.Concrete(sym.Choose(9)), element(i))
	n := sym.Concrete(sym.Range(4, 10))
	in := make([]byte, n)
	unit := []string{"a", "ab", "a", "aba", "a", "ab"}[i]
	for j := range in {
		in[j] = unit[j%len(unit)]
	}
	in[sym.Concrete(sym.Choose(n))] = sym.Byte()
	check(p, in, one(0, 2), 2)
}

// U_grammar: memoized definitions.
//
// unit: budget=30
// bounds: 5 recursive grammars whose definitions are memoized, all byte values in their literals, thresholds {0, 2, 4}, 2 parses, subjects of 0..4 arbitrary bytes
func U_grammar() {
	x, y := LB(sym.Byte()), LB(sym.Byte())
	var p *P
	switch sym.Concrete(sym.Choose(5)) {
	case 0:
		p = Grammar("S", []string{"S"}, []*P{MemoP(Capt(Or(Cat(x, NT("S"), y), x), 1))})
	case 1:
		p = Grammar("S", []string{"S", "A"}, []*P{Or(Cat(NT("A"), y, Capt(NT("S"), 3)), Cat(NT("A"), Un(Opt, NT("A")))), MemoP(Capt(Or(Cat(x, NT("A")), x), 2))})
	case 2:
		p = Grammar("S", []string{"S", "A"}, []*P{Un(Star, MemoP(NT("A"))), Or(Capt(Cat(x, NT("S"), y), 1), Capt(L("z"), 2))})
	case 3:
		p = Grammar("S", []string{"S", "A", "B"}, []*P{Or(Cat(NT("A"), L("!")), Cat(NT("B"), L("?")), Cat(NT("A"), NT("B"))), MemoP(Cat(x, Capt(Un(Star, y), 1))), MemoP(Un(Opt, NT("A")))})
	default:
		p = Grammar("S", []string{"S", "A"}, []*P{Cat(Un(And, NT("A")), Un(Not, Cat(NT("A"), y)), Capt(NT("A"), 2), Un(Star, AnyN(1))), MemoP(Capt(Cat(x, Un(Opt, x)), 1))})
	}
	check(p, Subject(4), one(0, 2, 4), 2)
}

// U_long: long runs of elements.
//
// unit: budget=30
// bounds: the repetitions of U_star over runs of elements of 37 or 130 (thorough also 64, 300) bytes with one arbitrary byte at any of 4 (thorough 6) places; thresholds {0, 12} (thorough also 2), 2 parses
func U_long() {
	sym.Steps(60_000_000)
	i := sym.Concrete(sym.Choose(6))
	p := repeated(sym.Concrete(sym.Choose(9)), element(i))
	n := one([]int{37, 130, 64, 300}[:sym.Pick(2, 4)]...)
	in := make([]byte, n)
	unit := []string{"a", "ab", "a", "aba", "a", "ab"}[i]
	for j := range in {
		in[j] = unit[j%len(unit)]
	}
	in[one([]int{n / 2, n - 1, n - 5, 33, 0, n / 4}[:sym.Pick(4, 6)]...)] = sym.Byte()
	check(p, in, one([]int{0, 12, 2}[:sym.Pick(2, 3)]...), 2)
}

// U_ids: identifiers the user chose beside those the library chooses.
//
// unit: budget=30
// bounds: an alternation of 3 different memoized patterns (bare, repeated, or one in another) at the same place, each with an identifier of the library's or one of 3 unused ones below and above those given before; 2 parses of 0..3 arbitrary bytes, threshold 0
func U_ids() {
	base := pattern.Memo(pattern.Any(1)).(*pattern.MemoNode).Id
	free := []int{base, base - 1, base + 40}
	var alts []*P
	for i := 0; i < 3; i++ {
		b := Capt(LB("aba"[i], "aab"[i]), i+1)
		if i == 2 {
			b = Capt(AnyN(1), 9)
		}
		m := MemoP(b)
		if k := choose(len(free) + 1); k < len(free) {
			m.N = free[k]
			free = append(append([]int{}, free[:k]...), free[k+1:]...)
		}
		if choose(2) == 0 {
			m = Un(Star, MemoP(m))
		}
		alts = append(alts, Cat(m, LB("xyz"[i])))
	}
	check(Or(alts...), sym.Bytes(sym.Concrete(sym.Range(0, 3))), 0, 2)
}

func choose(n int) int { return sym.Concrete(sym.Choose(n)) }

// U_far: entries at far positions.
//
// unit: budget=30
// bounds: the repetitions of U_star (3 bodies) matched at positions 65535, 2^31-2, 2^32-1 and 2^40, where 0..2 (thorough 4) elements and an arbitrary byte follow; threshold 0, 3 parses
func U_far() {
	i := choose(3)
	p := repeated(choose(9), element(i))
	var in []byte
	for n := choose(sym.Pick(3, 5)); n > 0; n-- {
		in = append(in, []string{"a", "ab", "a"}[i]...)
	}
	in = append(in, sym.Byte())
	checkAt(p, in, Places[choose(len(Places))], 0, 3)
}
