// Package c03 decides property C03: grammar names resolve to their definitions,
// whatever the compiler inlines.
package c03

import (
	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

// parse compares one parse with the reference.
func parse(p *P, in []byte) {
	Note(p, in)
	prog, err := pattern.Compile(p.Build())
	sym.Assert(err == nil, "grammar does not compile")
	code := vm.Encode(prog)
	ok, n, c, _ := code.Exec(&Reader{B: in}, memo.NoneTable{})
	wok, wn, caps, _ := Run(p, in)
	sym.ObsB(ok)
	sym.Assert(ok == wok, "verdict")
	if !wok {
		return
	}
	sym.Obs(n)
	sym.Assert(n == wn, "end")
	SameTree(c, caps, "tree")
	if n > 0 {
		sym.Reach("match")
	}
}

// check also covers undefined names.
func check(p *P, in []byte) {
	if Unclear(p) {
		sym.Assume(false)
	}
	def, wf := Sound(p)
	if !def {
		sym.Reach("undefined")
		Note(p, in)
		prog, err := pattern.Compile(p.Build())
		_, nf := err.(*pattern.NotFoundError)
		sym.Assert(nf, "no NotFoundError for an undefined name")
		sym.Assert(prog == nil, "a program in spite of the error")
		return
	}
	if !wf {
		sym.Assume(false)
	}
	parse(p, in)
}

func pick(l ...string) *P { return NT(l[sym.Concrete(sym.Choose(len(l)))]) }

// body is a definition that uses one of the names.
func body(k int, names ...string) *P {
	x := LB(sym.Byte())
	if k == 0 {
		return x
	}
	r := pick(names...)
	switch k {
	case 1:
		return Cat(x, r)
	case 2:
		return Cat(r, x)
	case 3:
		return Or(Cat(x, r), LB(sym.Byte()))
	case 4:
		return Or(Cat(r, x), LB(sym.Byte()))
	case 5:
		return Un(Star, Cat(x, r))
	case 6:
		return Cat(x, Un(Opt, r), LB(sym.Byte()))
	case 7:
		return Cat(Un(Not, r), x)
	case 8:
		return Capt(r, 7)
	case 9:
		return Or(r, x)
	case 10:
		return Cat(Un(And, r), AnyN(1))
	case 11:
		return Un(Plus, r)
	case 12:
		return Cat(x, MemoP(r))
	}
	return r
}

const bodies = 13

func threshold(l ...int) {
	pattern.InlineThreshold = l[sym.Concrete(sym.Choose(len(l)))]
}

// U_pair: two definitions.
//
// unit: budget=60
// bounds: grammars of 2 definitions S, A, each of 13 body forms (literal, head and tail references, references in choices, repetitions, options, predicates, captures and memo entries), every reference to S, A or the undefined U, inlining thresholds {0, 3, 100}, every byte value, subjects of 0..3 bytes
func U_pair() {
	threshold(0, 3, 100)
	s := body(sym.Concrete(sym.Choose(bodies)), "S", "A", "U")
	a := body(sym.Concrete(sym.Choose(bodies)), "S", "A", "U")
	check(Grammar("S", []string{"S", "A"}, []*P{s, a}), Subject(3))
}

// U_triple: chains and cycles of three definitions.
//
// unit: budget=60
// bounds: grammars of 3 definitions with mutual references: S from 4 forms over A and B, A and B from 7 (thorough 13) forms over S, A, B; inlining thresholds {0, 4, 100} (thorough also 2 and 6); every byte value, subjects of 0..2 (thorough 3) bytes
func U_triple() {
	if sym.Thorough() {
		threshold(0, 2, 4, 6, 100)
	} else {
		threshold(0, 4, 100)
	}
	var s *P
	switch sym.Concrete(sym.Choose(4)) {
	case 0:
		s = Cat(NT("A"), NT("B"))
	case 1:
		s = Or(NT("A"), NT("B"))
	case 2:
		s = Cat(Un(Opt, NT("B")), NT("A"))
	default:
		s = Un(Star, NT("A"))
	}
	n := sym.Pick(7, bodies)
	a := body(sym.Concrete(sym.Choose(n)), "S", "A", "B")
	b := body(sym.Concrete(sym.Choose(n)), "S", "A", "B")
	p := Grammar("S", []string{"S", "A", "B"}, []*P{s, a, b})
	if _, wf := Sound(p); !wf {
		sym.Assume(false)
	}
	check(p, Subject(sym.Pick(2, 3)))
}

// around puts p below one operator.
func around(k int, p *P) *P {
	x := LB(sym.Byte())
	switch k {
	case 0:
		return Or(p, x)
	case 1:
		return Or(x, p)
	case 2:
		return Cat(p, x)
	case 3:
		return Cat(x, p)
	case 4:
		return Un(Star, Cat(x, p))
	case 5:
		return Un(Plus, Cat(p, x))
	case 6:
		return Un(Opt, p)
	case 7:
		return Un(Not, p)
	case 8:
		return Un(And, p)
	case 9:
		return Capt(p, 5)
	case 10:
		return MemoP(p)
	case 11:
		return Un(Search, p)
	case 12:
		return Error("e", p)
	case 13:
		return Repeat(p, 2)
	case 14:
		return Grammar("I", []string{"I"}, []*P{p})
	}
	// a checker that accepts everything but texts that start with x
	first := func(b []byte) int {
		if len(b) > 0 && b[0] == x.S[0] {
			return -1
		}
		return 0
	}
	return &P{Op: Check, A: p, N: 1, Checker: CheckerFunc(func(b []byte, src *input.Input, id, flag int) int { return first(b) }),
		Ref: func(m *M, b []byte, pos, id, flag int) int { return first(b) }}
}

// U_kinds: references below every kind of node.
//
// unit: budget=40
// bounds: a reference below two nested operators out of 16 kinds (choice and sequence on either side, star, plus, option, predicates, capture, memo, search, error recovery, repeat, nested grammar, checked pattern), to a definition that is a literal, refers to another definition or recurses through the same operators; thresholds {0, 100}, every byte value, subjects of 0..2 (thorough 3) bytes
func U_kinds() {
	threshold(0, 100)
	k, j := sym.Concrete(sym.Choose(16)), sym.Concrete(sym.Choose(16))
	u := around(k, around(j, NT("A")))
	var p *P
	switch sym.Concrete(sym.Choose(3)) {
	case 0:
		p = Grammar("S", []string{"S", "A"}, []*P{u, LB(sym.Byte())})
	case 1:
		p = Grammar("S", []string{"S", "A", "B"}, []*P{NT("A"), Cat(LB(sym.Byte()), Un(Opt, around(j, NT("B")))), L("b")})
	default:
		p = Grammar("S", []string{"S", "A"}, []*P{u, Or(Cat(LB(sym.Byte()), NT("S")), L("z"))})
	}
	if _, wf := Sound(p); !wf {
		sym.Assume(false)
	}
	parse(p, Subject(sym.Pick(2, 3)))
}

// U_order: iteration orders of the definition map.
//
// unit: budget=40
// bounds: 2 definitions under every iteration order of each map walk separately, and 3 definitions (thorough 4) under every iteration order used for all walks alike; 5 grammar shapes, thresholds {0, 3, 100}, every byte value, subjects of 0..3 bytes
func U_order() {
	threshold(0, 3, 100)
	var p *P
	x, y := LB(sym.Byte()), LB(sym.Byte())
	switch sym.Concrete(sym.Choose(sym.Pick(5, 6))) {
	case 0:
		sym.MapOrder(2)
		p = Grammar("S", []string{"S", "A"}, []*P{Cat(NT("A"), Un(Opt, NT("S"))), x})
	case 1:
		sym.MapOrder(2)
		p = Grammar("S", []string{"S", "A"}, []*P{Or(Cat(x, NT("A")), y), Or(Cat(y, NT("S")), x)})
	case 2:
		sym.MapOrder(-3)
		p = Grammar("S", []string{"S", "A", "B"}, []*P{Cat(NT("A"), NT("B")), Or(Cat(x, NT("B")), y), Or(y, Cat(x, NT("A")))})
	case 3:
		sym.MapOrder(-3)
		p = Grammar("B", []string{"S", "A", "B"}, []*P{x, NT("S"), Un(Star, Cat(NT("A"), Un(Opt, y)))})
	case 4:
		sym.MapOrder(-3)
		p = Grammar("A", []string{"S", "A", "B"}, []*P{Un(Not, NT("B")), Un(Star, Cat(NT("S"), Or(x, Cat(y, NT("A"))))), y})
	default:
		sym.MapOrder(-4)
		p = Grammar("A", []string{"S", "A", "B", "C"}, []*P{Un(Not, NT("B")), Un(Star, Cat(NT("S"), Or(x, Cat(NT("C"), NT("A"))))), Cat(y, Un(Opt, NT("C"))), Or(x, y)})
	}
	parse(p, Subject(3))
}

// U_nested: grammars inside definitions.
//
// unit: budget=60
// bounds: an outer grammar S, A whose start contains an inner grammar with one or two definitions named from {S, A, T} that shadow the outer ones or refer to them, for one definition (thorough: always) also searched or inside a third grammar; 5 (thorough 6) inner bodies, 3 outer bodies, thresholds {0, 100} (thorough also 3), every byte value, subjects of 0..3 bytes
func U_nested() {
	if sym.Thorough() {
		threshold(0, 3, 100)
	} else {
		threshold(0, 100)
	}
	in := func() *P {
		x := LB(sym.Byte())
		r := pick("S", "A", "T")
		switch sym.Concrete(sym.Choose(sym.Pick(5, 6))) {
		case 0:
			return Cat(x, Un(Opt, r))
		case 1:
			return Or(Cat(x, r), LB(sym.Byte()))
		case 2:
			return x
		case 3:
			return Cat(r, Un(Opt, x))
		case 4:
			return Capt(r, 3)
		default:
			return Cat(Un(Not, r), AnyN(1))
		}
	}
	var g *P
	if sym.Decide(sym.Bool()) {
		g = Grammar("T", []string{"T"}, []*P{in()})
	} else {
		n := []string{"S", "A", "T"}
		i := sym.Concrete(sym.Choose(3))
		j := sym.Concrete(sym.Choose(3))
		if i == j {
			sym.Assume(false)
		}
		g = Grammar(n[i], []string{n[i], n[j]}, []*P{in(), []*P{LB('q'), Capt(LB('q'), 4), Cat(L("q"), Un(Opt, NT("A")))}[sym.Concrete(sym.Choose(3))]})
	}
	w := 3
	if len(g.L) == 2 {
		w = sym.Pick(1, 3)
	}
	switch sym.Concrete(sym.Choose(w)) {
	case 1:
		g = Un(Search, g)
	case 2:
		g = Grammar("V", []string{"V"}, []*P{Cat(Un(Opt, L("v")), g)})
	}
	a := Capt(LB(sym.Byte()), 1)
	var s *P
	switch sym.Concrete(sym.Choose(3)) {
	case 0:
		s = Or(Cat(g, NT("A")), a)
	case 1:
		s = Cat(Un(Opt, NT("A")), g)
	default:
		s = Or(Cat(L("("), g, L(")")), NT("A"))
	}
	p := Grammar("S", []string{"S", "A"}, []*P{s, Or(a, L("a"))})
	def, wf := Sound(p)
	if !def || !wf {
		sym.Assume(false)
	}
	check(p, Subject(sym.Pick(2, 3)))
}

// U_search: searches whose pattern uses names.
//
// unit: budget=30
// bounds: searches, nested and repeated ones included, for patterns that refer to definitions S and A (recursively or not), from inside and outside of the grammar; thresholds {0, 3, 100}, every byte value, subjects of 0..3 (thorough 4) bytes
func U_search() {
	threshold(0, 3, 100)
	x, y := LB(sym.Byte()), LB(sym.Byte())
	var p *P
	switch sym.Concrete(sym.Choose(7)) {
	case 0:
		p = Grammar("T", []string{"T", "S"}, []*P{Un(Search, NT("S")), x})
	case 1:
		p = Grammar("T", []string{"T", "S"}, []*P{Un(Search, Cat(x, NT("S"))), Or(y, Cat(x, NT("S")))})
	case 2:
		p = Grammar("S", []string{"S", "A"}, []*P{Un(Search, Cat(NT("A"), Un(Opt, NT("S")))), x})
	case 3:
		p = Un(Star, Un(Search, Grammar("S", []string{"S"}, []*P{Or(Cat(x, NT("S")), y)})))
	case 4:
		p = Grammar("S", []string{"S", "A"}, []*P{Un(Search, Cat(y, Un(Search, NT("A")))), Capt(Or(x, y), 2)})
	case 5:
		p = Grammar("S", []string{"S"}, []*P{Cat(x, Un(Opt, Un(Search, NT("S"))))})
	default:
		p = Un(Search, NT("S"))
	}
	check(p, Subject(sym.Pick(3, 4)))
}

// U_shared: one non-terminal node in several grammars and scopes.
//
// unit: budget=20
// bounds: one NonTerm object used in two grammars compiled one after the other, in a grammar and a nested grammar that both define it, and in a grammar compiled twice under different thresholds from {0, 3, 100}; every byte value, subjects of 0..2 bytes
func U_shared() {
	a := NT("A")
	a.Share = true
	x, y := LB(sym.Byte()), LB(sym.Byte())
	in := Subject(2)
	threshold(0, 3, 100)
	switch sym.Concrete(sym.Choose(4)) {
	case 0:
		parse(Grammar("S", []string{"S", "A"}, []*P{Cat(a, a), x}), in)
		parse(Grammar("S", []string{"S", "A"}, []*P{Or(a, Cat(y, a)), y}), in)
	case 1:
		parse(Grammar("S", []string{"S", "A"}, []*P{Cat(a, Grammar("T", []string{"T", "A"}, []*P{Or(a, L("t")), y})), x}), in)
	case 2:
		parse(Grammar("S", []string{"S", "A"}, []*P{Or(Grammar("A", []string{"A"}, []*P{Or(Cat(x, a), y)}), a), Cat(x, x)}), in)
	default:
		g := Grammar("S", []string{"S", "A"}, []*P{Cat(a, Un(Opt, NT("S"))), x})
		g.Share = true
		parse(g, in)
		threshold(0, 3, 100)
		parse(g, in)
	}
}

// U_large: definitions around the inlining threshold.
//
// unit: budget=20
// bounds: a definition of 98..102 nodes (a literal repeated) under the default threshold of 100, used twice from the start, with an inner reference or not; one arbitrary subject byte in each of the two halves
func U_large() {
	n := 49 + sym.Concrete(sym.Choose(4))
	l := make([]*P, n)
	for i := range l {
		l[i] = L("a")
	}
	if sym.Decide(sym.Bool()) {
		l = append(l[:n-1], NT("B"))
	}
	p := Grammar("S", []string{"S", "A", "B"}, []*P{Cat(NT("A"), Un(Opt, NT("A")), NT("B")), Cat(l...), Or(L("b"), L("a"))})
	in := make([]byte, 2*n+1)
	for i := range in {
		in[i] = 'a'
	}
	in[sym.Concrete(sym.Choose(2))*(n-1)+n/2] = sym.Byte()
	in[2*n] = sym.Byte()
	parse(p, in)
}

// U_notfound: names nobody defines.
//
// unit: budget=10
// bounds: undefined names at top level, under every operator, in nested grammars and searches, in captures and missing start symbols; thresholds {0, 100}
func U_notfound() {
	threshold(0, 100)
	u := NT("U")
	var p *P
	switch sym.Concrete(sym.Choose(16)) {
	case 0:
		p = u
	case 1:
		p = Cat(L("a"), u)
	case 2:
		p = Un(Star, u)
	case 3:
		p = Un(Plus, u)
	case 4:
		p = Un(Not, u)
	case 5:
		p = Un(And, Un(Opt, u))
	case 6:
		p = Capt(MemoP(u), 1)
	case 7:
		p = Un(Search, u)
	case 8:
		p = Error("e", u)
	case 9:
		p = Grammar("S", []string{"S"}, []*P{Or(L("a"), Un(Search, u))})
	case 10:
		p = Grammar("S", []string{"S"}, []*P{Grammar("T", []string{"T"}, []*P{Cat(L("a"), u)})})
	case 11:
		p = Grammar("S", []string{"S"}, []*P{Cat(Grammar("U", []string{"U"}, []*P{L("a")}), u)})
	case 12:
		p = Grammar("U", []string{"S"}, []*P{L("a")})
	case 13:
		p = Grammar("S", []string{"S"}, []*P{Cat(Un(Search, L("a")), NT("\x00search"))})
	case 14:
		p = Grammar("S", []string{"S", "U"}, []*P{Grammar("U", []string{"V"}, []*P{L("a")}), L("b")})
	default:
		p = Un(Star, MemoP(u))
	}
	def, _ := Sound(p)
	sym.Assert(!def, "harness")
	check(p, nil)
}

// U_many: many definitions.
//
// unit: budget=20
// bounds: grammars of 5 or 90 (thorough also 40 and 200) definitions that refer to each other in a chain, in a chain back to the first, to two neighbours, all to one, in pairs, or as grammars nested that deep (at most 40), one name (any of 4 places) possibly undefined; thresholds {0, 10, 100}; subjects with two arbitrary bytes
func U_many() {
	n := []int{5, 90, 40, 200}[sym.Concrete(sym.Choose(sym.Pick(2, 4)))]
	threshold(0, 10, 100)
	sym.Steps(100_000_000)
	name := func(i int) string {
		if i == 0 {
			return "S"
		}
		return "R" + string(rune('a'+i/25)) + string(rune('a'+i%25))
	}
	kind := sym.Concrete(sym.Choose(6))
	if kind == 5 {
		n = min(n, 40)
	}
	bad := []int{-1, 1, n / 2, n - 1}[sym.Concrete(sym.Choose(4))]
	ref := func(i int) *P {
		if i == bad {
			return NT(name(i) + "x")
		}
		return NT(name(i))
	}
	ch := func(i int) *P { return L(string(rune('a' + i%5))) }
	names := make([]string, n)
	defs := make([]*P, n)
	var in []byte
	for i := 0; i < n; i++ {
		names[i] = name(i)
		in = append(in, byte('a'+i%5))
		last := i == n-1
		var d *P
		switch kind {
		case 0, 5:
			d = Cat(ch(i), Capt(Or(L("!"), L("?")), i))
			if !last {
				d = Cat(ch(i), ref(i+1))
			}
		case 1:
			d = Cat(ch(i), Un(Opt, ref((i+1)%n)))
		case 2:
			d = Or(Cat(ch(i), L("#"), ref(min(n-1, i+2))), Cat(ch(i), ref(min(n-1, i+1))))
			if last {
				d = Capt(Cat(ch(i), AnyN(1)), 3)
			}
		case 3:
			d = Cat(ch(i), ref(n-1), Un(Opt, ref(i+1)))
			if last {
				d = Capt(Un(Opt, L("z")), 1)
			} else if i == n-2 {
				d = Cat(ch(i), ref(n-1))
			}
		default:
			// even definitions use the next one twice, odd ones are leaves
			d = Cat(ref(min(n-1, i+1)), Un(And, AnyN(1)), Un(Opt, ref(min(n-1, i+2))))
			if i%2 == 1 || i >= n-2 {
				d = Capt(Or(ch(i), L("e")), i)
			}
		}
		defs[i] = d
	}
	in = append(in, '!')
	if bad < 0 {
		in[[]int{0, len(in) / 2, len(in) - 2}[sym.Concrete(sym.Choose(3))]] = sym.Byte()
		in[len(in)-1] = sym.Byte()
	}
	p := Grammar("S", names, defs)
	if kind == 5 {
		p = nil
		for i := n - 1; i >= 0; i-- {
			// each grammar is used by the one around it, under the name of its start
			if p == nil {
				p = Grammar(name(i), []string{name(i)}, []*P{defs[i]})
			} else {
				p = Grammar(name(i), []string{name(i), name(i + 1)}, []*P{defs[i], p})
			}
		}
	}
	if bad >= 0 {
		if def, _ := Sound(p); def {
			sym.Assume(false) // the name is not used
		}
	}
	check(p, in)
}
