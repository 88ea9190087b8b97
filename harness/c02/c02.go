// Package c02 decides property C02: the capture tree is exactly that of the
// successful derivation.
package c02

import (
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

func check(p *P, in []byte) { checkAt(p, in, 0) }

// checkAt compares a match of text that begins at a position.
func checkAt(p *P, in []byte, at int) {
	Note(p, in)
	patt := p.Build()
	if at > 0 {
		patt = From(&at, patt)
	}
	prog, err := pattern.Compile(patt)
	sym.Assert(err == nil, "pattern does not compile")
	code := vm.Encode(prog)
	ok, n, c, _ := code.Exec(&Far{at, in}, memo.NoneTable{})
	wok, wn, caps, _ := Run(p, in)
	wn, caps = wn+at, Moved(caps, at)
	sym.ObsB(ok)
	sym.Assert(ok == wok, "verdict")
	if !wok {
		return
	}
	sym.Obs(n)
	sym.Assert(n == wn, "end")
	sym.Assert(c != nil, "no tree after a match")
	if len(caps) > 0 {
		sym.Reach("captures")
	}
	if len(caps) > 1 {
		sym.Reach("several captures")
	}
	sym.Assert(c.Start() == 0 && c.Len() == n, "root span")
	SameTree(c, caps, "tree")
}

// U_terms: every operator around captures.
//
// unit: budget=40
// bounds: every pattern term of 2..6 (thorough 7) nodes over leaves {1-byte literal, any} and operators {capture, star, option, not, and, repeat 2, alternation, concatenation} in which something is captured, subjects of 0..3 arbitrary bytes
func U_terms() {
	g := &Gen{Leaves: []Op{Lit, Any}, Unary: []Op{Cap, Star, Opt, Not, And, Rep}, Binary: []Op{Alt, Seq}}
	p := g.Pattern(sym.Concrete(sym.Range(2, sym.Pick(6, 7))))
	if g.Caps() == 0 {
		sym.Assume(false)
	}
	check(p, Subject(3))
}

// capLeaf is a leaf that is usually captured.
func capLeaf(id int) *P {
	var a *P
	switch sym.Concrete(sym.Choose(3)) {
	case 0:
		return LB(sym.Byte())
	case 1:
		a = LB(sym.Byte())
	default:
		a = Cat(LB(sym.Byte()), Un(Opt, LB(sym.Byte())))
	}
	return Capt(a, id)
}

// U_combos: captures spread over choice, repetition and nesting.
//
// unit: budget=60
// bounds: capture-bearing leaves x1..x4 in 14 templates that combine ordered choice with common prefixes, repetition of choices, captures around choices, predicates, and sequences after repetitions; all byte values, subjects of 0..3 (thorough 4) arbitrary bytes
func U_combos() {
	check(combo(capLeaf(1), capLeaf(2), capLeaf(3)), Subject(sym.Pick(3, 4)))
}

// U_far: matches at far positions.
//
// unit: budget=30
// bounds: the 14 templates over captures of single bytes, matched at positions 65535, 2^31-2, 2^32-1 and 2^40, where 0..2 (thorough 3) arbitrary bytes follow
func U_far() {
	var l []*P
	for i := 1; i <= 3; i++ {
		l = append(l, Capt(LB(sym.Byte()), i))
	}
	p := combo(l[0], l[1], l[2])
	checkAt(p, Subject(sym.Pick(2, 3)), Places[sym.Concrete(sym.Choose(len(Places)))])
}

func combo(a, b, c *P) *P {
	var p *P
	switch sym.Concrete(sym.Choose(14)) {
	case 0:
		p = Or(Cat(a, b, L("!")), Cat(a, c))
	case 1:
		p = Un(Star, Or(Cat(a, b), c))
	case 2:
		p = Capt(Un(Star, Or(Cat(a, b), Capt(c, 9))), 8)
	case 3:
		p = Cat(Un(And, Cat(a, b)), c)
	case 4:
		p = Cat(Un(Not, Cat(a, b)), c)
	case 5:
		p = Un(Star, Capt(Cat(a, Un(Opt, b)), 7))
	case 6:
		p = Cat(Un(Opt, Cat(a, b)), Un(Star, c))
	case 7:
		p = Or(Capt(Cat(Un(Star, a), b), 7), Cat(Un(Star, c), AnyN(1)))
	case 8:
		p = Cat(a, Un(Star, Cat(b, c)), Un(Opt, Capt(AnyN(1), 6)))
	case 9:
		p = Capt(Cat(a, Capt(Or(b, Cat(c, a)), 5)), 4)
	case 10:
		p = Cat(Repeat(Or(a, b), 2), Un(Star, c))
	case 11:
		p = Un(Plus, Or(Cat(a, Un(And, b)), c))
	case 12:
		p = Capt(Un(Star, Cat(Un(Star, a), b)), 4)
	default:
		p = Or(Cat(Un(Plus, a), b), Un(Star, Or(a, c)))
	}
	return p
}

// U_late: captures opened late because of a constant-width head.
//
// unit: budget=20
// bounds: a capture around a head of h bytes (h from 0..4 and around 255, 256 and 510: any-counts and literals mixed) followed by an optional variable part and an optional inner capture, on subjects around that length with 2 arbitrary bytes at the end
func U_late() {
	h := []int{0, 1, 2, 3, 4, 254, 255, 256, 257, 510, 511}[sym.Concrete(sym.Choose(11))]
	var head []*P
	left := h
	if sym.Decide(sym.Bool()) {
		for left > 0 {
			k := left
			if k > 255 {
				k = 255
			}
			head = append(head, AnyN(k))
			left -= k
		}
	} else {
		if left > 200 {
			head = append(head, AnyN(200))
			left -= 200
		}
		s := make([]byte, left)
		for i := range s {
			s[i] = 'x'
		}
		head = append(head, &P{Op: Lit, S: s})
	}
	switch sym.Concrete(sym.Choose(6)) {
	case 0:
	case 1:
		head = append(head, Un(Star, L("a")))
	case 2:
		head = append(head, Capt(LB(sym.Byte()), 2))
	case 3:
		head = append(head, Un(Opt, Capt(LB(sym.Byte()), 2)), Un(Star, AnyN(1)))
	case 4:
		head = append(head, Un(And, AnyN(1)))
	default:
		head = append([]*P{Un(Not, L("q"))}, head...)
	}
	var p *P = Capt(Cat(head...), 1)
	switch sym.Concrete(sym.Choose(3)) {
	case 0:
	case 1:
		p = Cat(AnyN(1), p)
	default:
		p = Capt(Cat(p, Un(Opt, Capt(AnyN(1), 4))), 3)
	}
	n := h + sym.Concrete(sym.Range(0, 2))
	in := make([]byte, n)
	for i := range in {
		in[i] = 'x'
	}
	for i := 1; i <= 2 && i <= n; i++ {
		in[n-i] = sym.Byte()
	}
	check(p, in)
}

// U_ids: identifiers over the documented range.
//
// unit: budget=10
// bounds: identifiers -32768, -1, 0, 255, 256, 32767 in every kind of capture
func U_ids() {
	id := []int{-32768, -1, 0, 255, 256, 32767}[sym.Concrete(sym.Choose(6))]
	var p *P
	switch sym.Concrete(sym.Choose(3)) {
	case 0:
		p = Capt(LB(sym.Byte()), id)
	case 1:
		p = Capt(Cat(LB(sym.Byte()), Un(Star, LB(sym.Byte()))), id)
	default:
		p = Capt(Un(Star, LB(sym.Byte())), id)
	}
	check(p, Subject(2))
}

// U_big: many captures, deep nesting, deep backtracking over captures.
//
// unit: budget=20
// bounds: 7 patterns: runs of captures, of pairs of captures and of captures in a choice that fails at the end, captures nested by recursion before and behind, right recursion and recursion whose alternative drops everything; sizes 7, 40, 130, 300 and 1100 (thorough also 3000), with one arbitrary byte at the first, last, middle or any of 4 other positions
func U_big() {
	n := []int{7, 40, 130, 300, 1100, 3000}[sym.Concrete(sym.Choose(sym.Pick(5, 6)))]
	sym.Steps(40_000_000)
	x := sym.Byte()
	at := []int{0, 1, n / 3, n / 2, n - 3, n - 2, n - 1}[sym.Concrete(sym.Choose(7))]
	run := func(unit string) []byte {
		var b []byte
		for i := 0; i < n; i++ {
			c := unit[i%len(unit)]
			if i == at {
				c = x
			}
			b = append(b, c)
		}
		return b
	}
	nest := func(l, m, r string) []byte {
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, l...)
		}
		b = append(b, m...)
		for i := 0; i < n; i++ {
			b = append(b, r...)
		}
		b[len(b)*at/n] = x
		return b
	}
	var p *P
	var in []byte
	rec := func(body *P) *P { return Grammar("S", []string{"S"}, []*P{body}) }
	switch sym.Concrete(sym.Choose(7)) {
	case 0:
		p, in = Un(Star, Capt(Or(L("a"), L("b")), 1)), run("ab")
	case 1:
		p, in = Un(Star, Capt(Cat(Capt(L("a"), 2), Capt(Un(Star, L("b")), 3)), 1)), run("abb")
	case 2:
		p, in = Or(Cat(Capt(Un(Star, Capt(L("a"), 2)), 1), L("!")), Capt(Un(Plus, Capt(AnyN(1), 4)), 3)), run("a")
	case 3:
		p, in = rec(Or(Capt(Cat(L("("), NT("S"), L(")")), 1), Capt(L("x"), 2))), nest("(", "x", ")")
	case 4:
		p, in = rec(Or(Cat(Capt(L("a"), 1), NT("S")), Un(Not, AnyN(1)), Un(Star, Capt(AnyN(1), 2)))), run("a")
	case 5:
		p, in = Cat(Un(Opt, rec(Or(Cat(Capt(L("a"), 1), NT("S"), Capt(L("b"), 2)), Capt(L("c"), 3)))), Capt(Un(Star, AnyN(1)), 4)), nest("a", "c", "b")
	default:
		p, in = rec(Or(Cat(Un(And, Capt(AnyN(2), 5)), Capt(Un(Star, Cat(Un(Not, L("b")), AnyN(1))), 1), L("b"), NT("S")), Capt(Un(Star, L("a")), 2))), run("aab")
	}
	check(p, in)
}
