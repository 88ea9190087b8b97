// Package c01 decides property C01: compiled patterns match exactly what PEG
// semantics prescribe.
package c01

import (
	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

func check(p *P, in []byte) {
	Note(p, in)
	prog, err := pattern.Compile(p.Build())
	sym.Assert(err == nil, "pattern does not compile")
	code := vm.Encode(prog)
	ok, n, _, errs := code.Exec(&Reader{in}, memo.NoneTable{})
	wok, wn, _, _ := Run(p, in)
	sym.ObsB(ok)
	sym.Assert(ok == wok, "verdict differs from the PEG definition")
	if wok {
		sym.Reach("match")
		sym.Obs(n)
		sym.Assert(n == wn, "matched length differs from the PEG definition")
	} else {
		sym.Reach("fail")
	}
	sym.Assert(len(errs) == 0, "errors reported without an error pattern")
}

// U_small: every operator over every leaf, all nestings.
//
// unit: budget=60
// bounds: every pattern term of 1..4 (thorough 6) nodes over leaves {1- and 2-byte literal, arbitrary 256-bit set, any, empty} and operators {star, plus, option, not, and, capture, repeat 2, alternation, concatenation}, all byte values, subjects of 0..3 arbitrary bytes
func U_small() {
	g := &Gen{Leaves: []Op{Lit, Set, Any, Empty}, Lit2: true,
		Unary: []Op{Star, Plus, Opt, Not, And, Cap, Rep}, Binary: []Op{Alt, Seq}}
	n := sym.Concrete(sym.Range(1, sym.Pick(4, 6)))
	p := g.Pattern(n)
	check(p, Subject(3))
}

// U_tree: larger alternations and sequences.
//
// unit: budget=60
// bounds: every binary tree of alternation and concatenation with 4 leaves (thorough also 5) from {1-byte literal, arbitrary subset of 64..127, any}, all byte values, subjects of 0..3 arbitrary bytes
func U_tree() {
	g := &Gen{Word: true, Leaves: []Op{Lit, Set, Any}, Binary: []Op{Alt, Seq}}
	p := g.Tree(sym.Concrete(sym.Range(4, sym.Pick(4, 5))), 0)
	check(p, Subject(3))
}

// U_wrap: operators around and inside alternations and sequences.
//
// unit: budget=60
// bounds: every binary tree of alternation and concatenation with 3 (thorough 4) leaves from {1-byte literal, arbitrary subset of 64..127}, with star, option, not (thorough: also and, plus, capture) around any up to 2 sub-trees, all byte values, subjects of 0..2 (thorough 3) arbitrary bytes
func U_wrap() {
	g := &Gen{Word: true, Leaves: []Op{Lit, Set}, Unary: wraps(), Binary: []Op{Alt, Seq}}
	p := g.Tree(sym.Pick(3, 4), 2)
	check(p, Subject(sym.Pick(2, 3)))
}

// U_rewrite: operand pairs the compiler rewrites, inside a context that makes
// it look at the pair as an operand.
//
// unit: budget=40
// bounds: an alternation or concatenation of two operands, each a leaf from {1- and 2-byte literal, any of 1, any of 2, arbitrary subset of 64..127, empty} (thorough also any of 0, empty literal) bare or under star, option, not, and, in the contexts {option, first of a sequence, first of a choice, last of a choice} (thorough also star, not, plus, repeat 2), subjects of 0..2 (thorough 3) arbitrary bytes
func U_rewrite() {
	leaf := func() *P {
		switch sym.Concrete(sym.Choose(sym.Pick(6, 8))) {
		case 0:
			return LB(sym.Byte())
		case 1:
			return LB(sym.Byte(), sym.Byte())
		case 2:
			return AnyN(1)
		case 3:
			return AnyN(2)
		case 4:
			return Cls(WordSet())
		case 5:
			return E()
		case 6:
			return AnyN(0)
		default:
			return L("")
		}
	}
	operand := func() *P {
		switch sym.Concrete(sym.Choose(5)) {
		case 0:
			return leaf()
		case 1:
			a := leaf()
			if a.Nullable() {
				sym.Assume(false)
			}
			return Un(Star, a)
		case 2:
			return Un(Opt, leaf())
		case 3:
			return Un(Not, leaf())
		default:
			return Un(And, leaf())
		}
	}
	op := []Op{Alt, Seq}[sym.Concrete(sym.Choose(2))]
	a := operand()
	p := &P{Op: op, L: []*P{a, operand()}}
	switch sym.Concrete(sym.Choose(sym.Pick(4, 8))) {
	case 0:
		p = Un(Opt, p)
	case 1:
		p = Cat(p, LB(sym.Byte()))
	case 2:
		p = Or(p, LB(sym.Byte()))
	case 3:
		p = Or(LB(sym.Byte()), p)
	case 4:
		if p.Nullable() {
			sym.Assume(false)
		}
		p = Un(Star, p)
	case 5:
		p = Un(Not, p)
	case 6:
		if p.Nullable() {
			sym.Assume(false)
		}
		p = Un(Plus, p)
	default:
		p = Repeat(p, 2)
	}
	check(p, Subject(sym.Pick(2, 3)))
}

func wraps() []Op {
	if sym.Thorough() {
		return []Op{Star, Opt, Not, And, Plus, Cap}
	}
	return []Op{Star, Opt, Not}
}

// U_boundary: the input buffer's end is invisible.
//
// unit: budget=40
// bounds: every pattern term of 1..2 (thorough 4) nodes over {1- and 2-byte literal, any of 1, any of 3} and {star, plus, option, not, and, repeat 2, alternation, concatenation}, run after 4093 bytes consumed by any-counts, by a span or by a byte loop, on subjects of 4093..4099 bytes whose bytes from 4093 on are arbitrary
func U_boundary() {
	const base = 4093
	n := sym.Concrete(sym.Range(0, 6))
	in := make([]byte, base+n)
	for i := range in {
		in[i] = 'x'
	}
	for i := 0; i < n; i++ {
		in[base+i] = sym.Byte()
	}
	var pre *P
	switch sym.Concrete(sym.Choose(3)) {
	case 0:
		pre = Cat(Repeat(AnyN(255), 16), AnyN(13))
	case 1:
		pre = Un(Star, L("x"))
		if n > 0 {
			sym.Assume(in[base] != 'x')
		}
	default:
		pre = Un(Star, Cls(charset.New([]byte{'x'})))
		if n > 0 {
			sym.Assume(in[base] != 'x')
		}
	}
	g := &Gen{Leaves: []Op{Lit, Any}, Lit2: true, Any3: true,
		Unary: []Op{Star, Plus, Opt, Not, And, Rep}, Binary: []Op{Alt, Seq}}
	tail := g.Pattern(sym.Concrete(sym.Range(1, sym.Pick(2, 4))))
	p := Cat(pre, tail)
	Note(tail, in[base:])
	prog, err := pattern.Compile(p.Build())
	sym.Assert(err == nil, "pattern does not compile")
	code := vm.Encode(prog)
	ok, end, _, _ := code.Exec(&Reader{B: in}, memo.NoneTable{})
	wok, wend := RunAt(tail, in, base)
	sym.ObsB(ok)
	sym.Assert(ok == wok, "verdict differs at the buffer boundary")
	if wok {
		sym.Obs(end)
		sym.Assert(end == wend, "matched length differs at the buffer boundary")
	}
}

// U_counts: byte counts up to the operand limits.
//
// unit: budget=20
// bounds: any-counts 1..255 alone, in lookahead and repeated 17 times, on subjects that have exactly, one more, or one fewer byte than needed
func U_counts() {
	k := []int{1, 2, 127, 128, 254, 255}[sym.Concrete(sym.Choose(6))]
	if sym.Thorough() {
		k = sym.Concrete(sym.Range(1, 255))
	}
	rep := []int{1, 17}[sym.Concrete(sym.Choose(2))]
	d := sym.Concrete(sym.Range(-1, 1))
	in := make([]byte, k*rep+d)
	if len(in) > 0 {
		in[len(in)-1] = sym.Byte()
	}
	var p *P
	switch sym.Concrete(sym.Choose(5)) {
	case 0:
		p = Repeat(AnyN(k), rep)
	case 1:
		p = Cat(Un(And, Repeat(AnyN(k), rep)), AnyN(1))
	case 2:
		p = Or(Cat(Repeat(AnyN(k), rep), LB(sym.Byte())), AnyN(k))
	case 3:
		p = Cat(Un(Star, AnyN(k)), Un(Not, AnyN(1)))
	default:
		p = Un(Not, Repeat(AnyN(k), rep))
	}
	check(p, in)
}

// U_odd: operands outside the common shapes.
//
// unit: budget=30
// bounds: every pattern term of 1..4 (thorough 5) nodes over leaves {empty literal, any of 0, any of 2, 1- and 3-byte literal, empty set, full set} and operators {star, plus, option, not, and, repeat 0/1/3, search, memo, alternation and concatenation of 0..3 operands}, subjects of 0..4 arbitrary bytes
func U_odd() {
	p := odd(sym.Concrete(sym.Range(1, sym.Pick(4, 5))))
	check(p, Subject(4))
}

func odd(n int) *P {
	if n == 1 {
		switch sym.Concrete(sym.Choose(8)) {
		case 0:
			return L("")
		case 1:
			return AnyN(0)
		case 2:
			return AnyN(2)
		case 3:
			return LB(sym.Byte())
		case 4:
			return LB(sym.Byte(), sym.Byte(), sym.Byte())
		case 5:
			return Cls(charset.Set{})
		case 6:
			return Cls(charset.Set{}.Complement())
		}
		return Or()
	}
	nc := 11
	if n < 3 {
		nc = 9
	}
	c := sym.Concrete(sym.Choose(nc))
	if c < 9 {
		a := odd(n - 1)
		switch c {
		case 0, 1:
			if a.Nullable() {
				sym.Assume(false)
			}
			return Un([]Op{Star, Plus}[c], a)
		case 2:
			return Un(Opt, a)
		case 3:
			return Un(Not, a)
		case 4:
			return Un(And, a)
		case 5:
			return Repeat(a, []int{0, 1, 3}[sym.Concrete(sym.Choose(3))])
		case 6:
			return Un(Search, a)
		case 7:
			return MemoP(a)
		}
		return Cat(a)
	}
	op := []Op{Alt, Seq}[c-9]
	if n >= 4 && sym.Decide(sym.Bool()) {
		a, b := odd(1), odd(1)
		return &P{Op: op, L: []*P{a, b, odd(n - 3)}}
	}
	l := 1 + sym.Concrete(sym.Choose(n-2))
	a := odd(l)
	return &P{Op: op, L: []*P{a, odd(n - 1 - l)}}
}

// U_big: large patterns and long subjects.
//
// unit: budget=30
// bounds: 13 kinds of pattern of size n (literals, choices and sequences of n operands, repetition n times, options, predicates, choices and sequences nested n deep, recursion to the left, the right and both sides, repetitions that end late, choices of words, lookahead to the end, 2-element alternatives under repetition) with n from {9, 130, 260} (thorough also 520; patterns nested n deep: 9, 33 and, thorough, 129), subjects of that order with two arbitrary bytes, the last (thorough: or the first) and one at any of 6 places, or cut short by one or two bytes
func U_big() {
	kind := sym.Concrete(sym.Choose(13))
	sizes := []int{9, 130, 260, 520}[:sym.Pick(3, 4)]
	if kind >= 4 && kind <= 6 {
		sizes = []int{9, 33, 129}[:sym.Pick(2, 3)]
	}
	n := sizes[sym.Concrete(sym.Choose(len(sizes)))]
	sym.Steps(100_000_000)
	ops := make([]*P, n)
	rec := func(body *P) *P { return Grammar("S", []string{"S"}, []*P{body}) }
	at := func(i int) byte { return 'a' + byte(i*7%23) }
	var in []byte
	var p *P
	text := make([]byte, n)
	for i := range text {
		text[i] = at(i)
	}
	leaf := func(i int) *P {
		switch i % 4 {
		case 0:
			return Cls(charset.Range(at(i), at(i)+2))
		case 1:
			return AnyN(1)
		}
		return L(string(text[i : i+1]))
	}
	switch kind {
	case 0:
		p, in = Or(&P{Op: Lit, S: text}, Cat(L(string(text[:n/2])), AnyN(1))), text
	case 1:
		for i := range ops {
			ops[i] = L("x" + string(rune('0'+i/50)) + string(rune('0'+i%50)))
		}
		p, in = Cat(Or(ops...), L(".")), []byte("x"+string(rune('0'+(n-1)/50))+string(rune('0'+(n-1)%50))+".")
	case 2:
		for i := range ops {
			ops[i] = leaf(i)
		}
		p, in = Cat(ops...), text
	case 3:
		p = Repeat(Or(L("ab"), Cls(charset.Range('c', 'e'))), n)
		for len(in) < n {
			in = append(in, "abcde"[len(in)%5])
		}
		in = append(in, "ababab"[:n%3*2]...)
		for i := 0; i < n; i++ {
			in = append(in, 'd')
		}
	case 4:
		p, in = E(), text
		for i := n - 1; i >= 0; i-- {
			p = Un(Opt, Cat(leaf(i), p))
		}
	case 5:
		p, in = L("a"), []byte("ab")
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				p = Un(Not, p)
			} else {
				p = Un(And, Cat(p, Un(Opt, L("b"))))
			}
		}
	case 6:
		p, in = L("!"), text
		for i := n - 1; i >= 0; i-- {
			p = Or(Cat(L(string(text[:i/2])), L("!")), p, L(string(text[:1])))
		}
	case 7:
		p = rec(Or(Cat(L("("), NT("S"), L(")")), Un(Star, L("x"))))
		for i := 0; i < n; i++ {
			in = append(in, '(')
		}
		in = append(in, 'x')
		for i := 0; i < n; i++ {
			in = append(in, ')')
		}
	case 8:
		p = rec(Or(Cat(Cls(charset.Range('a', 'z')), NT("S")), Un(Not, AnyN(1))))
		in = text
	case 9:
		p = Cat(Un(Star, Or(Cat(L("a"), L("b")), Cat(L("a"), L("c")), L("d"))), L("."))
		for len(in) < n {
			in = append(in, "abdac"[len(in)%5])
		}
		in = append(in, '.')
	case 10:
		p = Or(Cat(Un(And, Cat(Un(Star, Cls(charset.Range('a', 'z'))), Un(Not, AnyN(1)))), AnyN(2)), AnyN(1))
		in = text
	case 11:
		p = Cat(Un(Star, Cat(Un(Not, L(";")), AnyN(1))), L(";"), Un(Star, Cls(charset.Range('a', 'z'))))
		in = append(append(append(in, text[:n/2]...), ';'), text[n/2:]...)
	default:
		p = rec(Or(Cat(L("a"), NT("S"), L("b")), Cat(L("a"), NT("S"), L("c")), L("d")))
		// the first alternative must succeed for the inner ones: n nested and one
		// failing level at the outside
		for i := 0; i < n; i++ {
			in = append(in, 'a')
		}
		in = append(in, 'd')
		for i := 0; i < n; i++ {
			in = append(in, 'b')
		}
	}
	in = append([]byte(nil), in...)
	k := len(in)
	if kind == 12 {
		// two failing alternatives at one level double the work below it
		in[[]int{k - 1, k - 2}[sym.Concrete(sym.Choose(2))]] = sym.Byte()
		check(p, in)
		return
	}
	switch c := sym.Concrete(sym.Choose(8)); c {
	case 0, 1:
		in = in[:max(0, k-1-c)]
	default:
		in[[]int{0, 1, k / 3, k / 2, k - 2, k - 1}[c-2]] = sym.Byte()
		in[[]int{k - 1, 0}[sym.Concrete(sym.Choose(sym.Pick(1, 2)))]] = sym.Byte()
	}
	check(p, in)
}
