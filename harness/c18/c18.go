// Package c18 decides property C18: checkers decide on exactly the matched
// text; back-references repeat it.
package c18

import (
	"fmt"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

func choose(n int) int { return sym.Concrete(sym.Choose(n)) }

func b() *P { return LB(sym.Byte()) }

type call struct {
	who      int
	text     []byte
	id, flag int
}

// outcomes are what the calls of all checkers return, in order: chosen when
// the first of the code and the reference comes to a call.
type outcomes struct {
	n    int // as many are chosen
	outs []int
}

func (o *outcomes) at(i int) int {
	if i >= o.n {
		return 0
	}
	if i == len(o.outs) {
		o.outs = append(o.outs, choose(4)-1) // refuse, or consume 0, 1, 2 more
	}
	return o.outs[i]
}

// script is what the checkers of one run were given.
type script struct {
	o     *outcomes
	calls []call
}

func (s *script) next(who int, text []byte, id, flag int) int {
	s.calls = append(s.calls, call{who, append([]byte{}, text...), id, flag})
	return s.o.at(len(s.calls) - 1)
}

// two kinds of checkers
type checker struct {
	s   *script
	who int
}

func (c *checker) Check(b []byte, src *input.Input, id, flag int) int {
	return c.s.next(c.who, b, id, flag)
}

// side is one run: the code's or the reference's script.
type side struct{ real, want *script }

func newSide(n int) *side {
	o := &outcomes{n: n}
	return &side{&script{o: o}, &script{o: o}}
}

// check is a pattern checked by checker who.
func (s *side) check(a *P, who, id, flag int) *P {
	var c isa.Checker = &checker{s.real, who}
	if who == 1 {
		c = CheckerFunc(func(b []byte, src *input.Input, id, flag int) int { return s.real.next(who, b, id, flag) })
	}
	return &P{Op: Check, A: a, N: id, Flag: flag, Checker: c,
		Ref: func(m *M, b []byte, pos, id, flag int) int {
			n := s.want.next(who, b, id, flag)
			if n > len(m.In)-pos {
				sym.Assume(false) // more than there is
			}
			return n
		}}
}

func (s *side) compare(p *P, in []byte) {
	Note(p, in)
	prog, err := pattern.Compile(p.Build())
	sym.Assert(err == nil, "pattern does not compile")
	wok, wn, caps, _ := Run(p, in)
	code := vm.Encode(prog)
	ok, n, c, _ := code.Exec(&Reader{B: in}, memo.NoneTable{})
	if sym.Native() {
		sym.Note(fmt.Sprintf("outcomes of the checks %v", s.real.o.outs))
	}
	sym.ObsB(ok)
	sym.Obs(len(s.real.calls))
	sym.Assert(len(s.real.calls) == len(s.want.calls), "number of checks")
	for i, w := range s.want.calls {
		g := s.real.calls[i]
		sym.Assert(g.who == w.who, "wrong checker called")
		sym.Assert(g.id == w.id && g.flag == w.flag, "identifier or flag given to the checker")
		sym.Assert(len(g.text) == len(w.text), "length of the checked text")
		for k := range w.text {
			sym.Assert(g.text[k] == w.text[k], "checked text")
		}
	}
	sym.Assert(ok == wok, "verdict")
	if !ok {
		return
	}
	sym.Obs(n)
	sym.Assert(n == wn, "end")
	SameTree(c, caps, "captures")
	if len(s.want.calls) > 1 {
		sym.Reach("checked twice")
	}
}

// checked is a sub-pattern to check.
func checked(k int) *P {
	switch k {
	case 0:
		return b()
	case 1:
		return Un(Star, b())
	case 2:
		return Or(Cat(b(), b()), b())
	case 3:
		return E()
	case 4:
		return Capt(Cls(WordSet()), 1)
	case 5:
		return Un(Opt, Capt(b(), 2))
	case 6:
		return Cat(AnyN(1), Un(Not, b()))
	}
	return Un(Search, b())
}

// U_one: one check in every context.
//
// unit: budget=60
// bounds: one check over 8 sub-patterns in 12 contexts (sequence, choice, repetition, option, predicates, capture, search, memo entry, rule), with any outcomes (refuse, or 0..2 more bytes) of its first 3 calls, 3 pairs of identifier and flag, subjects of 0..3 (thorough 4) bytes
func U_one() {
	s := newSide(3)
	k := choose(3)
	x := s.check(checked(choose(8)), k%2, []int{0, 1, 300}[k], []int{2, 0, 300}[k])
	check(s, x)
}

func check(s *side, x *P) {
	var p *P
	switch choose(12) {
	case 0:
		p = Cat(x, b())
	case 1:
		p = Cat(b(), x)
	case 2:
		p = Or(x, b())
	case 3:
		p = Or(Cat(b(), x), AnyN(1))
	case 4:
		p = Un(Star, x)
	case 5:
		p = Un(Plus, Cat(b(), x))
	case 6:
		p = Cat(Un(Opt, x), Un(Opt, b()))
	case 7:
		p = Cat(Un(Not, x), AnyN(1))
	case 8:
		p = Cat(Un(And, x), AnyN(1))
	case 9:
		p = Capt(Cat(x, MemoP(x)), 9)
	case 10:
		p = Un(Search, x)
	default:
		p = Grammar("S", []string{"S", "A"}, []*P{Or(Cat(NT("A"), NT("S")), NT("A")), x})
		if _, wf := Sound(p); !wf {
			sym.Assume(false)
		}
	}
	if !p.WellFormed() {
		sym.Assume(false)
	}
	s.compare(p, Subject(sym.Pick(3, 4)))
}

// U_two: two different checkers, of one kind or two.
//
// unit: budget=60
// bounds: two checks with different checkers, identifiers and flags: in sequence, as alternatives, one inside the other's sub-pattern, one in a predicate of the other; over 5 sub-patterns each, with any outcomes of the first 3 calls, alone or repeated, subjects of 0..3 (thorough 4) bytes
func U_two() {
	s := newSide(3)
	x, y := checked(choose(5)), checked(choose(5))
	other := 1 + choose(2) // another kind of checker or another one of the same kind
	var p *P
	switch choose(5) {
	case 0:
		p = Cat(s.check(x, 0, 5, 6), s.check(y, other, 7, 0))
	case 1:
		p = Or(s.check(x, 0, 5, 6), s.check(y, other, 7, 0))
	case 2:
		p = s.check(Cat(x, s.check(y, other, 7, 0)), 0, 5, 6)
	case 3:
		p = Or(Cat(s.check(x, 0, 5, 6), b()), s.check(y, other, 5, 6))
	default:
		p = s.check(Cat(Un(Not, s.check(y, other, 7, 1)), x), 0, 0, 0)
	}
	if sym.Decide(sym.Bool()) {
		p = Un(Star, p)
		if !p.WellFormed() {
			sym.Assume(false)
		}
	}
	s.compare(p, Subject(sym.Pick(3, 4)))
}

// U_words: word lists.
//
// unit: budget=60
// bounds: lists of 0..3 words of 0..2 arbitrary bytes (also equal ones), checked over any text matched by 3 sub-patterns, in subjects of 0..3 bytes
func U_words() {
	n := sym.Concrete(sym.Range(0, 3))
	words := make([]string, n)
	for i := range words {
		words[i] = string(Subject(2))
	}
	x := []*P{Un(Star, AnyN(1)), Un(Opt, AnyN(1)), Cat(AnyN(1), Un(Opt, AnyN(1)))}[choose(3)]
	p := &P{Op: Check, A: x, Checker: isa.NewMapChecker(words),
		Ref: func(m *M, t []byte, pos, id, flag int) int {
			for _, w := range words {
				if w == string(t) {
					return 0
				}
			}
			return -1
		}}
	q := Or(p, b())
	in := Subject(3)
	Note(q, in)
	code := vm.Encode(pattern.MustCompile(q.Build()))
	ok, end, _, _ := code.Exec(&Reader{B: in}, memo.NoneTable{})
	wok, wend, _, _ := Run(q, in)
	sym.ObsB(ok)
	sym.Assert(ok == wok, "verdict")
	sym.Assert(!ok || end == wend, "end")
	if ok && end > 1 {
		sym.Reach("word")
	}
}

// refs is a back-reference checker beside its model.
type refs struct {
	real *isa.BackReference
	want map[int][]byte
}

func (r *refs) p(a *P, kind isa.RefKind, id int) *P {
	return &P{Op: Check, A: a, N: id, Flag: int(kind), Checker: r.real,
		Ref: func(m *M, t []byte, pos, id, flag int) int {
			switch isa.RefKind(flag) {
			case isa.RefDef:
				r.want[id] = append([]byte{}, t...)
			case isa.RefUse:
				w := r.want[id]
				if len(w) > len(m.In)-pos {
					return -1
				}
				for i := range w {
					if m.In[pos+i] != w[i] {
						return -1
					}
				}
				return len(w)
			}
			return 0
		}}
}

func (r *refs) compare(code *vm.Code, p *P, in []byte) {
	Note(p, in)
	ok, n, c, _ := code.Exec(&Reader{B: in}, memo.NoneTable{})
	wok, wn, caps, _ := Run(p, in)
	sym.ObsB(ok)
	sym.Assert(ok == wok, "verdict")
	if !ok {
		return
	}
	sym.Obs(n)
	sym.Assert(n == wn, "end")
	SameTree(c, caps, "captures")
	if n > 2 {
		sym.Reach("reference")
	}
}

// U_refs: definitions, redefinitions and uses.
//
// unit: budget=60
// bounds: sequences of 3 (thorough 4) parts, each a definition (of one of 3 sub-patterns), a use (also under not, option and capture), a block or any byte, over 2 identifiers, also inside an abandoned alternative; 1 or 2 parses with the same checker, subjects of 0..4 bytes
func U_refs() {
	r := &refs{isa.NewBackRef(), map[int][]byte{}}
	part := func() *P {
		id := choose(2)
		def := func(k int) *P {
			switch k {
			case 0:
				return r.p(AnyN(1), isa.RefDef, id)
			case 1:
				return r.p(Un(Star, b()), isa.RefDef, id)
			}
			return r.p(AnyN(2), isa.RefDef, id)
		}
		use := r.p(E(), isa.RefUse, id)
		switch choose(9) {
		case 0:
			return def(0)
		case 1:
			return def(1)
		case 2:
			return def(2)
		case 3:
			return use
		case 4:
			return Un(Opt, Cat(AnyN(1), use))
		case 5:
			return Cat(Un(Not, use), AnyN(1))
		case 6:
			return Or(Cat(def(0), b()), Capt(use, 1))
		case 7:
			return r.p(AnyN(1), isa.RefBlock, id)
		}
		return AnyN(1)
	}
	var l []*P
	for i := 0; i < sym.Pick(3, 4); i++ {
		l = append(l, part())
	}
	p := Cat(l...)
	code := vm.Encode(pattern.MustCompile(p.Build()))
	r.compare(&code, p, sym.Bytes(sym.Pick(3, 4)))
	if sym.Thorough() && sym.Decide(sym.Bool()) {
		r.compare(&code, p, Subject(2))
	}
}

// U_again: the symbols of an earlier parse.
//
// unit: budget=20
// bounds: a definition or a use, chosen by the first byte, in two parses with the same checker, subjects of 0..3 bytes
func U_again() {
	r := &refs{isa.NewBackRef(), map[int][]byte{}}
	p := Or(Cat(L("="), r.p(Un(Star, AnyN(1)), isa.RefDef, 4)), Cat(L(":"), r.p(E(), isa.RefUse, 4)))
	code := vm.Encode(pattern.MustCompile(p.Build()))
	r.compare(&code, p, Subject(3))
	r.compare(&code, p, Subject(3))
}

// U_far: uses far from the definition and long ones, across buffer boundaries.
//
// unit: budget=60
// bounds: a definition of 1..2 or of 4094..4097 (around the buffer size) bytes, a gap that makes the use begin 3 before to 1 behind a buffer boundary, the last 2 bytes of the definition and the use arbitrary; the use complete, truncated or absent
func U_far() {
	n := []int{1, 2, 4094, 4095, 4096, 4097}[choose(6)]
	at := []int{4093, 4095, 4096, 4097, 8191, 8193}[choose(6)]
	if at < n {
		sym.Assume(false)
	}
	def := make([]byte, n)
	for i := range def {
		def[i] = 'a' + byte(i%7)
	}
	def[n-1] = sym.Byte()
	if n > 1 {
		def[n-2] = sym.Byte()
	}
	for i := range def {
		sym.Assume(def[i] != '-')
	}
	in := append([]byte{}, def...)
	for len(in) < at {
		in = append(in, '-')
	}
	use := append([]byte{}, def...)
	use[n-1] = sym.Byte()
	use[0] = sym.Byte()
	sym.Assume(sym.And(use[0] != '-', use[n-1] != '-'))
	in = append(in, use[:n-choose(2)]...)
	if sym.Decide(sym.Bool()) {
		in = append(in, '!')
	}
	r := &refs{isa.NewBackRef(), map[int][]byte{}}
	dash := charset.New([]byte{'-'})
	p := Cat(r.p(Un(Star, Cls(dash.Complement())), isa.RefDef, 1), Un(Star, L("-")), r.p(E(), isa.RefUse, 1), Un(Opt, L("!")))
	code := vm.Encode(pattern.MustCompile(p.Build()))
	r.compare(&code, p, in)
}

// U_lists: several word lists and several back-reference checkers in one
// program.
//
// unit: budget=40
// bounds: two word lists of 0..2 words of one arbitrary byte each, in sequence or as alternatives, subjects of 0..2 bytes; two back-reference checkers with one identifier and 3 (thorough 4) parts, each a definition of one byte with either or a use of either, subjects of 0..4 bytes
func U_lists() {
	if choose(2) == 0 {
		list := func() *P {
			words := make([]string, choose(3))
			for i := range words {
				words[i] = string(sym.Bytes(1))
			}
			return &P{Op: Check, A: Un(Opt, AnyN(1)), Checker: isa.NewMapChecker(words),
				Ref: func(m *M, t []byte, pos, id, flag int) int {
					for _, w := range words {
						if w == string(t) {
							return 0
						}
					}
					return -1
				}}
		}
		q := Cat(list(), list())
		if choose(2) == 0 {
			q = Or(list(), list())
		}
		in := Subject(2)
		Note(q, in)
		code := vm.Encode(pattern.MustCompile(q.Build()))
		ok, end, _, _ := code.Exec(&Reader{B: in}, memo.NoneTable{})
		wok, wend, _, _ := Run(q, in)
		sym.ObsB(ok)
		sym.Assert(ok == wok, "verdict")
		sym.Assert(!ok || end == wend, "end")
		return
	}
	rs := []*refs{{isa.NewBackRef(), map[int][]byte{}}, {isa.NewBackRef(), map[int][]byte{}}}
	var l []*P
	for i := 0; i < sym.Pick(3, 4); i++ {
		r := rs[choose(2)]
		if choose(2) == 0 {
			l = append(l, r.p(AnyN(1), isa.RefDef, 1))
		} else {
			l = append(l, r.p(E(), isa.RefUse, 1))
		}
	}
	p := Cat(l...)
	code := vm.Encode(pattern.MustCompile(p.Build()))
	rs[0].compare(&code, p, Subject(4))
}

// U_many: many identifiers, definitions and words.
//
// unit: budget=20
// bounds: 3 or 130 (thorough also 40 and 300) definitions of 1..2 bytes with consecutive identifiers from -2, 250 or 32767-n, then uses of any 2 of 4 of them with an arbitrary byte in one, or the same one identifier defined that often, then used; word lists of as many words of 1..9 bytes, one with an arbitrary byte, checked over a text of 1..9 bytes with another
func U_many() {
	sym.Steps(100_000_000)
	n := []int{3, 130, 40, 300}[choose(sym.Pick(2, 4))]
	word := func(i int) []byte {
		w := []byte{byte('a' + i%26), byte('a' + i/26)}
		for k := 0; k < i%8; k++ {
			w = append(w, byte('k'+i%5))
		}
		return w[:len(w)-(i+1)%2]
	}
	if choose(3) == 0 {
		words := make([]string, n)
		for i := range words {
			w := word(i)
			if i == n/2 {
				w[len(w)-1] = sym.Byte()
			}
			words[i] = string(w)
		}
		in := append(word([]int{0, n / 2, n - 1, n}[choose(4)]), '!')
		in[[]int{0, len(in) - 2, len(in) - 1}[choose(3)]] = sym.Byte()
		p := &P{Op: Check, A: Un(Star, Cat(Un(Not, L("!")), AnyN(1))), Checker: isa.NewMapChecker(words),
			Ref: func(m *M, t []byte, pos, id, flag int) int {
				for _, w := range words {
					if w == string(t) {
						return 0
					}
				}
				return -1
			}}
		code := vm.Encode(pattern.MustCompile(p.Build()))
		r := &refs{}
		r.compare(&code, p, in)
		return
	}
	r := &refs{isa.NewBackRef(), map[int][]byte{}}
	base := []int{-2, 250, 32767 - n}[choose(3)]
	same := choose(2) == 0
	id := func(i int) int {
		if same {
			return base
		}
		return base + i
	}
	var l []*P
	var in []byte
	def := map[int][]byte{}
	for i := 0; i < n; i++ {
		k := 1 + i%2
		l = append(l, r.p(AnyN(k), isa.RefDef, id(i)))
		def[id(i)] = word(i * 8)[:1]
		if k == 2 {
			def[id(i)] = append(def[id(i)], byte('0'+i%10))
		}
		in = append(in, def[id(i)]...)
	}
	at := len(in)
	for k := 0; k < 2; k++ {
		i := []int{0, n / 2, n - 2, n - 1}[choose(4)]
		l = append(l, r.p(E(), isa.RefUse, id(i)))
		in = append(in, def[id(i)]...)
	}
	in[at-1+choose(3)] = sym.Byte()
	p := Cat(l...)
	code := vm.Encode(pattern.MustCompile(p.Build()))
	r.compare(&code, p, in)
}
