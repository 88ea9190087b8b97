// Package c21 decides property C21: a program is immutable and parsing is
// repeatable.
package c21

import (
	"fmt"
	"regexp/syntax"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

func one(l ...int) int { return l[sym.Concrete(sym.Choose(len(l)))] }

func b() *P { return LB(sym.Byte()) }

// result is what a run returned, and a copy of it made at once.
type result struct {
	ok     bool
	n      int
	tree   *memo.Capture
	errs   []vm.ParseError
	nodes  []*Node
	logged []vm.ParseError
}

func run(code *vm.Code, in []byte, tbl memo.Table) *result {
	before := append([]byte{}, in...)
	ok, n, c, errs := code.Exec(&Reader{B: in}, tbl)
	for i := range in {
		sym.Assert(in[i] == before[i], "subject changed")
	}
	r := &result{ok: ok, n: n, tree: c, errs: errs}
	if ok {
		r.nodes = TreeOf(c)
	}
	r.logged = append(r.logged, errs...)
	return r
}

// same compares two results.
func (r *result) same(s *result) {
	sym.Assert(r.ok == s.ok, "verdict of a repeated run")
	sym.Assert(r.n == s.n, "end of a repeated run")
	sym.Assert(len(r.logged) == len(s.errs), "number of errors of a repeated run")
	for i, e := range r.logged {
		sym.Assert(e.Pos == s.errs[i].Pos && e.Message == s.errs[i].Message, "error of a repeated run")
	}
	if r.ok {
		sym.Assert(s.tree.Start() == r.tree.Start() && s.tree.Len() == r.tree.Len(), "root of a repeated run")
		SameTree(s.tree, r.nodes, "tree of a repeated run")
		if len(r.nodes) > 0 {
			sym.Reach("captures")
		}
	}
}

// kept tells whether a result is still what it was.
func (r *result) kept() { r.same(r) }

func compile(p pattern.Pattern) (isa.Program, vm.Code) {
	prog, err := pattern.Compile(p)
	sym.Assert(err == nil, "pattern does not compile")
	saved := append(isa.Program{}, prog...)
	code := vm.Encode(prog)
	sym.Assert(len(prog) == len(saved), "length of an encoded program")
	for i := range prog {
		_, check := prog[i].(isa.CheckEnd)
		if !check {
			sym.Assert(prog[i] == saved[i], "instruction of an encoded program")
		}
	}
	return prog, code
}

// part runs a program for an interval.
func part(code *vm.Code, in []byte, low, high int) (bool, int, *memo.Capture) {
	if high < low {
		high = low
	}
	ok, n, c, _ := code.ExecInterval(&Reader{B: in}, memo.NoneTable{}, &vm.Interval{Low: low, High: high})
	return ok, n, c
}

func table(memoize bool) memo.Table {
	if memoize {
		return memo.NewTreeTable(0)
	}
	return memo.NoneTable{}
}

// check runs a pattern several times on two subjects, from one program
// encoded twice and from the pattern compiled twice.
func check(p *P, s, t []byte, tables bool) {
	Note(p, s)
	if sym.Native() {
		sym.Note(fmt.Sprintf("other subject %q", t))
	}
	patt := p.Build()
	prog, code := compile(patt)
	r := run(&code, s, table(tables))
	sym.ObsB(r.ok)
	sym.Obs(r.n)
	o := run(&code, t, table(tables))
	r.kept()
	// parses of an interval, of either subject
	part(&code, t, len(t), len(t)+1)
	iok, in, ic := part(&code, s, 0, len(s)-1)
	var icaps []*Node
	if iok {
		icaps = TreeOf(ic)
	}
	_, oc := compile(other().Build())
	x := run(&oc, t, table(tables))
	r.same(run(&code, s, table(tables)))
	again := vm.Encode(prog)
	r.same(run(&again, s, table(tables)))
	_, twice := compile(patt)
	o.same(run(&twice, t, table(tables)))
	r.same(run(&twice, s, table(tables)))
	o.same(run(&code, t, table(tables)))
	x.same(run(&oc, t, table(tables)))
	jok, jn, jc := part(&code, s, 0, len(s)-1)
	sym.Assert(iok == jok && in == jn, "verdict or end of a repeated parse of an interval")
	if iok {
		SameTree(jc, icaps, "tree of a repeated parse of an interval")
	}
	r.kept()
	o.kept()
	x.kept()
}

// other is a program with its own sets, errors, checkers and identifiers.
func other() *P {
	words := &P{Op: Check, A: Un(Star, Cls(charset.New([]byte("qr")))), Checker: isa.NewMapChecker([]string{"", "q", "rr"}),
		Ref: func(m *M, t []byte, pos, id, flag int) int { return 0 }}
	return Cat(Un(Star, Or(Capt(Cls(charset.New([]byte("024"))), 8), MemoP(Capt(Cat(Cls(charset.New([]byte("xz"))), Un(Opt, words)), 9)),
		Error("other skipped", Capt(AnyN(1), 7)))), Error("other", nil))
}

// U_terms: repeated runs of small patterns.
//
// unit: budget=60
// bounds: every pattern term of 1..3 (thorough 4) nodes over leaves {1-byte literal, set, any, empty} and operators {capture, memo, star, option, not, and, search, error recovery, alternation, concatenation}; 8 runs, interleaved with runs on another subject, parses of intervals of both and runs of a program compiled in between, of one program, the same encoded again and the pattern compiled again, without and with (fresh) tables; subjects of 0..3 and 0..1 bytes
func U_terms() {
	g := &Gen{Leaves: []Op{Lit, Set, Any, Empty}, Word: true, Unary: []Op{Cap, Memo, Star, Opt, Not, And, Search, Err}, Binary: []Op{Alt, Seq}}
	p := g.Pattern(sym.Concrete(sym.Range(1, sym.Pick(3, 4))))
	check(p, Subject(3), Subject(1), sym.Decide(sym.Bool()))
}

// template is a larger pattern.
func template(i int) *P {
	any := AnyN(1)
	switch i {
	case 0:
		return Un(Star, MemoP(Capt(Cat(any, Un(Opt, Capt(b(), 1))), 2)))
	case 1:
		return Grammar("S", []string{"S", "A"}, []*P{Or(Cat(NT("A"), NT("S")), NT("A")), Capt(Or(b(), L("b")), 1)})
	case 2:
		return Grammar("S", []string{"S", "A", "B"}, []*P{Cat(NT("A"), Un(Opt, NT("S"))), MemoP(Capt(Or(Cat(b(), NT("B")), any), 1)), Cat(Un(Not, b()), any)})
	case 3:
		return Un(Star, Un(Search, Capt(Cat(Cls(WordSet()), Un(Not, b())), 1)))
	case 4:
		return Un(Star, Or(Capt(b(), 1), Error("skipped", Capt(any, 2))))
	case 5:
		return Cat(Un(Star, Capt(b(), 1)), Or(Cat(Un(Not, any), E()), Error("rest", nil)))
	case 6:
		return Capt(Cat(Un(Star, Cat(Un(Not, &P{Op: EmptyOp, EOp: syntax.EmptyEndLine}), any)), Un(Opt, Capt(L("\n"), 2))), 1)
	case 7: // an inner grammar
		return Grammar("S", []string{"S", "A"}, []*P{Cat(Grammar("A", []string{"A"}, []*P{Or(Cat(b(), NT("A")), any)}), Un(Opt, Cat(NT("A"), Un(Opt, NT("S"))))), Capt(b(), 2)})
	}
	words := &P{Op: Check, A: Un(Plus, Cls(WordSet())), Checker: isa.NewMapChecker([]string{"aa", "b"}),
		Ref: func(m *M, t []byte, pos, id, flag int) int { return 0 }}
	return Un(Star, Or(Capt(words, 1), any))
}

// U_templates: repeated runs of larger patterns.
//
// unit: budget=60
// bounds: 9 templates (grammars, nested grammars, memoized repetitions, errors with and without recovery, searches, assertions, word lists), 8 runs as above, subjects of 0..3 (thorough 4) and 0..1 (thorough 2) arbitrary bytes
func U_templates() {
	i := one(0, 1, 2, 3, 4, 5, 6, 7, 8)
	n := sym.Pick(3, 4)
	if i == 8 {
		n = 3
	}
	check(template(i), Subject(n), Subject(sym.Pick(1, 2)), sym.Decide(sym.Bool()))
}

// U_inside: runs of a program during a run of the same program.
//
// unit: budget=60
// bounds: the first 7 templates followed by a check that runs the same program on another subject, inside a repetition, then the rest; compared with the same run without the inner ones; subjects of 0..3 and 0..1 (thorough 2) arbitrary bytes, without and with (separate) tables
func U_inside() {
	t := template(one(0, 1, 2, 3, 4, 5, 6))
	s, o := Subject(3), Subject(sym.Pick(1, 2))
	tables := sym.Decide(sym.Bool())
	var code vm.Code
	depth, inner := 0, false
	var first *result
	nested := func(t []byte, src *input.Input, id, flag int) int {
		if inner && depth == 0 {
			depth++
			r := run(&code, o, table(tables))
			if first != nil {
				first.same(r)
			}
			first = r
			depth--
			sym.Reach("inner run")
		}
		return 0
	}
	p := Cat(Un(Opt, AnyN(1)), &P{Op: Check, A: Un(Opt, t), Checker: CheckerFunc(nested),
		Ref: func(m *M, t []byte, pos, id, flag int) int { return 0 }}, Un(Star, Capt(AnyN(1), 7)))
	Note(p, s)
	if sym.Native() {
		sym.Note(fmt.Sprintf("inner subject %q", o))
	}
	_, code = compile(p.Build())
	r := run(&code, s, table(tables))
	sym.ObsB(r.ok)
	inner = true
	r.same(run(&code, s, table(tables)))
	inner = false
	r.kept()
	if first != nil {
		first.kept()
		first.same(run(&code, o, table(tables)))
	}
}

// U_long: repeated runs on long subjects.
//
// unit: budget=30
// bounds: 4 templates on subjects of 4095..4098 bytes (around the buffer size), the bytes around the boundary arbitrary, then on a short one, then again
func U_long() {
	sym.Steps(40000000)
	in := make([]byte, one(4095, 4096, 4098))
	for i := range in {
		in[i] = '-'
	}
	in[4094] = sym.Byte()
	if len(in) > 4096 {
		in[4096] = sym.Byte()
	}
	any := AnyN(1)
	var p *P
	switch one(0, 1, 2) {
	case 0:
		p = Cat(Un(Star, L("-")), Capt(Un(Star, any), 1))
	case 1:
		p = Un(Search, Capt(Cat(LB(sym.Byte()), Un(Opt, any)), 1))
	default:
		p = Cat(Un(Star, L("-")), Un(Opt, Cat(any, any, any, any)), Error("rest", Capt(Un(Opt, any), 2)))
	}
	Note(p, nil)
	_, code := compile(p.Build())
	r := run(&code, in, memo.NoneTable{})
	o := run(&code, in[4000:], memo.NoneTable{})
	r.same(run(&code, in, memo.NoneTable{}))
	o.kept()
	sym.ObsB(r.ok)
}

// plain is an instruction without its label.
func plain(i isa.Insn) (isa.Insn, isa.Label, bool) {
	var l isa.Label
	switch t := i.(type) {
	case isa.Jump:
		l, t.Lbl = t.Lbl, l
		return t, l, true
	case isa.Choice:
		l, t.Lbl = t.Lbl, l
		return t, l, true
	case isa.Call:
		l, t.Lbl = t.Lbl, l
		return t, l, true
	case isa.Commit:
		l, t.Lbl = t.Lbl, l
		return t, l, true
	case isa.PartialCommit:
		l, t.Lbl = t.Lbl, l
		return t, l, true
	case isa.BackCommit:
		l, t.Lbl = t.Lbl, l
		return t, l, true
	case isa.TestChar:
		l, t.Lbl = t.Lbl, l
		return t, l, true
	case isa.TestCharNoChoice:
		l, t.Lbl = t.Lbl, l
		return t, l, true
	case isa.TestSet:
		l, t.Lbl = t.Lbl, l
		return t, l, true
	case isa.TestSetNoChoice:
		l, t.Lbl = t.Lbl, l
		return t, l, true
	case isa.TestAny:
		l, t.Lbl = t.Lbl, l
		return t, l, true
	}
	return i, l, false
}

// equal tells whether two programs differ in nothing but the names of labels.
func equal(p, q isa.Program) bool {
	strip := func(p isa.Program) (isa.Program, map[isa.Label]int) {
		var r isa.Program
		at := map[isa.Label]int{}
		for _, i := range p {
			if l, ok := i.(isa.Label); ok {
				at[l] = len(r)
			} else if _, ok := i.(isa.Nop); !ok {
				r = append(r, i)
			}
		}
		return r, at
	}
	p, pl := strip(p)
	q, ql := strip(q)
	if len(p) != len(q) {
		return false
	}
	same := true
	for i := range p {
		x, xl, xok := plain(p[i])
		y, yl, yok := plain(q[i])
		if xok != yok || xok && pl[xl] != ql[yl] {
			return false
		}
		same = sym.And(same, x == y)
	}
	return sym.Decide(same)
}

// U_twice: patterns compiled twice and as part of others.
//
// unit: budget=60
// bounds: every pattern term of 1..6 (thorough 7) nodes (those of up to 4 (5) over all of these operators, larger ones over fewer) over leaves {literals of 1..2 bytes, set, any, empty} and operators {capture, star, plus, option, not, and, search, error recovery, alternation, concatenation}, alone, twice below an alternative, or as a rule of a grammar; compiled three times, with the pattern shown as text (terms of up to 3 nodes over any and empty, twice beside a literal and a set) and put below another in between; programs that differ (up to the names of labels) are run on subjects of 0..3 bytes
func U_twice() {
	g := &Gen{Leaves: []Op{Lit, Any, Empty}, Lit2: true, Unary: []Op{Cap, Star, Opt, Not}, Binary: []Op{Alt, Seq}}
	n := sym.Concrete(sym.Range(1, sym.Pick(6, 7)))
	show := n <= 3 && sym.Decide(sym.Bool())
	if n <= sym.Pick(4, 5) {
		if show {
			g.Leaves, g.Lit2 = []Op{Any, Empty}, false
		} else {
			g.Leaves = append(g.Leaves, Set)
		}
		g.Unary = append(g.Unary, And, Plus, Search, Err)
	}
	p := g.Pattern(n)
	if show {
		p = Or(Cat(L("ab"), p), Cat(p, Cls(charset.New([]byte("qr")))))
	}
	patt := p.Build()
	switch sym.Concrete(sym.Choose(3)) {
	case 0:
		p = Or(Cat(p, L("x")), p)
		patt = pattern.Or(pattern.Concat(patt, pattern.Literal("x")), patt)
	case 1:
		p = Grammar("S", []string{"S", "A"}, []*P{Or(NT("A"), Cat(L("x"), NT("S"))), p})
		patt = pattern.Grammar("S", map[string]pattern.Pattern{
			"S": pattern.Or(pattern.NonTerm("A"), pattern.Concat(pattern.Literal("x"), pattern.NonTerm("S"))), "A": patt})
	}
	Note(p, nil)
	first, err := pattern.Compile(patt)
	sym.Assert(err == nil, "pattern does not compile")
	if show {
		sym.Assert(pattern.Prettify(patt) != "", "pattern shown as text")
	}
	second, err := pattern.Compile(patt)
	sym.Assert(err == nil, "pattern does not compile the second time")
	_, err = pattern.Compile(pattern.Star(pattern.Concat(pattern.Literal("y"), pattern.Cap(patt, 99), pattern.Optional(patt))))
	sym.Assert(err == nil, "pattern does not compile below another")
	third, err := pattern.Compile(patt)
	sym.Assert(err == nil, "pattern does not compile the third time")
	for _, again := range []isa.Program{second, third} {
		if equal(first, again) {
			continue
		}
		sym.Reach("different programs")
		in := Subject(3)
		if sym.Native() {
			sym.Note(fmt.Sprintf("subject %q", in))
		}
		a, b := vm.Encode(first), vm.Encode(again)
		run(&a, in, memo.NoneTable{}).same(run(&b, in, memo.NoneTable{}))
	}
}
