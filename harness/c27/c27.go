// Package c27 decides property C27: separate uses of the library on several
// goroutines do not disturb each other.
package c27

import (
	"fmt"
	"regexp/syntax"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/input/linerope"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/rxconv"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
	"verif/harness/vsync"
)

func choose(n int) int { return sym.Concrete(sym.Choose(n)) }

func note(f string, a ...interface{}) {
	if sym.Native() {
		sym.Note(fmt.Sprintf(f, a...))
	}
}

// agrees runs a program on a subject, with a memo table that keeps everything,
// and compares with the reference.
func agrees(code *vm.Code, p *P, in []byte, what string) {
	ok, end, caps, _ := Run(p, in)
	rok, rend, c, _ := code.Exec(&Reader{B: in}, memo.NewTreeTable(0))
	sym.Assert(rok == ok, "verdict of "+what)
	if ok {
		sym.Assert(rend == end, "end of "+what)
		SameTree(c, caps, "tree of "+what)
		sym.Reach("match")
	}
	sym.ObsB(ok)
}

// template is a pattern whose program has labels, and memo entries if m.
func template(i int, b byte) *P {
	any, x := AnyN(1), LB(b)
	switch i {
	case 0:
		return Cat(MemoP(Capt(Cat(x, x), 1)), Or(Cat(MemoP(Capt(any, 2)), x), any))
	case 1:
		return Un(Star, MemoP(Capt(Cat(x, Un(Opt, any)), 3)))
	case 2:
		return Grammar("S", []string{"S", "A"}, []*P{Or(Cat(NT("A"), NT("S")), NT("A")), Capt(Or(Cat(x, any), any), 4)})
	}
	return Or(Cat(Un(Not, x), MemoP(any), x), Un(Star, Capt(x, 5)))
}

// U_build: patterns are put together and compiled at the same time.
//
// unit: budget=60
// bounds: two threads (thorough three) that each construct one of 4 patterns (memo entries, a memoized repetition, a grammar with recursion, choices, all with an arbitrary byte), compile and encode it, every interleaving at synchronisation with at most 2 preemptions and a race check of every access; then each program on subjects of 2..3 (thorough 0..3) arbitrary bytes with a memo table of its own agrees with the reference
func U_build() {
	n := sym.Pick(2, 3)
	ps := make([]*P, n)
	k := 0
	for i := range ps {
		// in any order: threads are alike
		k += choose(4 - k)
		ps[i] = template(k, sym.Byte())
		note("thread %d: %v", i, ps[i])
	}
	in := sym.Bytes(sym.Concrete(sym.Range(sym.Pick(2, 0), 3)))
	codes := make([]vm.Code, n)
	var fs []func()
	for i := range ps {
		i := i
		fs = append(fs, func() { codes[i] = vm.Encode(pattern.MustCompile(ps[i].Build())) })
	}
	vsync.ParN(2, fs...)
	for i := range ps {
		agrees(&codes[i], ps[i], in, "a program compiled at the same time as another")
	}
}

// U_join: patterns put together at the same time become parts of one.
//
// unit: budget=20
// bounds: two threads that each construct a pattern of one or two memo entries (with an arbitrary byte), every interleaving at synchronisation with at most 2 (thorough 3) preemptions and a race check of every access; then an alternation of the two, the first followed by a byte, compiled and run with a memo table on subjects of 1..3 arbitrary bytes agrees with the reference
func U_join() {
	parts := func(i int) *P {
		switch choose(3) {
		case 0:
			return MemoP(Capt(LB(sym.Byte()), 1+i))
		case 1:
			return MemoP(Capt(Cat(AnyN(1), Un(Opt, LB(sym.Byte()))), 3+i))
		}
		return Cat(MemoP(Capt(AnyN(1), 5+i)), Un(Opt, MemoP(Capt(LB(sym.Byte()), 7+i))))
	}
	p, q := parts(0), parts(1)
	note("threads: %v and %v", p, q)
	in := sym.Bytes(sym.Concrete(sym.Range(1, 3)))
	note("subject %q", in)
	var a, b pattern.Pattern
	vsync.ParN(sym.Pick(2, 3),
		func() { a = p.Build() },
		func() { b = q.Build() })
	code := vm.Encode(pattern.MustCompile(pattern.Or(pattern.Concat(a, pattern.Literal("!")), b)))
	agrees(&code, Or(Cat(p, L("!")), q), in, "a pattern of parts put together at the same time")
}

// U_shared: patterns with a common part are compiled at the same time.
//
// unit: budget=60
// bounds: one pattern object, or two that share a sub-pattern (one of 4, or a grammar whose definitions are inlined, sequences and choices the compiler merges), compiled and encoded by two threads, every interleaving at synchronisation with at most 1 (thorough 2) preemptions and a race check of every access; subjects of 0..3 arbitrary bytes, with memo tables
func U_shared() {
	b := sym.Byte()
	var p *P
	switch k := choose(7); k {
	case 4:
		p = Grammar("S", []string{"S", "A", "B"}, []*P{Cat(NT("A"), Un(Star, NT("B"))), Capt(Or(LB(b), L("x")), 1), Cat(Un(Not, LB(b)), AnyN(1))})
	case 5:
		p = Cat(Un(Not, LB(b)), AnyN(1), Un(Opt, Or(L("x"), LB(b), Cls(charset.Range('0', '9')))))
	case 6:
		p = Cat(Un(Star, Or(Cat(LB(b), LB(b)), Cat(LB(b), L("y")))), Un(Plus, Capt(L("x"), 1)))
	default:
		p = template(k, b)
	}
	in := sym.Bytes(sym.Concrete(sym.Range(0, 3)))
	Note(p, in)
	q := p.Build()
	o := q
	po := p
	if sym.Decide(sym.Bool()) {
		o = pattern.Concat(pattern.Optional(pattern.Literal("x")), q)
		po = Cat(Un(Opt, L("x")), p)
	}
	var a, c vm.Code
	vsync.ParN(sym.Pick(1, 2),
		func() { a = vm.Encode(pattern.MustCompile(q)) },
		func() { c = vm.Encode(pattern.MustCompile(o)) })
	agrees(&a, p, in, "a program whose pattern is compiled twice at once")
	agrees(&c, po, in, "a program whose pattern is compiled twice at once")
}

var texts = []string{"'a' [b-d]* / .", "S <- 'a' S / B\nB <- !'a' .", "{{ 'ab' }} ({{ . }})*", "'a", "A <- B"}

// names gives nodes the identifiers their names have in another numbering.
func names(l []*Node, from, to map[string]int) []*Node {
	var out []*Node
	for _, n := range l {
		m := *n
		for name, id := range from {
			if id == n.Id {
				m.Id = to[name]
			}
		}
		m.Kids = names(n.Kids, from, to)
		out = append(out, &m)
	}
	return out
}

// U_notation: texts are compiled at the same time.
//
// unit: budget=60
// bounds: two threads that compile one of 5 texts (an expression, a grammar, memo entries, one with a syntax error, one with an undefined name), with captures or not, encode it and run it on a subject of 0..2 arbitrary bytes; every interleaving at synchronisation with at most 1 (thorough 2) preemptions and a race check of every access; verdict, end, tree and refusal are those the text has alone
func U_notation() {
	in := sym.Bytes(sym.Concrete(sym.Range(0, 2)))
	type result struct {
		bad bool
		ok  bool
		n   int
		c   *memo.Capture
		ids map[string]int
	}
	compile := func(t string, capt bool) (r result) {
		var p pattern.Pattern
		var err error
		r.ids = map[string]int{}
		if capt {
			p, err = re.CompileCap(t, r.ids)
		} else {
			p, err = re.Compile(t)
		}
		if err != nil {
			r.bad = true
			return
		}
		prog, err := pattern.Compile(p)
		if err != nil {
			r.bad = true
			return
		}
		code := vm.Encode(prog)
		r.ok, r.n, r.c, _ = code.Exec(&Reader{B: in}, memo.NewTreeTable(0))
		return
	}
	which := [2]int{choose(len(texts)), choose(len(texts))}
	capt := sym.Decide(sym.Bool())
	note("texts %q and %q, captures %v, subject %q", texts[which[0]], texts[which[1]], capt, in)
	var alone, got [2]result
	for i, w := range which {
		alone[i] = compile(texts[w], capt)
	}
	vsync.ParN(sym.Pick(1, 2),
		func() { got[0] = compile(texts[which[0]], capt) },
		func() { got[1] = compile(texts[which[1]], capt) })
	for i := range got {
		sym.Assert(got[i].bad == alone[i].bad, "refusal of a text compiled at the same time as another")
		sym.Assert(got[i].ok == alone[i].ok && got[i].n == alone[i].n, "result of a text compiled at the same time as another")
		if got[i].ok {
			// the names of rules are numbered in any order
			sym.Assert(len(alone[i].ids) == len(got[i].ids), "names of a text compiled at the same time as another")
			SameTree(got[i].c, names(TreeOf(alone[i].c), alone[i].ids, got[i].ids), "tree of a text compiled at the same time as another")
			sym.Reach("match")
		}
		sym.ObsB(got[i].ok)
	}
}

var regexps = []string{"(?:a*b)*c", "(?:a*b*)c|a+?b", "^(?:(?:a*b)*c)*$", "(?i)a[b-c]", "(a"}

// U_regexp: regular expressions are converted at the same time.
//
// unit: budget=60
// bounds: two threads that convert one of 5 regular expressions (nested repetitions, alternatives, anchors, case folding, one with a syntax error), the second the same or the next (thorough any); every interleaving at synchronisation with at most 1 (thorough 2; one more if both are the first) preemptions and a race check of every access; verdict and end on subjects of 2 (thorough 0..4) bytes out of a..d are those of the expression converted alone
func U_regexp() {
	k := choose(len(regexps))
	which := [2]int{k, (k + choose(sym.Pick(2, len(regexps)))) % len(regexps)}
	in := sym.Bytes(sym.Concrete(sym.Range(sym.Pick(2, 0), sym.Pick(2, 4))))
	for _, c := range in {
		sym.Assume(c-'a' < 4)
	}
	note("regular expressions %q and %q, subject %q", regexps[which[0]], regexps[which[1]], in)
	type result struct {
		bad, ok bool
		n       int
	}
	convert := func(t string) (code vm.Code, bad bool) {
		p, err := rxconv.FromRegexp(t, syntax.Perl)
		if err != nil {
			return code, true
		}
		return vm.Encode(pattern.MustCompile(p)), false
	}
	var codes [2]vm.Code
	var bad [2]bool
	limit := sym.Pick(1, 2)
	if which == [2]int{} {
		limit++
	}
	vsync.ParN(limit,
		func() { codes[0], bad[0] = convert(regexps[which[0]]) },
		func() { codes[1], bad[1] = convert(regexps[which[1]]) })
	for i, w := range which {
		code, b := convert(regexps[w])
		sym.Assert(bad[i] == b, "refusal of an expression converted at the same time as another")
		if b {
			continue
		}
		ok, n, _, _ := code.Exec(&Reader{B: in}, memo.NoneTable{})
		rok, rn, _, _ := codes[i].Exec(&Reader{B: in}, memo.NoneTable{})
		sym.Assert(rok == ok && (!ok || rn == n), "match of an expression converted at the same time as another")
		sym.ObsB(ok)
		if ok {
			sym.Reach("match")
		}
	}
}

// program is one with everything the machine keeps for itself during a run.
func program(i int) *P {
	any, b := AnyN(1), LB(sym.Byte())
	switch i {
	case 0:
		return Cat(Un(Star, Or(Cat(Capt(b, 1), b), Capt(any, 2))), Un(Not, any))
	case 1:
		return Grammar("S", []string{"S", "A"}, []*P{Or(Cat(NT("A"), NT("S")), NT("A")), MemoP(Capt(Or(b, Cat(any, Un(Not, b))), 1))})
	case 2:
		return Cat(Un(Search, b), Or(Error("m", any), b))
	case 3:
		return Cat(&P{Op: Check, A: Un(Opt, any), Checker: isa.NewMapChecker([]string{"a", "bc"})}, Un(Star, Or(b, any)))
	}
	return Un(Star, MemoP(Capt(Cat(b, Un(Opt, any)), 1)))
}

// U_exec: one program is run by several threads.
//
// unit: budget=60
// bounds: one of 5 programs (repetition with captures, recursion with memo entries, search with errors, word list, memoized repetition), run by two threads (thorough three) on their own subjects of 0..1 and 0..2 (thorough 0..2 each) arbitrary bytes, each with a table of its own or none, while another thread asks for its size; every interleaving at synchronisation with at most 2 preemptions and a race check of every access; results are those of a run alone
func U_exec() {
	p := program(choose(5))
	code := vm.Encode(pattern.MustCompile(p.Build()))
	n := sym.Pick(2, 3)
	type result struct {
		ok   bool
		n    int
		c    *memo.Capture
		errs []vm.ParseError
	}
	ins := make([][]byte, n)
	alone, got := make([]result, n), make([]result, n)
	nodes := make([][]*Node, n)
	table := sym.Decide(sym.Bool())
	run := func(in []byte) (r result) {
		var t memo.Table = memo.NoneTable{}
		if table {
			t = memo.NewTreeTable(0)
		}
		r.ok, r.n, r.c, r.errs = code.Exec(&Reader{B: in}, t)
		return
	}
	var fs []func()
	for i := range ins {
		i := i
		ins[i] = sym.Bytes(sym.Concrete(sym.Range(0, sym.Pick(1+i&1, 2))))
		alone[i] = run(ins[i])
		if alone[i].ok {
			nodes[i] = TreeOf(alone[i].c)
		}
		fs = append(fs, func() { got[i] = run(ins[i]) })
	}
	Note(p, ins[0])
	fs = append(fs, func() { sym.Obs(code.Size()) })
	vsync.ParN(2, fs...)
	for i := range got {
		a, g := alone[i], got[i]
		sym.Assert(a.ok == g.ok && a.n == g.n, "result of a run at the same time as another")
		sym.Assert(len(a.errs) == len(g.errs), "errors of a run at the same time as another")
		for k := range a.errs {
			sym.Assert(a.errs[k] == g.errs[k], "error of a run at the same time as another")
		}
		if a.ok {
			SameTree(g.c, nodes[i], "tree of a run at the same time as another")
			sym.Reach("match")
		}
		sym.ObsB(g.ok)
	}
}

// pieces hands out a text in pieces.
type pieces struct {
	b []byte
	n int
}

func (p *pieces) Read(b []byte) (int, error) {
	n := copy(b[:min(len(b), p.n)], p.b)
	p.b = p.b[n:]
	if n == 0 && len(b) > 0 {
		return 0, eof{}
	}
	return n, nil
}

type eof struct{}

func (eof) Error() string { return "EOF" }

// U_stream: one wrapped stream is read by several threads.
//
// unit: budget=60
// bounds: a stream of 0..3 (thorough 4) arbitrary bytes that arrives in pieces of 1..3, wrapped and read by two threads (thorough three) with two and one (thorough two) reads each of 1..2 bytes at any offset 0..4; every interleaving at synchronisation and a race check of every access; every read returns the stream's bytes
func U_stream() {
	b := sym.Bytes(sym.Concrete(sym.Range(0, sym.Pick(3, 4))))
	r := input.FromReader(&pieces{append([]byte{}, b...), sym.Concrete(sym.Range(1, 3))})
	note("stream %q", b)
	n := sym.Pick(2, 3)
	type read struct {
		off, n int
		got    []byte
		err    error
	}
	reads := make([][]read, n)
	var fs []func()
	for i := range reads {
		reads[i] = make([]read, 2)
		l := reads[i]
		for k := range l {
			if i == 0 || k == 0 || sym.Thorough() {
				l[k] = read{off: choose(5), n: 1 + choose(2)}
			}
		}
		fs = append(fs, func() {
			for k := range l {
				buf := make([]byte, l[k].n)
				var m int
				m, l[k].err = r.ReadAt(buf, int64(l[k].off))
				l[k].got = buf[:m]
			}
		})
	}
	vsync.ParN(sym.Pick(2, 3), fs...)
	for _, l := range reads {
		for _, x := range l {
			want := b[min(x.off, len(b)):min(x.off+x.n, len(b))]
			sym.Assert(len(x.got) == len(want), "length of a read at the same time as another")
			for i := range want {
				sym.Assert(x.got[i] == want[i], "byte of a read at the same time as another")
			}
			sym.Assert(len(want) == x.n || x.err != nil, "error of a read at the same time as another")
			sym.Obs(len(want))
		}
	}
	sym.Reach("read")
}

// U_rope: one rope is read, parsed and located in by several threads.
//
// unit: budget=60
// bounds: a rope of 0..3 (thorough 5) arbitrary bytes and line breaks with splits at 2, edited once, read by two threads with one of {read at, byte, line and column of an offset, the whole text and its number of lines, parse} at offsets 0..5 and 0, 2, 5; a race check of every access; every answer is the one given alone
func U_rope() {
	b := sym.Bytes(sym.Concrete(sym.Range(0, sym.Pick(3, 5))))
	for i := range b {
		if sym.Decide(sym.Bool()) {
			sym.Assume(b[i] == '\n')
		}
	}
	opts := linerope.Options{SplitLen: 2, JoinLen: 1, RebalanceRatio: 1.2, LineSep: []byte("\n")}
	n := linerope.NewWithOpts(append([]byte{}, b...), opts)
	if len(b) > 1 {
		n.Insert(1, []byte("xyz"))
	}
	note("rope %q", b)
	code := vm.Encode(pattern.MustCompile(Un(Star, Or(Capt(L("x"), 1), AnyN(1))).Build()))
	ask := func(k, off int) (r [3]int, s string) {
		switch k {
		case 0:
			buf := make([]byte, 3)
			m, err := n.ReadAt(buf, int64(off))
			s = string(buf[:m])
			if err != nil {
				r[0] = 1
			}
		case 1:
			r[0] = n.Len()
			if off < n.Len() {
				r[1] = int(n.At(off))
			}
		case 2:
			if off < n.Len() {
				r[0], r[1] = n.LineColAt(off)
			}
		case 3:
			r[0], r[1] = n.NumLines(), n.Len()
			s = string(n.Value())
		default:
			_, m, c, _ := code.Exec(n, memo.NoneTable{})
			r[0], r[1], r[2] = m, c.NumChildren(), c.Len()
		}
		return
	}
	var ks, offs [2]int
	var want, got [2][3]int
	var wantS, gotS [2]string
	for i := range ks {
		ks[i] = choose(5)
		offs[i] = [2][]int{{0, 1, 2, 3, 4, 5}, {0, 2, 5}}[i][choose(6-3*i)]
		want[i], wantS[i] = ask(ks[i], offs[i])
	}
	vsync.Par(
		func() { got[0], gotS[0] = ask(ks[0], offs[0]) },
		func() { got[1], gotS[1] = ask(ks[1], offs[1]) })
	for i := range ks {
		sym.Assert(got[i] == want[i] && gotS[i] == wantS[i], "answer of a rope read at the same time")
		sym.Obs(got[i][0])
	}
	sym.Reach("read")
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
