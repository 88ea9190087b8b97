// Package c26 decides property C26: a memo table may be shared by concurrent
// parses.
package c26

import (
	"fmt"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
	"verif/harness/vsync"
)

func one(l ...int) int { return l[sym.Concrete(sym.Choose(len(l)))] }

func note(f string, a ...interface{}) {
	if sym.Native() {
		sym.Note(fmt.Sprintf(f, a...))
	}
}

const (
	get = iota
	put
	edit
	list
	count
)

// op is an operation on a table.
type op struct {
	kind     int
	id, pos  int
	n, amt   int // length stored or removed, and length inserted
	n2       int // length examined
	tag      int // of what is stored
	captured *memo.Capture
}

// res is what an operation returned.
type res struct {
	found               bool
	tag, length, exam   int
	captures, capLength int
	listed, size        int
}

func anyOp(tag int) op {
	o := op{kind: one(get, put, edit, list, count), tag: tag, pos: int(sym.Byte() & 15)}
	switch o.kind {
	case put:
		o.n, o.n2 = 2, one(2, 4)
	case edit:
		o.n, o.amt = sym.Concrete(sym.Choose(3)), sym.Concrete(sym.Choose(3))
	}
	note("%s", o.text())
	return o
}

func (o op) text() string {
	switch o.kind {
	case put:
		return fmt.Sprintf("put #%d at %d length %d examined %d", o.tag, o.pos, o.n, o.n2)
	case edit:
		return fmt.Sprintf("edit [%d,%d) to %d bytes", o.pos, o.pos+o.n, o.amt)
	}
	switch o.kind {
	case list:
		return "list"
	case count:
		return "count"
	}
	return fmt.Sprintf("get at %d", o.pos)
}

func (o op) run(t *memo.TreeTable) (r res) {
	switch o.kind {
	case put:
		t.Put(o.id, o.pos, o.n, o.n2, o.tag, []*memo.Capture{memo.NewCaptureNode(o.tag, o.pos, o.n, nil)})
	case edit:
		t.ApplyEdit(memo.Edit{Start: o.pos, End: o.pos + o.n, Len: o.amt})
	case list:
		for _, e := range t.AllValues() {
			r.listed |= 1 << uint(e.Count())
		}
	case count:
		r.size = t.Size()
	default:
		e, ok := t.Get(o.id, o.pos)
		if !ok {
			return r
		}
		r = res{found: true, tag: e.Count(), length: e.Length(), exam: e.Examined(), captures: len(e.Captures())}
		if r.captures == 1 {
			r.capLength = e.Captures()[0].Len()
		}
	}
	return r
}

// state is what a table holds: the position of every result and of its capture.
type state struct {
	in       [8]bool
	pos, cap [8]int
}

func stateOf(t *memo.TreeTable) (s state) {
	for _, e := range t.AllValues() {
		sym.Assert(e.Count() >= 0 && e.Count() < 8 && !s.in[e.Count()], "table holds an unknown value or one twice")
		s.in[e.Count()] = true
		s.pos[e.Count()] = e.Pos()
		s.cap[e.Count()] = e.Captures()[0].Start()
	}
	return s
}

func (s *state) equal(o *state) bool {
	r := true
	for i := range s.in {
		if s.in[i] != o.in[i] {
			return false
		}
		if s.in[i] {
			r = sym.And(r, sym.And(s.pos[i] == o.pos[i], s.cap[i] == o.cap[i]))
		}
	}
	return sym.Decide(r)
}

// check runs operations in threads and looks for an order of them that gives
// the same answers and leaves the same table.
func check(before []op, threads ...[]op) {
	start := func() *memo.TreeTable {
		t := memo.NewTreeTable(0)
		for _, o := range before {
			o.run(t)
		}
		return t
	}
	t := start()
	got := make([][]res, len(threads))
	var fs []func()
	for i := range threads {
		ops, r := threads[i], make([]res, len(threads[i]))
		got[i] = r
		fs = append(fs, func() {
			for k, o := range ops {
				r[k] = o.run(t)
			}
		})
	}
	vsync.Par(fs...)
	end := stateOf(t)

	// every order that keeps the order of each thread
	next := make([]int, len(threads))
	var order []int
	explained := false
	var try func(left int)
	try = func(left int) {
		if explained {
			return
		}
		if left > 0 {
			for i := range threads {
				if next[i] < len(threads[i]) {
					next[i]++
					order = append(order, i)
					try(left - 1)
					order = order[:len(order)-1]
					next[i]--
				}
			}
			return
		}
		s := start()
		at := make([]int, len(threads))
		for _, i := range order {
			r := threads[i][at[i]].run(s)
			if r != got[i][at[i]] {
				return
			}
			at[i]++
		}
		e := stateOf(s)
		if end.equal(&e) {
			explained = true
		}
	}
	n := 0
	for i := range threads {
		n += len(threads[i])
	}
	try(n)
	sym.Assert(explained, "no order of the operations gives these answers")
	for i := range got {
		for _, r := range got[i] {
			sym.ObsB(r.found)
			if r.found {
				sym.Obs(r.tag)
				sym.Reach("found")
			}
		}
	}
}

// U_two: two threads.
//
// unit: budget=60
// bounds: a table with 0..2 results, then two threads of one operation each (thorough: one of them two): lookups, stores, listings, counts and edits at arbitrary positions 0..15, stored lengths 2 and examined lengths 2 or 4, edits that replace 0..2 by 0..2 bytes; every interleaving at the locks, and a happens-before race check of every memory access in between
func U_two() {
	var before []op
	n := sym.Concrete(sym.Choose(3))
	for i := 0; i < n; i++ {
		before = append(before, op{kind: put, pos: 5 + 4*i, n: 2, n2: 3, tag: i})
	}
	a := []op{anyOp(4)}
	b := []op{anyOp(5)}
	if sym.Thorough() {
		a = append(a, anyOp(6))
	}
	check(before, a, b)
}

// fixed is an operation without symbolic operands.
func fixed(tag int) op {
	o := op{tag: tag, n: 2, n2: 3}
	switch one(0, 1, 2, 3, 4, 5, 6, 7) {
	case 0:
		o.kind, o.pos = get, 6
	case 1:
		o.kind, o.pos = put, 6
	case 2:
		o.kind, o.pos = put, 4
	case 3:
		o.kind, o.pos, o.n, o.amt = edit, 1, 0, 1
	case 4:
		o.kind, o.pos, o.n, o.amt = edit, 6, 1, 2
	case 5:
		o.kind, o.pos = get, 2
	case 6:
		o.kind = one(list, count)
	default:
		o.kind, o.pos = get, 11
	}
	note("%s", o.text())
	return o
}

// U_order: more operations.
//
// unit: budget=60
// bounds: a table with 5 results of which 0..2 shifts are pending, then two threads of two and one (thorough two) operations or three threads of one (thorough: of two, one and one) out of {listing, counting, lookups at three positions, stores at two, an edit that shifts all, an edit that forgets and shifts what is behind}; every interleaving at the locks
func U_order() {
	var before []op
	for _, i := range []int{2, 0, 3, 1, 4} {
		before = append(before, op{kind: put, pos: 2 + 4*i, n: 2, n2: 3, tag: i % 4})
	}
	before = before[:4]
	for i := sym.Concrete(sym.Choose(3)); i > 0; i-- {
		before = append(before, op{kind: edit, pos: 0, amt: 1})
	}
	a := []op{fixed(4), fixed(5)}
	if sym.Decide(sym.Bool()) {
		b := []op{fixed(6)}
		if sym.Thorough() {
			b = append(b, fixed(7))
		}
		check(before, a, b)
		return
	}
	if !sym.Thorough() {
		check(before, a[:1], a[1:], []op{fixed(6)})
		return
	}
	check(before, a, []op{fixed(6)}, []op{fixed(7)})
}

// template is a pattern that memoizes.
func template(i int) *P {
	any, b := AnyN(1), LB(sym.Byte())
	switch i {
	case 0:
		return Un(Star, MemoP(Capt(Cat(b, Un(Opt, any)), 1)))
	case 1:
		return Grammar("S", []string{"S", "A"}, []*P{Or(Cat(NT("A"), NT("S"), L("x")), NT("A")), MemoP(Capt(Or(b, Cat(any, Un(Not, b))), 1))})
	case 2:
		return Cat(Un(And, MemoP(Cat(Capt(b, 1), Capt(any, 2)))), Un(Star, Or(MemoP(Capt(Cat(any, any, any), 3)), any)))
	}
	return Cat(Un(Opt, Capt(MemoP(Cat(Capt(any, 1), MemoP(Capt(any, 2)))), 3)), MemoP(Un(Star, Capt(b, 4))))
}

// U_parses: concurrent parses with one table.
//
// unit: budget=60
// bounds: 4 templates with memo entries, two threads (thorough three) that parse the same 1..3 arbitrary bytes with one table (fresh, or filled by an earlier parse of the same text or of the text without its first byte, then edited), every interleaving at the locks with at most 2 (thorough 3) preemptions; every thread's result, read by the thread at once or after all have ended, is that of a parse without a table
func U_parses() {
	p := template(one(0, 1, 2, 3))
	in := sym.Bytes(sym.Concrete(sym.Range(1, 3)))
	Note(p, in)
	code := vm.Encode(pattern.MustCompile(p.Build()))
	ok, n, c, _ := code.Exec(&Reader{B: in}, memo.NoneTable{})
	var nodes []*Node
	if ok {
		nodes = TreeOf(c)
	}
	tbl := memo.NewTreeTable(0)
	switch one(0, 1, 2) {
	case 1:
		code.Exec(&Reader{B: in}, tbl)
		sym.Reach("filled table")
	case 2:
		code.Exec(&Reader{B: in[1:]}, tbl)
		tbl.ApplyEdit(memo.Edit{Start: 0, End: 0, Len: 1})
		sym.Reach("edited table")
	}
	type result struct {
		ok bool
		n  int
		c  *memo.Capture
	}
	k := sym.Pick(2, 3)
	got := make([]*result, k)
	walk := sym.Decide(sym.Bool())
	var fs []func()
	for i := 0; i < k; i++ {
		r := &result{}
		got[i] = r
		fs = append(fs, func() {
			r.ok, r.n, r.c, _ = code.Exec(&Reader{B: in}, tbl)
			if walk && r.ok {
				SameTree(r.c, nodes, "tree read during another parse")
			}
		})
	}
	vsync.ParN(sym.Pick(2, 3), fs...)
	for _, r := range got {
		sym.Assert(r.ok == ok, "verdict of a concurrent parse")
		if ok {
			sym.Assert(r.n == n, "end of a concurrent parse")
			SameTree(r.c, nodes, "tree of a concurrent parse")
			sym.Reach("trees")
		}
	}
	sym.ObsB(ok)
}
