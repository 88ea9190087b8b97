// Package c22 decides property C22: walking a capture tree visits each visible
// capture once, in order.
package c22

import (
	"fmt"

	"github.com/zyedidia/gpeg/memo"
	"verif/harness/sym"
)

func one(l ...int) int { return l[sym.Concrete(sym.Choose(len(l)))] }

// node is a capture or, if it groups others, a dummy.
type node struct {
	dummy       bool
	id          int
	start, size int
	kids        []*node
	real        *memo.Capture
}

// visible are the captures below a node, not below one another, in order.
func (n *node) visible() []*node {
	var r []*node
	for _, k := range n.kids {
		if k.dummy {
			r = append(r, k.visible()...)
		} else {
			r = append(r, k)
		}
	}
	return r
}

func (n *node) String() string {
	s := fmt.Sprintf("%d@%d+%d", n.id, n.start, n.size)
	if n.dummy {
		s = "dummy"
	}
	if len(n.kids) > 0 {
		s += fmt.Sprint(n.kids)
	}
	return s
}

func (n *node) build() *memo.Capture {
	var kids []*memo.Capture
	for _, k := range n.kids {
		kids = append(kids, k.build())
	}
	if n.dummy {
		n.real = memo.NewCaptureDummy(n.start, n.size, kids)
	} else {
		n.real = memo.NewCaptureNode(n.id, n.start, n.size, kids)
	}
	return n.real
}

// each visits a node and all below it.
func (n *node) each(f func(*node)) {
	f(n)
	for _, k := range n.kids {
		k.each(f)
	}
}

// check compares a node and all below it with what is built from them.
func (n *node) check() {
	c := n.real
	sym.Assert(c.Dummy() == n.dummy, "grouping")
	if !n.dummy {
		sym.Assert(c.Id() == n.id, "identifier")
	}
	sym.Assert(c.Start() == n.start, "start")
	sym.Assert(c.Len() == n.size, "length")
	sym.Assert(c.End() == n.start+n.size, "end")
	want := n.visible()
	it, behind := c.ChildIterator(0), c.ChildIterator(0)
	for i, w := range want {
		sym.Assert(it() == w.real, "child missing or out of order")
		if len(want) < 8 {
			// other walks over the same captures are under way
			w.real.NumChildren()
			w.real.ChildIterator(0)()
			c.ChildIterator(0)()
			c.Child(len(want) - 1)
		}
		if i > 0 {
			sym.Assert(behind() == want[i-1].real, "a second walk, one behind the first")
		}
	}
	for i := 0; i < 3; i++ {
		sym.Assert(it() == nil, "more children than there are")
	}
	sym.Obs(c.NumChildren())
	sym.Assert(c.NumChildren() == len(want), "number of children")
	for i, w := range want {
		sym.Assert(c.Child(i) == w.real, "n-th child")
	}
	sym.Assert(c.Child(len(want)) == nil && c.Child(len(want)+3) == nil && c.Child(-1) == nil, "child out of range")
	if len(want) > 1 && len(n.kids) > 0 && n.kids[0].dummy {
		sym.Reach("captures in groups")
	}
	for _, k := range n.kids {
		k.check()
	}
}

func (n *node) note() {
	if sym.Native() {
		sym.Note(n.String())
	}
}

// gen chooses trees with positions that are any numbers.
type gen struct{ id int }

func (g *gen) fresh() *node {
	g.id++
	n := &node{id: g.id, start: sym.Int(), size: sym.Int()}
	n.dummy = sym.Decide(sym.Bool())
	return n
}

// below chooses k nodes below n.
func (g *gen) below(n *node, k int) {
	for k > 0 {
		c := g.fresh()
		m := sym.Concrete(sym.Range(1, k)) // nodes of this child
		g.below(c, m-1)
		n.kids = append(n.kids, c)
		k -= m
	}
}

// U_shapes: all small trees.
//
// unit: budget=60
// bounds: every ordered tree of 1..7 (thorough 8) nodes, each a capture or a grouping node, with arbitrary positions and lengths
func U_shapes() {
	g := &gen{}
	r := g.fresh()
	g.below(r, sym.Concrete(sym.Range(0, sym.Pick(6, 7))))
	r.build()
	r.note()
	r.check()
}

// U_deep: deep nesting and long runs of groups.
//
// unit: budget=30
// bounds: chains of 1..12 nested groups, each beginning or ending with a capture or an empty group, and lists of 3..40 groups that are empty or hold one capture, with a capture before or behind
func U_deep() {
	g := &gen{}
	r := &node{dummy: sym.Decide(sym.Bool())}
	if sym.Decide(sym.Bool()) {
		n := r
		for i := one(1, 2, 5, 12); i > 0; i-- {
			in := &node{dummy: true, start: i}
			other := g.leaf()
			if i < 4 {
				other = g.fresh()
			}
			if i%2 == 0 {
				n.kids = append(n.kids, in, other)
			} else {
				n.kids = append(n.kids, other, in)
			}
			n = in
		}
	} else {
		every := one(1, 2, 7, 100)
		k := one(3, 14, 40)
		for i := 0; i < k; i++ {
			d := &node{dummy: true}
			if i%every == 1 {
				d.kids = append(d.kids, g.leaf())
			}
			r.kids = append(r.kids, d)
		}
		if sym.Decide(sym.Bool()) {
			r.kids = append(r.kids, g.leaf())
		} else {
			r.kids = append([]*node{g.leaf()}, r.kids...)
		}
	}
	r.build()
	r.note()
	r.check()
}

func (g *gen) leaf() *node {
	g.id++
	return &node{id: g.id, start: 2 * g.id, size: 1}
}

// num is a number of 0..65535.
func num() int { return int(sym.U16()) }

// U_entries: captures of stored results move with their text.
//
// unit: budget=60
// bounds: trees of 1..4 (thorough 5) nodes at any offsets in a result stored at any position below 65536, the first below the root possibly stored before as a result of its own, then 1 or 2 (thorough 3) edits of any sizes and positions below 65536 before or behind the stored text
func U_entries() {
	g := &gen{}
	r := g.fresh()
	g.below(r, sym.Concrete(sym.Range(0, sym.Pick(3, 4))))
	at := num()
	off := num()
	r.each(func(n *node) {
		n.size = n.id
		n.start = at + off + n.id
	})
	r.build()
	t := memo.NewTreeTable(0)
	const length = 2000
	if len(r.kids) > 0 && sym.Decide(sym.Bool()) {
		k := r.kids[0]
		t.Put(1, at, length, length, 1, []*memo.Capture{k.real})
		r.check()
	}
	t.Put(2, at, length, length, 1, []*memo.Capture{r.real})
	r.note()
	r.check()
	end := at + length
	for i := sym.Concrete(sym.Range(1, sym.Pick(2, 3))); i > 0; i-- {
		start := num()
		n, ins := num(), num()
		e := memo.Edit{Start: start, End: start + n, Len: ins}
		if sym.Native() {
			sym.Note(fmt.Sprintf("edit %+v", e))
		}
		before := sym.Decide(sym.Bool())
		if before {
			sym.Assume(start+n < at-1)
		} else {
			sym.Assume(start > end+1)
		}
		t.ApplyEdit(e)
		if before {
			d := ins - n
			at += d
			end += d
			r.each(func(n *node) { n.start += d })
			sym.Reach("moved")
		}
		r.check()
	}
	ent, ok := t.Get(2, at)
	sym.Assert(ok && len(ent.Captures()) == 1 && ent.Captures()[0] == r.real, "stored captures")
}
