// Package c08 decides property C08: the memo table forgets exactly what an
// edit can affect.
package c08

import (
	"fmt"

	"github.com/zyedidia/gpeg/memo"
	"verif/harness/sym"
)

const (
	live  = iota
	maybe // touches an edit, or lies within a byte of it
	dead
)

// ent is a stored result; its count field identifies it in the table.
type ent struct {
	id, start, length, examined int
	top                         []*memo.Capture
	caps                        []*memo.Capture // all captures of the result
	rel                         []int           // positions of the captures relative to start
	state                       int
}

type table struct {
	t memo.Table
	l []*ent

	missed, shape, best, moved bool
}

func note(f string, a ...interface{}) {
	if sym.Native() {
		sym.Note(fmt.Sprintf(f, a...))
	}
}

func open(threshold int) *table {
	note("threshold %d", threshold)
	return &table{t: memo.NewTreeTable(threshold)}
}

// put stores a result with two captures, the first with captures of every
// kind nested in it.
func (t *table) put(threshold, id, start, length, examined int) {
	note("put id %d at %d length %d examined %d", id, start, length, examined)
	e := &ent{id: id, start: start, length: length, examined: examined}
	off := 0
	if sym.Decide(length > 0) {
		off = length - 1
	}
	node := func(rel int, dummy bool, children ...*memo.Capture) *memo.Capture {
		if dummy {
			return memo.NewCaptureDummy(start+rel, 1, children)
		}
		c := memo.NewCaptureNode(2, start+rel, 1, children)
		e.caps = append(e.caps, c)
		e.rel = append(e.rel, rel)
		return c
	}
	in := node(off, false, node(off, false), node(0, true, node(off, false)))
	top := memo.NewCaptureNode(1, start, length, []*memo.Capture{in})
	next := memo.NewCaptureNode(1, start+off, 1, nil)
	e.top = []*memo.Capture{top, next}
	e.caps = append(e.caps, top, next)
	e.rel = append(e.rel, 0, off)
	t.insert(threshold, e)
}

func (t *table) insert(threshold int, e *ent) {
	n := len(t.l)
	t.l = append(t.l, e)
	t.t.Put(e.id, e.start, e.length, e.examined, n, e.top)
	if sym.Decide(sym.Or(e.examined < threshold, e.length == 0)) {
		e.state = dead
		sym.Reach("not stored")
	}
}

func (t *table) edit(start, end, n int) {
	note("edit [%d,%d) to %d bytes", start, end, n)
	t.t.ApplyEdit(memo.Edit{Start: start, End: end, Len: n})
	for _, e := range t.l {
		if e.state == dead {
			continue
		}
		high := e.start + e.examined
		switch {
		case sym.Decide(sym.And(start == end, sym.And(e.start < start, high > start))):
			e.state = dead
		case sym.Decide(sym.And(start < end, sym.And(e.start < end, high > start))):
			e.state = dead
		case sym.Decide(sym.And(e.start <= end+1, high >= start)):
			e.state = maybe
		}
		if e.state != dead && sym.Decide(e.start >= end) {
			e.start += n - (end - start)
		}
	}
}

// get compares one lookup.
func (t *table) get(id, pos int) {
	r, ok := t.t.Get(id, pos)
	if !ok {
		for _, e := range t.l {
			if e.state == live {
				t.missed = sym.And(t.missed, sym.Or(e.id != id, e.start != pos))
			}
		}
		return
	}
	sym.Assert(r != nil && r.Count() >= 0 && r.Count() < len(t.l), "lookup returned an unknown count")
	e := t.l[r.Count()]
	sym.Assert(e.state != dead, "lookup returned a forgotten or refused result")
	t.shape = sym.And(t.shape, sym.And(e.id == id, e.start == pos))
	t.same(r, e)
	for _, o := range t.l {
		if o.state == live {
			t.best = sym.And(t.best, sym.Or(sym.Or(o.id != id, o.start != pos), o.examined <= e.examined))
		}
	}
	sym.Reach("found")
}

// same compares an entry with the stored result.
func (t *table) same(r *memo.Entry, e *ent) {
	t.shape = sym.And(t.shape, sym.And(sym.And(r.Pos() == e.start, r.Length() == e.length), r.Examined() == e.examined))
	sym.Assert(len(r.Captures()) == len(e.top), "number of captures of a result")
	for i, c := range e.top {
		sym.Assert(r.Captures()[i] == c, "captures of a result")
	}
	for i, c := range e.caps {
		t.moved = sym.And(t.moved, c.Start() == e.start+e.rel[i])
	}
}

func (t *table) all() {
	seen := map[*ent]bool{}
	for _, r := range t.t.AllValues() {
		sym.Assert(r.Count() >= 0 && r.Count() < len(t.l), "listing contains an unknown count")
		e := t.l[r.Count()]
		sym.Assert(e.state != dead && !seen[e], "listing of all results")
		seen[e] = true
		t.same(r, e)
	}
	for _, e := range t.l {
		if e.state == live {
			sym.Assert(seen[e], "listing of all results misses one")
		}
	}
	sym.Assert(t.t.Size() == len(seen), "size is not the number of results")
}

func (t *table) audit(kinds int) {
	t.missed, t.shape, t.best, t.moved = true, true, true, true
	switch sym.Concrete(sym.Choose(kinds)) {
	case 0:
		for _, e := range t.l {
			t.get(e.id, e.start)
		}
	case 1:
		t.all()
	default:
		t.get(int(sym.Byte()), num())
	}
	sym.Assert(t.missed, "a live result is not found")
	sym.Assert(t.shape, "key, position, length or examined length of a result")
	sym.Assert(t.best, "lookup did not return the result that examined most")
	sym.Assert(t.moved, "position of a capture")
	n := 0
	for _, e := range t.l {
		if e.state == live {
			n++
		}
	}
	sym.Obs(n)
	if n > 1 {
		sym.Reach("several live results")
	}
}

// wide makes positions and lengths multiples of a power of two.
var wide uint

func num() int {
	return int(sym.Byte()) << wide
}

// anyPut stores a result that matched 0..255 bytes, or failed, and examined up
// to 256 more.
func (t *table) anyPut(threshold int) {
	l := num()
	if wide == 0 {
		l = sym.Choose(257)
	}
	l--
	x := l + 1 + num()
	sym.Assume(x >= 1)
	t.put(threshold, sym.Choose(2), num(), l, x)
}

// goodPut stores a result that is kept at threshold 0.
func (t *table) goodPut() {
	x := 1 + num()
	t.put(0, sym.Choose(2), num(), -1, x)
}

func (t *table) anyEdit() {
	s := num()
	e := s + num()
	t.edit(s, e, num())
}

// U_put: what is kept and which result is returned.
//
// unit: budget=40
// bounds: 1..3 stores (2 identifiers, positions 0..255, lengths -1..255, examined up to 256 bytes more than the length), thresholds 0..255, then every kind of lookup
func U_put() {
	th := int(sym.Byte())
	t := open(th)
	n := sym.Concrete(sym.Range(1, sym.Pick(2, 3)))
	for i := 0; i < n; i++ {
		t.anyPut(th)
	}
	t.audit(3)
}

// U_edit: edits between stores.
//
// unit: budget=60
// bounds: every history of 2..3 (thorough 4) stores and edits starting with a store (2 identifiers, failed results, positions 0..255, examined lengths 1..256, edits of 0..255 bytes at 0..255 to 0..255 bytes), threshold 0, then every kind of lookup
func U_edit() {
	t := open(0)
	n := sym.Concrete(sym.Range(2, sym.Pick(3, 4)))
	t.goodPut()
	for i := 1; i < n; i++ {
		if sym.Decide(sym.Bool()) {
			t.goodPut()
		} else {
			t.anyEdit()
		}
	}
	t.audit(3)
}

// U_wide: positions of any size.
//
// unit: budget=30
// bounds: a store and then a store or an edit (thorough: 3 of them) with positions, lengths and threshold that are multiples of 2^12 or 2^31 (thorough also 2^24 and 2^40) up to 255 times that, then every kind of lookup
func U_wide() {
	wide = uint([]int{31, 12, 24, 40}[sym.Concrete(sym.Choose(sym.Pick(2, 4)))])
	defer func() { wide = 0 }()
	th := 0
	if sym.Decide(sym.Bool()) {
		th = num()
	}
	t := open(th)
	t.anyPut(th)
	for i := 1; i < sym.Pick(2, 3); i++ {
		if sym.Decide(sym.Bool()) {
			t.anyPut(th)
		} else {
			t.anyEdit()
		}
	}
	t.audit(3)
}

// U_many: more results than fit one path of the tree.
//
// unit: budget=60
// bounds: 5 (thorough 2..9) results at distinct positions, separate, nested in the first, overlapping, or several per position, one (thorough two) arbitrary edits, then a lookup of each and the listing
func U_many() {
	t := open(0)
	n := 5
	if sym.Thorough() {
		n = sym.Concrete(sym.Range(2, 9))
	}
	shape := sym.Concrete(sym.Choose(4))
	for i := 0; i < n; i++ {
		x := 4
		switch {
		case shape == 1 && i == 0:
			x = 10*n + 5
		case shape == 2 && i%2 == 1:
			x = 15
		}
		t.put(0, 0, 10*i, x-2, x)
		if shape == 3 && i%2 == 0 {
			t.put(0, 0, 10*i, 1, 7)
			t.put(0, 1, 10*i, 1, 2)
		}
	}
	t.anyEdit()
	if sym.Thorough() {
		t.anyEdit()
	}
	t.audit(2)
}

// U_nested: captures that belong to an inner result move with it and with the
// outer result.
//
// unit: budget=30
// bounds: an inner result at any distance inside an outer one, with a third result elsewhere, stored in either order of positions, one (thorough two) edits, then a lookup of each
func U_nested() {
	t := open(0)
	at, d := int(sym.Byte()), int(sym.Byte())
	in := 1 + int(sym.Byte())
	t.put(0, 0, at+d, in, in)
	t.goodPut()
	inner := t.l[0]
	out := d + in + int(sym.Byte())
	e := &ent{id: 1, start: at, length: out, examined: out}
	e.top = []*memo.Capture{memo.NewCaptureNode(3, at, out, inner.top)}
	e.caps = append([]*memo.Capture{e.top[0]}, inner.caps...)
	e.rel = []int{0}
	for _, r := range inner.rel {
		e.rel = append(e.rel, d+r)
	}
	t.insert(0, e)
	t.anyEdit()
	if sym.Thorough() {
		t.anyEdit()
	}
	t.audit(2)
}

// U_edits: two edits after two stores.
//
// unit: budget=60
// bounds: two results, the second anywhere in or after the first, identifiers equal or not, two arbitrary edits, then a lookup of each
func U_edits() {
	t := open(0)
	t.goodPut()
	a := t.l[0]
	t.put(0, sym.Choose(2), a.start+int(sym.Byte()), -1, 1+int(sym.Byte()))
	t.anyEdit()
	t.anyEdit()
	t.audit(1)
}

// U_two: two tables used in turn.
//
// unit: budget=15
// bounds: two tables with threshold 0, a store in each, then two more stores or edits (2 identifiers, positions 0..255, examined lengths 1..256, edits of 0..255 bytes at 0..255 to 0..255 bytes) in either, then every kind of lookup in both
func U_two() {
	l := []*table{open(0), open(0)}
	l[0].goodPut()
	l[1].goodPut()
	for i := 0; i < 2; i++ {
		t := l[sym.Concrete(sym.Choose(2))]
		if sym.Decide(sym.Bool()) {
			t.goodPut()
		} else {
			t.anyEdit()
		}
	}
	l[0].audit(2)
	l[1].audit(2)
}
