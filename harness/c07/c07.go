// Package c07 decides property C07: interval maps behave as a plain list of
// shifted intervals.
package c07

import (
	"fmt"

	"github.com/zyedidia/gpeg/memo/interval"
	"github.com/zyedidia/gpeg/memo/interval/lazy"
	"github.com/zyedidia/gpeg/memo/interval/lazylog"
	"verif/harness/sym"
)

type imap interface {
	FindLargest(id, pos int) interval.Value
	Add(id, low, high int, val interval.Value) interval.Pos
	RemoveAndShift(low, high, amt int)
}

const (
	live  = iota
	maybe // touched a removed range without sharing a position with it
	dead
)

// ent is an interval of the plain list.
type ent struct {
	id, low, high int
	pos           interval.Pos
	state         int
	stale         bool // added to the same key as an interval that may be gone
}

// pair is a map under test beside the plain list.
type pair struct {
	m imap
	l []*ent

	found, right, longest, handle bool // conditions collected by an audit
}

func fresh(kind int) *pair {
	note("%s", []string{"lazylog.Tree", "lazy.Tree", "lazy.Array"}[kind])
	switch kind {
	case 0:
		return &pair{m: &lazylog.Tree{}}
	case 1:
		return &pair{m: &lazy.Tree{}}
	}
	return &pair{m: &lazy.Array{}}
}

func note(f string, a ...interface{}) {
	if sym.Native() {
		sym.Note(fmt.Sprintf(f, a...))
	}
}

func (p *pair) add(id, low, high int) {
	note("add id %d [%d,%d)", id, low, high)
	e := &ent{id: id, low: low, high: high}
	p.l = append(p.l, e)
	e.pos = p.m.Add(id, low, high, e)
}

func (p *pair) remove(low, high, amt int) {
	note("remove [%d,%d) shift %d", low, high, amt)
	p.m.RemoveAndShift(low, high, amt)
	for _, e := range p.l {
		if e.state == dead {
			continue
		}
		if sym.Decide(sym.And(e.low < high, e.high > low)) {
			e.state = dead
		} else if sym.Decide(sym.Or(e.low == high, e.high == low)) {
			e.state = maybe
		}
		if e.state != dead && sym.Decide(e.low >= low) {
			e.low += amt
			e.high += amt
		}
	}
}

// find compares one lookup.
func (p *pair) find(id, pos int) {
	v := p.m.FindLargest(id, pos)
	if v == nil {
		for _, e := range p.l {
			if e.state == live {
				p.found = sym.And(p.found, sym.Or(e.id != id, e.low != pos))
			}
		}
		return
	}
	r := v.(*ent)
	sym.Assert(r.state != dead, "lookup returned a removed interval")
	p.right = sym.And(p.right, sym.And(r.id == id, r.low == pos))
	for _, e := range p.l {
		if e.state == live {
			p.longest = sym.And(p.longest, sym.Or(sym.Or(e.id != id, e.low != pos), e.high-e.low <= r.high-r.low))
		}
	}
	sym.Reach("found")
}

// handles compares every position handle.
func (p *pair) handles() {
	for _, e := range p.l {
		if e.state == live {
			p.handle = sym.And(p.handle, e.pos.Pos() == e.low)
		}
	}
}

// values compares the listing of all values.
func (p *pair) values() {
	if m, ok := p.m.(interface{ Size() int }); ok {
		most, least := 0, 0
		for _, e := range p.l {
			if e.state != dead {
				most++
			}
			if e.state == live {
				least++
			}
		}
		n := m.Size()
		sym.Assert(n <= most && n >= least, "size is not the number of live intervals")
	}
	m, ok := p.m.(interval.Map)
	if !ok {
		return
	}
	seen := map[*ent]int{}
	for _, v := range m.AllValues() {
		e := v.(*ent)
		sym.Assert(e.state != dead, "listing contains a removed value")
		seen[e]++
		sym.Assert(seen[e] == 1, "listing repeats a value")
	}
	for _, e := range p.l {
		if e.state == live {
			sym.Assert(seen[e] == 1, "listing misses a live value")
		}
	}
	sym.Assert(m.Size() == len(m.AllValues()), "size is not the number of values listed")
}

func (p *pair) begin() { p.found, p.right, p.longest, p.handle = true, true, true, true }

func (p *pair) end() {
	sym.Assert(p.found, "a live interval is not found")
	sym.Assert(p.right, "lookup returned an interval of another key")
	sym.Assert(p.longest, "lookup did not return the longest interval")
	sym.Assert(p.handle, "position handle of a live interval")
}

// audit asks about every interval ever stored and one arbitrary position.
func (p *pair) audit(kinds int) {
	p.begin()
	switch sym.Concrete(sym.Choose(kinds)) {
	case 0:
		p.values()
		p.handles()
		for _, e := range p.l {
			p.find(e.id, e.low)
		}
	case 1:
		p.find(int(sym.Byte()), num())
		p.handles()
	default:
		for _, e := range p.l {
			p.find(e.id, e.low)
		}
		p.handles()
	}
	p.end()
	n := 0
	for _, e := range p.l {
		if e.state == live {
			n++
		}
	}
	sym.Obs(n)
	if n > 1 {
		sym.Reach("several live intervals")
	}
}

// wide makes positions and lengths multiples of a power of two.
var wide uint

func num() int {
	return int(sym.Byte()) << wide
}

func (p *pair) anyAdd(ids int) {
	low := num()
	p.add(sym.Choose(ids), low, low+1+num())
}

func (p *pair) anyRemove() {
	low, n := num(), 1+num()
	amt := num() - n
	p.remove(low, low+n, amt)
}

// U_short: arbitrary histories.
//
// unit: budget=60
// bounds: the three implementations, every history of 1..3 (thorough 5) additions and removals (2 identifiers, positions 0..255, lengths and removed lengths 1..256, shifts from -length to 255-length), queries in between, then every kind of query
func U_short() {
	p := fresh(sym.Concrete(sym.Choose(3)))
	n := sym.Concrete(sym.Range(1, sym.Pick(3, 5)))
	for i := 0; i < n; i++ {
		if i == 0 || sym.Decide(sym.Bool()) {
			p.anyAdd(2)
		} else {
			p.anyRemove()
		}
	}
	p.audit(sym.Pick(2, 3))
}

// U_wide: positions of any size.
//
// unit: budget=30
// bounds: histories as in U_short of 1..2 (thorough 3) additions and removals with positions and lengths that are multiples of 2^12 or 2^31 (thorough also 2^24 and 2^40) up to 255 times that, and identifiers that differ by a multiple of 2^16 or 2^32
func U_wide() {
	wide = uint([]int{31, 12, 24, 40}[sym.Concrete(sym.Choose(sym.Pick(2, 4)))])
	defer func() { wide = 0 }()
	p := fresh(sym.Concrete(sym.Choose(3)))
	n := sym.Concrete(sym.Range(1, sym.Pick(2, 3)))
	for i := 0; i < n; i++ {
		if i == 0 || sym.Decide(sym.Bool()) {
			low := num()
			p.add([]int{3, 3 + 1<<32, 3 + 1<<16}[sym.Concrete(sym.Choose(3))], low, low+1+num())
		} else {
			p.anyRemove()
		}
	}
	p.audit(sym.Pick(2, 3))
}

// order is an insertion order of n positions.
func order(k, n int) []int {
	l := make([]int, n)
	for i := range l {
		switch k {
		case 0: // ascending
			l[i] = i
		case 2: // descending
			l[i] = n - 1 - i
		case 1: // from the middle out
			l[i] = n/2 + (i+1)/2
			if i%2 == 0 {
				l[i] = n/2 - i/2
			}
			l[i] = (l[i] + n) % n
		default: // stride
			l[i] = i * 3 % n
			if n%3 == 0 {
				l[i] = (i*3 + i*3/n) % n
			}
		}
	}
	return l
}

// build makes a tree of n intervals at multiples of 10.
func (p *pair) build(ord, n, shape int) {
	for _, i := range order(ord, n) {
		w := 4
		switch {
		case shape == 1 && i == 0:
			w = 10*n + 5 // reaches over all others
		case shape == 2 && i%2 == 1:
			w = 15
		}
		p.add(0, 10*i, 10*i+w)
		if shape == 3 && i%2 == 0 {
			p.add(0, 10*i, 10*i+2)
			p.add(1, 10*i, 10*i+7)
		}
	}
}

// touch makes at most one query, which settles some of the pending shifts.
func (p *pair) touch() {
	p.begin()
	switch sym.Concrete(sym.Choose(3)) {
	case 0:
	case 1:
		p.values()
		p.handles()
	default:
		e := p.l[sym.Concrete(sym.Choose(len(p.l)))]
		p.find(e.id, e.low)
	}
	p.end()
}

func sizes() int {
	if sym.Thorough() {
		return sym.Concrete(sym.Range(2, 20))
	}
	return 3 + 4*sym.Concrete(sym.Choose(2))
}

// U_deep: larger trees.
//
// unit: budget=60
// bounds: both trees, 3 (thorough 2..9) intervals at distinct positions in 1 (thorough 4) insertion orders and 4 shapes (separate, one covering all, overlapping, several values per position), two removals at arbitrary places with arbitrary shifts, then queries for everything stored (thorough also for any position)
func U_deep() {
	p := fresh(sym.Concrete(sym.Choose(2)))
	n := 3
	if sym.Thorough() {
		n = sym.Concrete(sym.Range(2, 9))
	}
	p.build(sym.Concrete(sym.Choose(sym.Pick(1, 4))), n, sym.Concrete(sym.Choose(4)))
	p.anyRemove()
	p.anyRemove()
	p.audit(sym.Pick(1, 3))
}

// U_remove: one removal in larger trees.
//
// unit: budget=60
// bounds: both trees, 3 or 7 (thorough 2..20) intervals at distinct positions in 2 (thorough 4) insertion orders and 4 shapes, one removal at an arbitrary place with an arbitrary shift, in the thorough tier an optional addition, then every kind of query (quick, 7 intervals: only for what was stored)
func U_remove() {
	p := fresh(sym.Concrete(sym.Choose(2)))
	n := sizes()
	p.build(sym.Concrete(sym.Choose(sym.Pick(2, 4))), n, sym.Concrete(sym.Choose(4)))
	p.anyRemove()
	if sym.Thorough() && sym.Decide(sym.Bool()) {
		p.anyAdd(1)
	}
	k := 3
	if n > 3 {
		k = sym.Pick(1, 3)
	}
	p.audit(k)
}

// U_stale: shifts that reach only part of a tree before the next removal.
//
// unit: budget=60
// bounds: both trees, 3 (thorough 2..5) intervals one of which covers all others, a removal of it with an arbitrary shift, two arbitrary removals with at most one query after the first (thorough also the second), then every kind of query
func U_stale() {
	p := fresh(sym.Concrete(sym.Choose(2)))
	n := 3
	if sym.Thorough() {
		n = sym.Concrete(sym.Range(2, 5))
	}
	p.build(sym.Concrete(sym.Choose(sym.Pick(1, 2))), n, 1)
	p.remove(1, 2, int(sym.Byte()))
	p.touch()
	p.anyRemove()
	if sym.Thorough() {
		p.touch()
	}
	p.anyRemove()
	p.audit(sym.Pick(2, 3))
}

// U_shifts: many shifts between two queries.
//
// unit: budget=60
// bounds: the three implementations, 6 (thorough 7) intervals at distinct positions, then 20, 300 or 2100 (thorough 20, 70, 130, 300, 1100 or 3000) shifts of +-1 in one or in all of the gaps with no query in between, one removal (quick: of one position) at an arbitrary place with an arbitrary shift, then every kind of query (quick: only for what was stored)
func U_shifts() {
	p := fresh(sym.Concrete(sym.Choose(3)))
	n := sym.Pick(6, 7)
	p.build(0, n, 0)
	k := []int{20, 300, 2100}
	if sym.Thorough() {
		k = []int{20, 70, 130, 300, 1100, 3000}
	}
	m := k[sym.Concrete(sym.Choose(len(k)))]
	// every interval but the first is in turn the first to move, or always
	// the second or the last
	spot := []int{0, 1, n - 1}[sym.Concrete(sym.Choose(3))]
	for i := 0; i < m; i++ {
		// by 1 to the right, seldom to the left
		e := p.l[1+i%(n-1)]
		if spot > 0 {
			e = p.l[spot]
		}
		amt := 1
		if i%5 == 4 {
			amt = -1
		}
		p.remove(e.low-3, e.low-2, amt)
	}
	low, w := int(sym.Byte())+256*sym.Choose(2), 1
	if sym.Thorough() {
		w += int(sym.Byte())
	}
	p.remove(low, low+w, int(sym.Byte())-w)
	p.audit(sym.Pick(1, 3))
}

// U_two: two maps in use side by side.
//
// unit: budget=40
// bounds: two maps of each of the three implementations with 3 intervals each, changed in turn: an arbitrary removal in the first, an arbitrary addition (thorough: and removal) in the second, an addition to the first, then every query of both; a listing taken before is as it was
func U_two() {
	kind := sym.Concrete(sym.Choose(3))
	a, b := fresh(kind), fresh(kind)
	for i := 0; i < 3; i++ {
		a.add(0, 10*i, 10*i+5)
		b.add(0, 20*i, 20*i+15)
	}
	var was []interval.Value
	if m, ok := a.m.(interval.Map); ok {
		was = m.AllValues()
	}
	old := append([]interval.Value{}, was...)
	b.anyAdd(1)
	if m, ok := b.m.(interval.Map); ok {
		m.AllValues()
	}
	for i, v := range old {
		sym.Assert(was[i] == v, "a listing changed")
	}
	a.anyRemove()
	if sym.Thorough() {
		b.anyRemove()
	}
	a.add(0, 300, 305)
	a.audit(1)
	b.audit(1)
}
