package main

import (
	"fmt"
	"strings"
)

// Linear forms. A bit-vector term of width W whose value is, modulo 2^W, a sum
// of bounded unknowns with small coefficients has an integer reading; where
// intervals show that nothing wraps, comparisons of such terms are decided or
// handed to the solver as integer arithmetic.

const linMax = int64(1) << 50

type linTerm struct {
	e *Expr // variable, or a conditional read as an integer
	c int64
}

type lin struct {
	t      []linTerm
	k      int64
	lo, hi int64
}

func small(x int64) bool { return x > -linMax && x < linMax }

func (l *lin) ok() *lin {
	if !small(l.k) || !small(l.lo) || !small(l.hi) {
		return nil
	}
	for _, t := range l.t {
		if t.c > 1<<20 || t.c < -(1<<20) {
			return nil
		}
	}
	return l
}

func linConst(k int64) *lin { return (&lin{k: k, lo: k, hi: k}).ok() }

// termRange is the range of an opaque term.
func (c *Ctx) termRange(e *Expr) (int64, int64) {
	if e.Op == OVar {
		return 0, int64(maskW(e.W))
	}
	a, b := c.lin(e.B), c.lin(e.C)
	lo, hi := a.lo, a.hi
	if b.lo < lo {
		lo = b.lo
	}
	if b.hi > hi {
		hi = b.hi
	}
	return lo, hi
}

// linAdd is a + s*b.
func (c *Ctx) linAdd(a, b *lin, s int64) *lin {
	r := &lin{k: a.k + s*b.k}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j == len(b.t) || i < len(a.t) && a.t[i].e != b.t[j].e && less(a.t[i].e, b.t[j].e):
			r.t = append(r.t, a.t[i])
			i++
		case i == len(a.t) || a.t[i].e != b.t[j].e:
			r.t = append(r.t, linTerm{b.t[j].e, s * b.t[j].c})
			j++
		default:
			if v := a.t[i].c + s*b.t[j].c; v != 0 {
				r.t = append(r.t, linTerm{a.t[i].e, v})
			}
			i++
			j++
		}
	}
	if len(r.t) > 24 {
		return nil
	}
	r.lo, r.hi = r.k, r.k
	for _, t := range r.t {
		lo, hi := c.termRange(t.e)
		if !small(t.c) {
			return nil
		}
		if t.c < 0 {
			lo, hi = hi, lo
		}
		r.lo += t.c * lo
		r.hi += t.c * hi
		if !small(r.lo) || !small(r.hi) {
			return nil
		}
	}
	return r.ok()
}

func less(a, b *Expr) bool {
	if a.H[0] != b.H[0] {
		return a.H[0] < b.H[0]
	}
	return a.H[1] < b.H[1]
}

func (c *Ctx) linScale(a *lin, s int64) *lin {
	if s > 1<<20 || s < -(1<<20) {
		return nil
	}
	return c.linAdd(linConst(0), a, s)
}

// within shifts l by a multiple of 2^w so that it lies in [lo,hi].
func (l *lin) within(lo, hi int64, w uint8) *lin {
	if l.lo >= lo && l.hi <= hi {
		return l
	}
	if w > 40 {
		return nil
	}
	m := int64(1) << w
	for _, d := range [...]int64{m, -m} {
		if l.lo+d >= lo && l.hi+d <= hi {
			return &lin{t: l.t, k: l.k + d, lo: l.lo + d, hi: l.hi + d}
		}
	}
	return nil
}

func (l *lin) unsigned(w uint8) *lin {
	hi := linMax
	if w < 50 {
		hi = int64(maskW(w))
	}
	return l.within(0, hi, w)
}

func (l *lin) signed(w uint8) *lin {
	lo, hi := -linMax, linMax
	if w < 50 {
		hi = int64(maskW(w) >> 1)
		lo = -hi - 1
	}
	return l.within(lo, hi, w)
}

// lin is the linear form of e, nil if there is none.
func (c *Ctx) lin(e *Expr) *lin {
	if e.lnDone {
		return e.ln
	}
	e.lnDone = true
	e.ln = c.lin1(e)
	return e.ln
}

func (c *Ctx) lin1(e *Expr) *lin {
	switch e.Op {
	case OConst:
		v := signExt(e.V, e.W)
		if e.W < 64 {
			v = int64(e.V)
		}
		return linConst2(v)
	case OVar:
		if e.W == 0 || e.W > 32 {
			return nil
		}
		return &lin{t: []linTerm{{e, 1}}, hi: int64(maskW(e.W))}
	case OZExt:
		if a := c.lin(e.A); a != nil {
			return a.unsigned(e.A.W)
		}
	case OSExt:
		if a := c.lin(e.A); a != nil {
			return a.signed(e.A.W)
		}
	case OTrunc:
		return c.lin(e.A)
	case OAdd, OSub:
		a, b := c.lin(e.A), c.lin(e.B)
		if a != nil && b != nil {
			if e.Op == OSub {
				return c.linAdd(a, b, -1)
			}
			return c.linAdd(a, b, 1)
		}
	case ONeg:
		if a := c.lin(e.A); a != nil {
			return c.linScale(a, -1)
		}
	case OMul:
		a, b := c.lin(e.A), c.lin(e.B)
		if a != nil && b != nil {
			if len(b.t) == 0 {
				return c.linScale(a, b.k)
			}
			if len(a.t) == 0 {
				return c.linScale(b, a.k)
			}
		}
	case OShl:
		if a := c.lin(e.A); a != nil && e.B.Op == OConst && e.B.V < 16 {
			return c.linScale(a, 1<<e.B.V)
		}
	case OIte:
		if e.W == 0 {
			return nil
		}
		a, b := c.lin(e.B), c.lin(e.C)
		if a != nil && b != nil {
			r := &lin{t: []linTerm{{e, 1}}, lo: a.lo, hi: a.hi}
			if b.lo < r.lo {
				r.lo = b.lo
			}
			if b.hi > r.hi {
				r.hi = b.hi
			}
			return r
		}
	}
	return nil
}

func linConst2(v int64) *lin {
	if !small(v) {
		return nil
	}
	return linConst(v)
}

// linCmp gives d such that the comparison means d < 0, d <= 0 or d == 0.
func (c *Ctx) linCmp(op Op, a, b *Expr) *lin {
	la := c.lin(a)
	if la == nil {
		return nil
	}
	lb := c.lin(b)
	if lb == nil {
		return nil
	}
	w := a.W
	switch op {
	case OSlt, OSle:
		la, lb = la.signed(w), lb.signed(w)
	case OUlt, OUle:
		la, lb = la.unsigned(w), lb.unsigned(w)
	case OEq:
		d := c.linAdd(la, lb, -1)
		if d == nil {
			return nil
		}
		if w > 40 {
			return d
		}
		m := int64(1) << w
		// multiples of m in [lo,hi]
		q := d.lo / m * m
		if q < d.lo {
			q += m
		}
		if q > d.hi {
			return &lin{k: 1, lo: 1, hi: 1} // never equal
		}
		if q+m <= d.hi {
			return nil
		}
		return &lin{t: d.t, k: d.k - q, lo: d.lo - q, hi: d.hi - q}
	}
	if la == nil || lb == nil {
		return nil
	}
	return c.linAdd(la, lb, -1)
}

func plain(e *Expr) bool {
	return e.Op == OConst || e.Op == OVar || e.Op == OZExt && e.A.Op == OVar
}

// linFold simplifies a comparison through its linear form; nil if it cannot.
func (c *Ctx) linFold(op Op, a, b *Expr) *Expr {
	if a.W == 0 || plain(a) && plain(b) {
		return nil
	}
	d := c.linCmp(op, a, b)
	if d == nil {
		return nil
	}
	switch op {
	case OSlt, OUlt:
		if d.hi < 0 {
			return c.True
		}
		if d.lo >= 0 {
			return c.False
		}
	case OSle, OUle:
		if d.hi <= 0 {
			return c.True
		}
		if d.lo > 0 {
			return c.False
		}
	case OEq:
		if d.lo > 0 || d.hi < 0 {
			return c.False
		}
		if d.lo == 0 && d.hi == 0 {
			return c.True
		}
	}
	if len(d.t) == 1 && d.t[0].e.Op == OVar && (d.t[0].c == 1 || d.t[0].c == -1) {
		v, k := d.t[0].e, -d.k
		// v < k, or -v < k
		in := func(x int64) bool { return x >= 0 && x <= int64(maskW(v.W)) }
		if op == OEq {
			if d.t[0].c < 0 {
				k = -k
			}
			if !in(k) {
				return c.False
			}
			return c.Eq(v, c.Const(uint64(k), v.W))
		}
		if op == OSle || op == OUle {
			k++
		}
		if d.t[0].c == 1 { // v < k with 0 < k <= max
			if !in(k) {
				return nil
			}
			return c.Ult(v, c.Const(uint64(k), v.W))
		}
		if !in(-k) { // v > -k
			return nil
		}
		return c.Ult(c.Const(uint64(-k), v.W), v)
	}
	if len(d.t) == 2 && d.k == 0 && d.t[0].e.Op == OVar && d.t[1].e.Op == OVar && d.t[0].e.W == d.t[1].e.W && d.t[0].c+d.t[1].c == 0 && (d.t[0].c == 1 || d.t[0].c == -1) {
		x, y := d.t[0].e, d.t[1].e
		if d.t[0].c < 0 {
			x, y = y, x
		}
		switch op {
		case OEq:
			return c.Eq(x, y)
		case OSlt, OUlt:
			return c.Ult(x, y)
		default:
			return c.Ule(x, y)
		}
	}
	return nil
}

// linPrinter writes a conjunction as integer arithmetic.
type linPrinter struct {
	c    *Ctx
	sb   strings.Builder
	num  map[*Expr]int
	name map[*Expr]string
	n    int
}

// printLin returns the conjunction as integer arithmetic if every part of it
// has that reading.
func (c *Ctx) printLin(es, vs []*Expr) (string, bool) {
	arith := false
	c.stamp++
	st := c.stamp
	var walk func(e *Expr) bool
	walk = func(e *Expr) bool {
		if e.pstamp == st {
			return true
		}
		e.pstamp = st
		switch e.Op {
		case OConst, OVar:
			return true
		case OEq, OUlt, OUle, OSlt, OSle:
			if e.A.W > 0 {
				if c.linCmp(e.Op, e.A, e.B) == nil {
					return false
				}
				for _, s := range [...]*Expr{e.A, e.B} {
					if !plain(s) {
						arith = true
					}
				}
				return walk(e.A) && walk(e.B)
			}
		case OIte:
			if e.W > 0 {
				arith = true
			}
		}
		for _, s := range [...]*Expr{e.A, e.B, e.C} {
			if s != nil && !walk(s) {
				return false
			}
		}
		return true
	}
	for _, e := range es {
		if !walk(e) {
			return "", false
		}
	}
	if !arith {
		return "", false
	}
	p := &linPrinter{c: c, num: map[*Expr]int{}, name: map[*Expr]string{}}
	for i, v := range vs {
		p.num[v] = i
	}
	var names []string
	for _, e := range es {
		names = append(names, p.boolean(e))
	}
	for i, v := range vs {
		if v.W > 0 {
			fmt.Fprintf(&p.sb, "(assert (and (<= 0 %s) (<= %s %d)))\n", linVar(i, v.W), linVar(i, v.W), maskW(v.W))
		}
	}
	for _, n := range names {
		fmt.Fprintf(&p.sb, "(assert %s)\n", n)
	}
	return p.sb.String(), true
}

func linVar(i int, w uint8) string {
	if w == 0 {
		return fmt.Sprintf("b%d", i)
	}
	return fmt.Sprintf("i%d_%d", i, w)
}

func linNum(k int64) string {
	if k < 0 {
		return fmt.Sprintf("(- %d)", -k)
	}
	return fmt.Sprint(k)
}

func (p *linPrinter) def(sort, body string) string {
	n := fmt.Sprintf("t%d", p.n)
	p.n++
	fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, sort, body)
	return n
}

func (p *linPrinter) boolean(e *Expr) string {
	if n, ok := p.name[e]; ok {
		return n
	}
	var n string
	switch e.Op {
	case OConst:
		n = constStr(e.V, 0)
	case OVar:
		n = linVar(p.num[e], 0)
	case OEq, OUlt, OUle, OSlt, OSle:
		if e.A.W == 0 {
			n = p.def("Bool", "(= "+p.boolean(e.A)+" "+p.boolean(e.B)+")")
			break
		}
		d := p.c.linCmp(e.Op, e.A, e.B)
		op := "="
		switch e.Op {
		case OUlt, OSlt:
			op = "<"
		case OUle, OSle:
			op = "<="
		}
		// positive terms on the left, negative on the right
		l, r := &lin{}, &lin{k: -d.k}
		for _, t := range d.t {
			if t.c > 0 {
				l.t = append(l.t, t)
			} else {
				r.t = append(r.t, linTerm{t.e, -t.c})
			}
		}
		n = "(" + op + " " + p.sum(l) + " " + p.sum(r) + ")"
	case ONot:
		n = "(not " + p.boolean(e.A) + ")"
	case OAnd:
		n = p.def("Bool", "(and "+p.boolean(e.A)+" "+p.boolean(e.B)+")")
	case OOr:
		n = p.def("Bool", "(or "+p.boolean(e.A)+" "+p.boolean(e.B)+")")
	case OIte:
		n = p.def("Bool", "(ite "+p.boolean(e.A)+" "+p.boolean(e.B)+" "+p.boolean(e.C)+")")
	default:
		panic("printLin: unexpected operator")
	}
	p.name[e] = n
	return n
}

func (p *linPrinter) sum(l *lin) string {
	var parts []string
	for _, t := range l.t {
		n := p.term(t.e)
		if t.c != 1 {
			n = "(* " + linNum(t.c) + " " + n + ")"
		}
		parts = append(parts, n)
	}
	if l.k != 0 || len(parts) == 0 {
		parts = append(parts, linNum(l.k))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func (p *linPrinter) term(e *Expr) string {
	if n, ok := p.name[e]; ok {
		return n
	}
	var n string
	if e.Op == OVar {
		n = linVar(p.num[e], e.W)
	} else {
		n = p.def("Int", "(ite "+p.boolean(e.A)+" "+p.sum(p.c.lin(e.B))+" "+p.sum(p.c.lin(e.C))+")")
	}
	p.name[e] = n
	return n
}
