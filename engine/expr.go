package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is an operator of the term language. Terms are bit-vectors (W>0) or
// booleans (W==0).
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OTrunc
)

var opName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand",
	OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl",
	OLShr: "bvlshr", OAShr: "bvashr",
}

type Expr struct {
	Op      Op
	W       uint8 // 0 = bool
	A, B, C *Expr
	V       uint64 // const value, or variable index
	H       [2]uint64
	S       uint64 // structure hash, blind to which variable is which
	cstamp  uint64 // canonical hash memo
	ch      [2]uint64
	vars    []uint64 // bitset of variables
	stamp   uint64   // eval memo
	ev      uint64
	pstamp  uint64 // print memo
	pref    int
	ln      *lin // linear form memo
	lnDone  bool
}

type ekey struct {
	op      Op
	w       uint8
	a, b, c *Expr
	v       uint64
}

// Ctx hash-conses terms; one per worker.
type Ctx struct {
	tab   map[ekey]*Expr
	stamp uint64
	True  *Expr
	False *Expr
}

func newCtx() *Ctx {
	c := &Ctx{tab: make(map[ekey]*Expr, 1<<12)}
	c.True = c.mk(OConst, 0, nil, nil, nil, 1)
	c.False = c.mk(OConst, 0, nil, nil, nil, 0)
	return c
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func (c *Ctx) mk(op Op, w uint8, a, b, d *Expr, v uint64) *Expr {
	k := ekey{op, w, a, b, d, v}
	if e, ok := c.tab[k]; ok {
		return e
	}
	e := &Expr{Op: op, W: w, A: a, B: b, C: d, V: v}
	h0 := mix(mix(0x1234567, uint64(op)<<8|uint64(w)), v)
	h1 := mix(mix(0x89abcdef01, uint64(op)<<8|uint64(w)), v*0x9e3779b97f4a7c15+7)
	for i, s := range [...]*Expr{a, b, d} {
		if s != nil {
			h0 = mix(h0, s.H[0]+uint64(i))
			h1 = mix(h1, s.H[1]*3+uint64(i))
			e.vars = orBits(e.vars, s.vars)
		}
	}
	e.H = [2]uint64{h0, h1}
	e.S = mix(0x777, uint64(op)<<8|uint64(w))
	if op != OVar {
		e.S = mix(e.S, v)
	}
	for i, s := range [...]*Expr{a, b, d} {
		if s != nil {
			e.S = mix(e.S, s.S+uint64(i))
		}
	}
	if op == OVar {
		e.vars = make([]uint64, v/64+1)
		e.vars[v/64] |= 1 << (v % 64)
	}
	c.tab[k] = e
	return e
}

func orBits(a, b []uint64) []uint64 {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	if len(a) < len(b) {
		a, b = b, a
	}
	sub := true
	for i := range b {
		if b[i]&^a[i] != 0 {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	r := make([]uint64, len(a))
	copy(r, a)
	for i := range b {
		r[i] |= b[i]
	}
	return r
}

func interBits(a, b []uint64) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

func eachBit(a []uint64, f func(int)) {
	for i, w := range a {
		for w != 0 {
			f(i*64 + bits.TrailingZeros64(w))
			w &= w - 1
		}
	}
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func signExt(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *Ctx) Const(v uint64, w uint8) *Expr { return c.mk(OConst, w, nil, nil, nil, v&maskW(w)) }
func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(i int, w uint8) *Expr { return c.mk(OVar, w, nil, nil, nil, uint64(i)) }

func (c *Ctx) Not(a *Expr) *Expr {
	switch a.Op {
	case OConst:
		return c.Bool(a.V == 0)
	case ONot:
		return a.A
	case OUlt:
		return c.Ule(a.B, a.A)
	case OUle:
		return c.Ult(a.B, a.A)
	case OSlt:
		return c.Sle(a.B, a.A)
	case OSle:
		return c.Slt(a.B, a.A)
	}
	return c.mk(ONot, 0, a, nil, nil, 0)
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.Op == OConst {
		if a.V == 0 {
			return a
		}
		return b
	}
	if b.Op == OConst {
		if b.V == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.False
	}
	return c.mk(OAnd, 0, a, b, nil, 0)
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.Op == OConst {
		if a.V != 0 {
			return a
		}
		return b
	}
	if b.Op == OConst {
		if b.V != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.True
	}
	return c.mk(OOr, 0, a, b, nil, 0)
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if a.Op == OConst { // both const
		return c.Bool(a.V == b.V)
	}
	if a.W == 0 {
		if b.Op == OConst {
			if b.V != 0 {
				return a
			}
			return c.Not(a)
		}
	}
	if b.Op == OConst {
		switch a.Op {
		case OZExt:
			if b.V > maskW(a.A.W) {
				return c.False
			}
			return c.Eq(a.A, c.Const(b.V, a.A.W))
		case OSExt:
			if uint64(signExt(b.V&maskW(a.A.W), a.A.W))&maskW(a.W) != b.V {
				return c.False
			}
			return c.Eq(a.A, c.Const(b.V, a.A.W))
		case OAdd:
			if a.B.Op == OConst {
				return c.Eq(a.A, c.Const(b.V-a.B.V, a.W))
			}
		case OBXor:
			if a.B.Op == OConst {
				return c.Eq(a.A, c.Const(b.V^a.B.V, a.W))
			}
		case OBNot:
			return c.Eq(a.A, c.Const(^b.V, a.W))
		case OBAnd:
			if r := c.bitTest(a, b); r != nil {
				return r
			}
		case OIte:
			t, f := c.Eq(a.B, b), c.Eq(a.C, b)
			if t.Op == OConst || f.Op == OConst {
				return c.Ite(a.A, t, f)
			}
		}
	} else {
		if a.Op == OZExt && b.Op == OZExt {
			if a.A.W == b.A.W {
				return c.Eq(a.A, b.A)
			}
		}
		ab, ac := c.splitAdd(a)
		bb, bc := c.splitAdd(b)
		if ab == bb {
			return c.Bool(ac == bc)
		}
		if ac != 0 || bc != 0 {
			if ac != 0 && bc != 0 {
				return c.Eq(c.Add(ab, c.Const(ac-bc, a.W)), bb)
			}
		}
		if after(a, b) {
			a, b = b, a
		}
	}
	if r := c.linFold(OEq, a, b); r != nil {
		return r
	}
	return c.mk(OEq, 0, a, b, nil, 0)
}

// after orders operands of commutative operators.
func after(a, b *Expr) bool {
	if a.S != b.S {
		return a.S > b.S
	}
	return a.H[0] > b.H[0]
}

// maxVal is an upper bound of an unsigned value.
func maxVal(e *Expr) uint64 {
	switch e.Op {
	case OConst:
		return e.V
	case OZExt:
		return maxVal(e.A)
	case OBAnd:
		a, b := maxVal(e.A), maxVal(e.B)
		if b < a {
			return b
		}
		return a
	case OIte:
		a, b := maxVal(e.B), maxVal(e.C)
		if b > a {
			return b
		}
		return a
	}
	return maskW(e.W)
}

// bitClear is the condition that bit k of x is zero, for k below x's width.
func (c *Ctx) bitClear(x, k *Expr) *Expr {
	switch x.Op {
	case OConst:
		if x.V == 0 {
			return c.True
		}
		if x.V == maskW(x.W) {
			return c.False
		}
		if k.Op == OConst {
			return c.Bool(x.V>>k.V&1 == 0)
		}
	case OBOr:
		return c.And(c.bitClear(x.A, k), c.bitClear(x.B, k))
	case OBAnd:
		return c.Or(c.bitClear(x.A, k), c.bitClear(x.B, k))
	case OBNot:
		return c.Not(c.bitClear(x.A, k))
	case OIte:
		return c.Ite(x.A, c.bitClear(x.B, k), c.bitClear(x.C, k))
	case OShl:
		if x.A.Op == OConst && x.A.V == 1 {
			eq := c.Eq(x.B, k)
			if maxVal(x.B) >= uint64(x.W) {
				eq = c.And(eq, c.Ult(x.B, c.Const(uint64(x.W), x.B.W)))
			}
			return c.Not(eq)
		}
	}
	return c.mk(OEq, 0, c.mk(OBAnd, x.W, x, c.Bin(OShl, c.Const(1, x.W), k), nil, 0), c.Const(0, x.W), nil, 0)
}

// bitTest recognises x&(1<<k) == 0 and (x>>k)&1 == v.
func (c *Ctx) bitTest(a, b *Expr) *Expr {
	x, m := a.A, a.B
	if x.Op == OShl && x.A.Op == OConst && x.A.V == 1 && !(m.Op == OShl && m.A.Op == OConst) {
		x, m = m, x
	}
	if b.V == 0 && m.Op == OShl && m.A.Op == OConst && m.A.V == 1 && maxVal(m.B) < uint64(m.W) {
		return c.bitClear(x, m.B)
	}
	if m.Op == OConst && m.V == 1 && b.V < 2 && x.Op == OLShr && maxVal(x.B) < uint64(x.W) {
		r := c.bitClear(x.A, x.B)
		if b.V == 1 {
			return c.Not(r)
		}
		return r
	}
	return nil
}

func (c *Ctx) splitAdd(a *Expr) (*Expr, uint64) {
	if a.Op == OAdd && a.B.Op == OConst {
		return a.A, a.B.V
	}
	return a, 0
}

func (c *Ctx) Ult(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(a.V < b.V)
	}
	if b.Op == OConst {
		if b.V == 0 {
			return c.False
		}
		if b.V == 1 {
			return c.Eq(a, c.Const(0, a.W))
		}
		if a.Op == OZExt {
			if b.V > maskW(a.A.W) {
				return c.True
			}
			return c.Ult(a.A, c.Const(b.V, a.A.W))
		}
		if a.Op == OIte {
			t, f := c.Ult(a.B, b), c.Ult(a.C, b)
			if t.Op == OConst || f.Op == OConst {
				return c.Ite(a.A, t, f)
			}
		}
	}
	if a.Op == OConst {
		if a.V == maskW(a.W) {
			return c.False
		}
		if b.Op == OZExt {
			if a.V >= maskW(b.A.W) {
				return c.False
			}
			return c.Ult(c.Const(a.V, b.A.W), b.A)
		}
	}
	if a.Op == OZExt && b.Op == OZExt && a.A.W == b.A.W {
		return c.Ult(a.A, b.A)
	}
	if r := c.linFold(OUlt, a, b); r != nil {
		return r
	}
	return c.mk(OUlt, 0, a, b, nil, 0)
}

func (c *Ctx) Ule(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(a.V <= b.V)
	}
	if b.Op == OConst {
		if b.V == maskW(b.W) {
			return c.True
		}
		return c.Ult(a, c.Const(b.V+1, a.W))
	}
	if a.Op == OConst {
		if a.V == 0 {
			return c.True
		}
		return c.Ult(c.Const(a.V-1, a.W), b)
	}
	if a.Op == OZExt && b.Op == OZExt && a.A.W == b.A.W {
		return c.Ule(a.A, b.A)
	}
	if r := c.linFold(OUle, a, b); r != nil {
		return r
	}
	return c.mk(OUle, 0, a, b, nil, 0)
}

func nonneg(a *Expr) bool {
	switch a.Op {
	case OConst:
		return signExt(a.V, a.W) >= 0
	case OZExt:
		return a.W > a.A.W
	}
	return false
}

func (c *Ctx) Slt(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(signExt(a.V, a.W) < signExt(b.V, b.W))
	}
	if nonneg(a) && nonneg(b) {
		return c.Ult(a, b)
	}
	if nonneg(a) && b.Op == OConst { // b negative
		return c.False
	}
	if nonneg(b) && a.Op == OConst { // a negative
		return c.True
	}
	if b.Op == OConst && a.Op == OIte {
		t, f := c.Slt(a.B, b), c.Slt(a.C, b)
		if t.Op == OConst || f.Op == OConst {
			return c.Ite(a.A, t, f)
		}
	}
	if r := c.linFold(OSlt, a, b); r != nil {
		return r
	}
	return c.mk(OSlt, 0, a, b, nil, 0)
}

func (c *Ctx) Sle(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(signExt(a.V, a.W) <= signExt(b.V, b.W))
	}
	if nonneg(a) && nonneg(b) {
		return c.Ule(a, b)
	}
	if nonneg(a) && b.Op == OConst {
		return c.False
	}
	if nonneg(b) && a.Op == OConst {
		return c.True
	}
	if b.Op == OConst && signExt(b.V, b.W) != signExt(maskW(b.W)>>1, b.W) {
		return c.Slt(a, c.Const(b.V+1, b.W))
	}
	if a.Op == OConst && a.V != (maskW(a.W)>>1)+1 {
		return c.Slt(c.Const(a.V-1, a.W), b)
	}
	if r := c.linFold(OSle, a, b); r != nil {
		return r
	}
	return c.mk(OSle, 0, a, b, nil, 0)
}

func (c *Ctx) Ite(k, a, b *Expr) *Expr {
	if k.Op == OConst {
		if k.V != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if k.Op == ONot {
		return c.Ite(k.A, b, a)
	}
	if a.W == 0 {
		if a.Op == OConst {
			if a.V != 0 {
				return c.Or(k, b)
			}
			return c.And(c.Not(k), b)
		}
		if b.Op == OConst {
			if b.V != 0 {
				return c.Or(c.Not(k), a)
			}
			return c.And(k, a)
		}
	}
	return c.mk(OIte, a.W, k, a, b, 0)
}

func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	w := a.W
	m := maskW(w)
	if a.Op == OConst && b.Op == OConst {
		return c.Const(foldBin(op, a.V, b.V, w), w)
	}
	switch op {
	case OAdd:
		return c.Add(a, b)
	case OSub:
		if b.Op == OConst {
			return c.Add(a, c.Const(-b.V, w))
		}
		if a == b {
			return c.Const(0, w)
		}
		ab, ac := c.splitAdd(a)
		bb, bc := c.splitAdd(b)
		if ab == bb {
			return c.Const(ac-bc, w)
		}
		if ac != 0 || bc != 0 {
			return c.Add(c.mk(OSub, w, ab, bb, nil, 0), c.Const(ac-bc, w))
		}
	case OMul:
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst {
			if b.V == 0 {
				return b
			}
			if b.V == 1 {
				return a
			}
		}
	case OBAnd:
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst {
			if b.V == 0 {
				return b
			}
			if b.V == m {
				return a
			}
			if a.Op == OZExt && b.V&maskW(a.A.W) == maskW(a.A.W) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr, OBXor:
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst && b.V == 0 {
			return a
		}
		if op == OBOr && b.Op == OConst && b.V == m {
			return b
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return c.Const(0, w)
		}
	case OShl, OLShr:
		if b.Op == OConst {
			if b.V == 0 {
				return a
			}
			if b.V >= uint64(w) {
				return c.Const(0, w)
			}
		}
		if a.Op == OConst && a.V == 0 {
			return a
		}
	case OAShr:
		if b.Op == OConst && b.V == 0 {
			return a
		}
	}
	return c.mk(op, w, a, b, nil, 0)
}

func (c *Ctx) Add(a, b *Expr) *Expr {
	w := a.W
	if a.Op == OConst {
		a, b = b, a
	}
	if a.Op == OConst {
		return c.Const(a.V+b.V, w)
	}
	if b.Op == OConst {
		if b.V == 0 {
			return a
		}
		if a.Op == OAdd && a.B.Op == OConst {
			return c.Add(a.A, c.Const(a.B.V+b.V, w))
		}
		return c.mk(OAdd, w, a, b, nil, 0)
	}
	ab, ac := c.splitAdd(a)
	bb, bc := c.splitAdd(b)
	if ac != 0 || bc != 0 {
		return c.Add(c.Add(ab, bb), c.Const(ac+bc, w))
	}
	// x - y + y
	if a.Op == OSub && a.B == b {
		return a.A
	}
	if b.Op == OSub && b.B == a {
		return b.A
	}
	if after(a, b) {
		a, b = b, a
	}
	return c.mk(OAdd, w, a, b, nil, 0)
}

func foldBin(op Op, a, b uint64, w uint8) uint64 {
	m := maskW(w)
	sa, sb := signExt(a, w), signExt(b, w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		if b == 0 {
			if sa < 0 {
				return 1
			}
			return m
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case OSRem:
		if b == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sa>>b) & m
	}
	panic("foldBin")
}

func (c *Ctx) BNot(a *Expr) *Expr {
	if a.Op == OConst {
		return c.Const(^a.V, a.W)
	}
	if a.Op == OBNot {
		return a.A
	}
	return c.mk(OBNot, a.W, a, nil, nil, 0)
}

func (c *Ctx) Neg(a *Expr) *Expr {
	if a.Op == OConst {
		return c.Const(-a.V, a.W)
	}
	return c.mk(ONeg, a.W, a, nil, nil, 0)
}

func (c *Ctx) Resize(a *Expr, w uint8, signed bool) *Expr {
	if a.W == w {
		return a
	}
	if a.Op == OConst {
		if w > a.W && signed {
			return c.Const(uint64(signExt(a.V, a.W)), w)
		}
		return c.Const(a.V, w)
	}
	if w < a.W {
		switch a.Op {
		case OZExt, OSExt:
			if w == a.A.W {
				return a.A
			}
			if w < a.A.W {
				return c.Resize(a.A, w, false)
			}
			return c.Resize(a.A, w, a.Op == OSExt)
		case OIte:
			if a.B.Op == OConst || a.C.Op == OConst {
				return c.Ite(a.A, c.Resize(a.B, w, false), c.Resize(a.C, w, false))
			}
		}
		return c.mk(OTrunc, w, a, nil, nil, 0)
	}
	if a.Op == OZExt {
		return c.mk(OZExt, w, a.A, nil, nil, 0)
	}
	if signed {
		if a.Op == OSExt {
			return c.mk(OSExt, w, a.A, nil, nil, 0)
		}
		return c.mk(OSExt, w, a, nil, nil, 0)
	}
	return c.mk(OZExt, w, a, nil, nil, 0)
}

// Eval evaluates e under a model (values by variable index, default 0).
func (c *Ctx) Eval(e *Expr, m []uint64) uint64 {
	c.stamp++
	return c.eval(e, m)
}

func (c *Ctx) eval(e *Expr, m []uint64) uint64 {
	switch e.Op {
	case OConst:
		return e.V
	case OVar:
		if int(e.V) < len(m) {
			return m[e.V] & maskW(e.W)
		}
		return 0
	}
	if e.stamp == c.stamp {
		return e.ev
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch e.Op {
	case ONot:
		r = 1 - c.eval(e.A, m)
	case OAnd:
		r = c.eval(e.A, m)
		if r != 0 {
			r = c.eval(e.B, m)
		}
	case OOr:
		r = c.eval(e.A, m)
		if r == 0 {
			r = c.eval(e.B, m)
		}
	case OEq:
		r = b2u(c.eval(e.A, m) == c.eval(e.B, m))
	case OUlt:
		r = b2u(c.eval(e.A, m) < c.eval(e.B, m))
	case OUle:
		r = b2u(c.eval(e.A, m) <= c.eval(e.B, m))
	case OSlt:
		r = b2u(signExt(c.eval(e.A, m), e.A.W) < signExt(c.eval(e.B, m), e.B.W))
	case OSle:
		r = b2u(signExt(c.eval(e.A, m), e.A.W) <= signExt(c.eval(e.B, m), e.B.W))
	case OIte:
		if c.eval(e.A, m) != 0 {
			r = c.eval(e.B, m)
		} else {
			r = c.eval(e.C, m)
		}
	case OBNot:
		r = ^c.eval(e.A, m) & maskW(e.W)
	case ONeg:
		r = -c.eval(e.A, m) & maskW(e.W)
	case OZExt:
		r = c.eval(e.A, m)
	case OSExt:
		r = uint64(signExt(c.eval(e.A, m), e.A.W)) & maskW(e.W)
	case OTrunc:
		r = c.eval(e.A, m) & maskW(e.W)
	default:
		r = foldBin(e.Op, c.eval(e.A, m), c.eval(e.B, m), e.W)
	}
	e.stamp = c.stamp
	e.ev = r
	return r
}

func constStr(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func varName(i int, w uint8) string { return fmt.Sprintf("v%d_%d", i, w) }

// Canon computes a key of the conjunction that does not depend on which
// variables it is about, and lists the variables in canonical order.
func (c *Ctx) Canon(es []*Expr, vs []*Expr) ([2]uint64, []*Expr) {
	c.stamp++
	st := c.stamp
	var walk func(e *Expr)
	walk = func(e *Expr) {
		if e.cstamp == st {
			return
		}
		e.cstamp = st
		if e.Op == OConst {
			e.ch = e.H
			return
		}
		if e.Op == OVar {
			n := uint64(len(vs))
			vs = append(vs, e)
			e.ch = [2]uint64{mix(mix(0xabc, n), uint64(e.W)), mix(mix(0xdef, n*3+1), uint64(e.W))}
			return
		}
		h0 := mix(0x4321, uint64(e.Op)<<8|uint64(e.W))
		h1 := mix(0x98765, uint64(e.Op)<<8|uint64(e.W))
		for i, s := range [...]*Expr{e.A, e.B, e.C} {
			if s != nil {
				walk(s)
				h0 = mix(h0, s.ch[0]+uint64(i))
				h1 = mix(h1, s.ch[1]*3+uint64(i))
			}
		}
		e.ch = [2]uint64{h0, h1}
	}
	key := [2]uint64{1, 2}
	for _, e := range es {
		walk(e)
		key[0] = mix(key[0], e.ch[0])
		key[1] = mix(key[1], e.ch[1])
	}
	return key, vs
}

// Print writes the conjunction of the terms as SMT-LIB, sharing common
// sub-terms through let bindings. Variables are named by their place in vs.
func (c *Ctx) Print(sb *strings.Builder, es []*Expr, vs []*Expr) {
	num := make(map[*Expr]int, len(vs))
	for i, v := range vs {
		num[v] = i
	}
	c.stamp++
	st := c.stamp
	refs := map[*Expr]int{}
	var order []*Expr
	var walk func(e *Expr)
	walk = func(e *Expr) {
		refs[e]++
		if e.pstamp == st {
			return
		}
		e.pstamp = st
		e.pref = -1
		for _, s := range [...]*Expr{e.A, e.B, e.C} {
			if s != nil {
				walk(s)
			}
		}
		order = append(order, e)
	}
	for _, e := range es {
		walk(e)
	}
	var pr func(e *Expr)
	pr1 := func(e *Expr) {
		switch e.Op {
		case OConst:
			sb.WriteString(constStr(e.V, e.W))
		case OVar:
			sb.WriteString(varName(num[e], e.W))
		case OZExt:
			fmt.Fprintf(sb, "((_ zero_extend %d) ", e.W-e.A.W)
			pr(e.A)
			sb.WriteByte(')')
		case OSExt:
			fmt.Fprintf(sb, "((_ sign_extend %d) ", e.W-e.A.W)
			pr(e.A)
			sb.WriteByte(')')
		case OTrunc:
			fmt.Fprintf(sb, "((_ extract %d 0) ", e.W-1)
			pr(e.A)
			sb.WriteByte(')')
		default:
			sb.WriteByte('(')
			sb.WriteString(opName[e.Op])
			for _, s := range [...]*Expr{e.A, e.B, e.C} {
				if s != nil {
					sb.WriteByte(' ')
					pr(s)
				}
			}
			sb.WriteByte(')')
		}
	}
	pr = func(e *Expr) {
		if e.pref >= 0 {
			fmt.Fprintf(sb, "l%d", e.pref)
			return
		}
		pr1(e)
	}
	sb.WriteString("(assert ")
	n := 0
	for _, e := range order {
		if refs[e] > 1 && e.Op != OConst && e.Op != OVar {
			fmt.Fprintf(sb, "(let ((l%d ", n)
			pr1(e)
			sb.WriteString(")) ")
			e.pref = n
			n++
		}
	}
	sb.WriteString("(and true")
	for _, e := range es {
		sb.WriteByte(' ')
		pr(e)
	}
	sb.WriteByte(')')
	for i := 0; i < n; i++ {
		sb.WriteByte(')')
	}
	sb.WriteString(")\n")
}
