package ref

import (
	"github.com/zyedidia/gpeg/charset"
	"verif/harness/sym"
)

// Gen enumerates pattern shapes with symbolic leaves.
type Gen struct {
	Leaves []Op // Lit (one symbolic byte), Set, Any, Empty
	Any3   bool // also any of 3
	Word   bool // sets come from WordSet
	Lit2   bool // also two-byte literals
	Throw  bool // also errors without recovery
	Unary  []Op
	Binary []Op
	caps   int
	errs   int
	left   int
}

// AnySet is an arbitrary character set.
func AnySet() charset.Set {
	return charset.Set{Bits: [4]uint64{sym.U64(), sym.U64(), sym.U64(), sym.U64()}}
}

// WordSet is an arbitrary subset of the bytes 64..127 (thorough: or a set with
// an arbitrary part there and every other byte).
func WordSet() charset.Set {
	s := charset.Set{Bits: [4]uint64{0, sym.U64(), 0, 0}}
	if sym.Thorough() && sym.Decide(sym.Bool()) {
		s = charset.Set{Bits: [4]uint64{^uint64(0), s.Bits[1], ^uint64(0), ^uint64(0)}}
	}
	return s
}

func (g *Gen) leaf() *P {
	n := len(g.Leaves)
	if g.Lit2 {
		n++
	}
	if g.Any3 {
		n++
	}
	if g.Throw {
		n++
	}
	i := sym.Concrete(sym.Choose(n))
	if g.Throw && i == n-1 {
		g.errs++
		return Error(string(rune('a'+g.errs)), nil)
	}
	if g.Any3 && i == n-1 {
		return AnyN(3)
	}
	if i == len(g.Leaves) {
		return LB(sym.Byte(), sym.Byte())
	}
	switch g.Leaves[i] {
	case Lit:
		return LB(sym.Byte())
	case Set:
		if g.Word {
			return Cls(WordSet())
		}
		return Cls(AnySet())
	case Any:
		return AnyN(1)
	}
	return E()
}

func (g *Gen) wrap(op Op, a *P) *P {
	switch op {
	case Cap:
		g.caps++
		return Capt(a, g.caps)
	case Memo:
		return MemoP(a)
	case Rep:
		return Repeat(a, 2)
	case Err:
		g.errs++
		return Error(string(rune('a'+g.errs)), a)
	}
	return Un(op, a)
}

// Pattern builds a pattern with exactly n nodes.
func (g *Gen) Pattern(n int) *P {
	if n == 1 {
		return g.leaf()
	}
	nb := len(g.Binary)
	if n < 3 {
		nb = 0
	}
	k := len(g.Unary) + nb
	if k == 0 {
		sym.Assume(false)
	}
	i := sym.Concrete(sym.Choose(k))
	if i < len(g.Unary) {
		op := g.Unary[i]
		a := g.Pattern(n - 1)
		if (op == Star || op == Plus) && a.Nullable() {
			sym.Assume(false)
		}
		return g.wrap(op, a)
	}
	op := g.Binary[i-len(g.Unary)]
	l := 1 + sym.Concrete(sym.Choose(n-2))
	a := g.Pattern(l)
	b := g.Pattern(n - 1 - l)
	return &P{Op: op, L: []*P{a, b}}
}

// Tree enumerates binary trees with n leaves, each inner node and leaf
// optionally wrapped by one unary operator while wraps remain.
func (g *Gen) Tree(leaves, wraps int) *P {
	g.left = wraps
	return g.tree(leaves)
}

func (g *Gen) tree(n int) *P {
	op := -1
	if g.left > 0 && len(g.Unary) > 0 {
		op = sym.Concrete(sym.Choose(len(g.Unary)+1)) - 1
		if op >= 0 {
			g.left--
		}
	}
	var p *P
	if n == 1 {
		p = g.leaf()
	} else {
		b := g.Binary[sym.Concrete(sym.Choose(len(g.Binary)))]
		l := 1 + sym.Concrete(sym.Choose(n-1))
		x := g.tree(l)
		p = &P{Op: b, L: []*P{x, g.tree(n - l)}}
	}
	if op >= 0 {
		u := g.Unary[op]
		if (u == Star || u == Plus) && p.Nullable() {
			sym.Assume(false)
		}
		p = g.wrap(u, p)
	}
	return p
}

// Subject returns an arbitrary subject of up to n bytes.
func Subject(n int) []byte {
	return sym.Bytes(sym.Concrete(sym.Range(0, n)))
}

// Caps is the number of captures generated so far.
func (g *Gen) Caps() int { return g.caps }
