// Package c13 decides property C13: character sets are exact sets of bytes.
package c13

import (
	"github.com/zyedidia/gpeg/charset"
	"verif/harness/sym"
)

// anySet returns an arbitrary set: all 2^256 of them.
func anySet() charset.Set {
	return charset.Set{Bits: [4]uint64{sym.U64(), sym.U64(), sym.U64(), sym.U64()}}
}

func has(s charset.Set, b byte) bool { return s.Has(b) }

// bit is the definition of membership, independent of Has.
func bit(s charset.Set, b byte) bool {
	w := s.Bits[b/64]
	return (w>>(b%64))&1 == 1
}

// U_algebra: membership in complement, union and difference.
//
// unit: budget=10
// bounds: every pair of 256-bit sets and every byte (no bound)
func U_algebra() {
	a, c := anySet(), anySet()
	b := sym.Byte()
	sym.Assert(has(a, b) == bit(a, b), "Has")
	x := a.Complement()
	sym.Assert(has(x, b) != has(a, b), "Complement")
	x = a.Add(c)
	sym.Assert(has(x, b) == sym.Or(has(a, b), has(c, b)), "Add")
	x = a.Sub(c)
	sym.Assert(has(x, b) == sym.And(has(a, b), !has(c, b)), "Sub")
	sym.ObsB(has(x, b))
}

// U_small: the 128-character test and the compact form.
//
// unit: budget=10
// bounds: every 256-bit set and every byte (no bound)
func U_small() {
	a := anySet()
	b := sym.Byte()
	if a.IsSmall() {
		sym.Reach("small")
		s := a.SmallSet()
		sym.Assert(b < 128 || !has(a, b), "IsSmall but has a byte above 127")
		if b < 128 {
			sym.Assert(s.Has(b) == has(a, b), "SmallSet membership")
		}
		sym.Assert(s.Size() == a.Size(), "SmallSet size")
	} else {
		sym.Reach("big")
		hi := a.Sub(charset.Range(0, 127))
		sym.Assert(hi != charset.Set{}, "not small without a high byte")
	}
	s := a.SmallSet()
	c := b & 127
	sym.Assert(s.Has(c) == has(a, c), "SmallSet keeps the low half")
}

// U_size: Size counts the members.
//
// unit: budget=40
// bounds: every 256-bit set: the words' contributions add up for every four words; for each word, by induction, the empty word has size 0 and adding any absent byte to any word value adds exactly one (all 256 bytes); the small form likewise
func U_size() {
	var w [4]uint64
	for i := range w {
		w[i] = sym.U64()
	}
	c := sym.ConcreteB(sym.Byte())
	if c == 0 {
		sum, small := 0, 0
		for i := range w {
			x := charset.Set{}
			x.Bits[i] = w[i]
			sum += x.Size()
			if i < 2 {
				small += x.SmallSet().Size()
			}
		}
		all := charset.Set{Bits: w}
		sym.Assert(all.Size() == sum, "words add up")
		sym.Assert(all.SmallSet().Size() == small, "words add up (small)")
		sym.Assert(charset.Set{}.Size() == 0, "size of the empty set")
		sym.Assert(charset.Set{}.SmallSet().Size() == 0, "small size of the empty set")
	}
	a := charset.Set{}
	a.Bits[c/64] = w[0]
	sym.Assume(!bit(a, c))
	b := a
	b.Bits[c/64] |= 1 << (c % 64)
	sym.Assert(b.Size() == a.Size()+1, "size after adding a member")
	if c < 128 {
		sym.Assert(b.SmallSet().Size() == a.SmallSet().Size()+1, "small size after adding a member")
	}
}

// U_new: construction from a byte list.
//
// unit: budget=20
// bounds: byte lists of length 0..4 (thorough 6) with every byte value, every probe byte
func U_new() {
	n := sym.Concrete(sym.Range(0, sym.Pick(3, 5)))
	l := sym.Bytes(n)
	s := charset.New(l)
	b := sym.Byte()
	want := false
	for _, x := range l {
		want = sym.Or(want, x == b)
	}
	sym.Assert(has(s, b) == want, "New membership")
	sym.ObsB(has(s, b))
}

// U_range: inclusive ranges.
//
// unit: budget=60
// bounds: every low and high byte (ranges enumerated through the solver), every probe byte
func U_range() {
	// the construction loop runs from low to high: fork over both ends
	lo, hi := sym.ConcreteB(sym.Byte()), sym.ConcreteB(sym.Byte())
	if lo > hi {
		s := charset.Range(lo, hi)
		sym.Assert(s == charset.Set{}, "Range with low > high is empty")
		return
	}
	s := charset.Range(lo, hi)
	b := sym.Byte()
	sym.Assert(has(s, b) == sym.And(b >= lo, b <= hi), "Range membership")
	sym.Assert(s.Size() == int(hi)-int(lo)+1, "Range size")
}

// U_long: construction from long byte lists.
//
// unit: budget=20
// bounds: byte lists of length 7, 8, 9, 31, 64, 65, 129, 255, 256, 257 and 300 (repetitions included) whose bytes run over 0..255 or repeat one byte, with an arbitrary byte at the start, the middle and the end; every probe byte; a set made before is as it was, and so is the list
func U_long() {
	sizes := []int{7, 8, 9, 31, 64, 65, 129, 255, 256, 257, 300}
	n := sizes[sym.Concrete(sym.Choose(len(sizes)))]
	step := byte(sym.Concrete(sym.Choose(2))) * 7
	l := make([]byte, n)
	for i := range l {
		l[i] = 'A' + byte(i)*step
	}
	l[0], l[n/2], l[n-1] = sym.Byte(), sym.Byte(), sym.Byte()
	is := append([]byte{}, l...)
	b := sym.Byte()
	want := false
	for _, x := range l {
		want = sym.Or(want, x == b)
	}
	first := charset.New(l)
	charset.New([]byte{b})
	same := true
	for i := range l {
		same = sym.And(same, l[i] == is[i])
	}
	sym.Assert(same, "New changed the list")
	sym.Assert(has(first, b) == want, "New membership")
}
