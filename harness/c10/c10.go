// Package c10 decides property C10: a stream wrapped for random access serves
// the stream's bytes.
package c10

import (
	"errors"
	"fmt"
	"io"

	"github.com/zyedidia/gpeg/input"
	"verif/harness/sym"
)

var errOther = errors.New("other")

// stream is a forward-only reader that splits its data arbitrarily.
type stream struct {
	b     []byte
	at    int
	zero  int // empty reads left
	err   error
	early bool  // report the end together with the last bytes
	split []int // lengths of the pieces; nil: arbitrary
	reads int
	after bool // has reported its end
	again bool // reports the error once in the middle
	mid   int
}

func (s *stream) Read(p []byte) (int, error) {
	s.reads++
	if len(p) == 0 {
		return 0, nil
	}
	rest := len(s.b) - s.at
	if s.again && s.at >= s.mid {
		s.again = false
		return 0, errOther
	}
	if rest == 0 {
		if s.zero > 0 && sym.Decide(sym.Bool()) {
			s.zero--
			return 0, nil
		}
		return 0, s.err
	}
	m := rest
	if m > len(p) {
		m = len(p)
	}
	n := m
	if s.split == nil {
		low := 1
		if s.zero > 0 {
			low = 0
		}
		n = sym.Concrete(sym.Range(low, m))
		if n == 0 {
			s.zero--
		}
	} else if k := s.split[s.reads%len(s.split)]; k < n {
		n = k
	}
	copy(p, s.b[s.at:s.at+n])
	for i := n; i < len(p) && i < n+4; i++ {
		p[i] = 0xee // scratch space, as io.Reader allows
	}
	s.at += n
	if s.at == len(s.b) && n > 0 && s.early {
		return n, s.err
	}
	return n, nil
}

func open(b []byte, split []int) (*stream, io.ReaderAt) {
	s := &stream{b: b, split: split, err: io.EOF}
	if sym.Decide(sym.Bool()) {
		s.err = errOther
	}
	s.early = sym.Decide(sym.Bool())
	return s, input.FromReader(s)
}

// read compares one read.
func read(s *stream, r io.ReaderAt, off, n int) {
	if sym.Native() {
		sym.Note(fmt.Sprintf("read %d bytes at %d", n, off))
	}
	p := make([]byte, n)
	transient := s.again
	k, err := r.ReadAt(p, int64(off))
	transient = transient && !s.again
	want := len(s.b) - off
	if transient {
		want = s.at - off
	}
	if want < 0 {
		want = 0
	}
	if want > n {
		want = n
	}
	sym.Obs(k)
	sym.Assert(k == want, "number of bytes read")
	for i := 0; i < k; i++ {
		sym.Assert(p[i] == s.b[off+i], "bytes read")
	}
	if k < n {
		sym.Assert(err != nil, "short read without an error")
		if transient {
			sym.Assert(err == errOther, "error of the stream")
		} else {
			sym.Assert(err == s.err, "error of the stream")
		}
		sym.Reach("short")
	} else if n > 0 {
		sym.Assert(err == nil || err == s.err, "error with a complete read")
		sym.Reach("complete")
	}
	if err == nil && k == n && off+n <= len(s.b) && s.split == nil {
		sym.Reach("no error")
	}
}

// U_small: arbitrary reads of a short stream.
//
// unit: budget=60
// bounds: streams of 0..4 (thorough 5) arbitrary bytes in every split into pieces with at most one empty read, end reported with the last bytes or after them as end of file or another error, 2 (thorough 3) reads of 0..5 bytes at offsets 0..5
func U_small() {
	n := sym.Concrete(sym.Range(0, sym.Pick(4, 5)))
	s, r := open(sym.Bytes(n), nil)
	s.zero = sym.Concrete(sym.Choose(2))
	for i := 0; i < sym.Pick(2, 3); i++ {
		read(s, r, sym.Concrete(sym.Choose(6)), sym.Concrete(sym.Choose(6)))
	}
}

// U_error: an error in the middle of the stream that does not last.
//
// unit: budget=20
// bounds: streams of 1..3 arbitrary bytes in every split, one error before the end after which the stream continues, 2 (thorough 3) reads of 0..4 bytes at offsets 0..3
func U_error() {
	n := sym.Concrete(sym.Range(1, 3))
	s, r := open(sym.Bytes(n), nil)
	s.again, s.mid = true, sym.Concrete(sym.Choose(n))
	for i := 0; i < sym.Pick(2, 3); i++ {
		read(s, r, sym.Concrete(sym.Choose(4)), sym.Concrete(sym.Choose(5)))
	}
}

var splits = [][]int{{1 << 20}, {4096, 1}, {1000, 3096, 4095}, {7, 4089}, {4095, 2}}

// U_large: streams longer than the internal buffer.
//
// unit: budget=40
// bounds: streams of 4095..4097 and 8193 bytes, arbitrary around multiples of 4096 and at the ends, in 5 kinds of pieces, 2 reads of 2, 4096, 4097, 8200 (thorough also 0, 1, 4095) bytes at offsets close to 0, 4096 and the end
func U_large() {
	n := []int{4095, 4096, 4097, 8193}[sym.Concrete(sym.Choose(4))]
	b := make([]byte, n)
	for i := range b {
		m := i % 4096
		if i < 2 || i >= n-2 || m < 2 || m > 4093 {
			b[i] = sym.Byte()
		} else {
			b[i] = byte(i*7 + i>>8)
		}
	}
	s, r := open(b, splits[sym.Concrete(sym.Choose(len(splits)))])
	for i := 0; i < 2; i++ {
		off := []int{0, 4094, n - 2}[sym.Concrete(sym.Choose(3))] + sym.Concrete(sym.Choose(sym.Pick(3, 5)))
		read(s, r, off, []int{2, 4097, 8200, 4096, 0, 1, 4095}[sym.Concrete(sym.Choose(sym.Pick(4, 7)))])
	}
}

// U_slice: slices of a random-access reader and of a cursor.
//
// unit: budget=20
// bounds: texts of 0..5 arbitrary bytes behind a wrapped stream or read directly, every range with 0 <= low <= high <= 7, through the reader and through an input cursor
func U_slice() {
	n := sym.Concrete(sym.Range(0, 5))
	s, r := open(sym.Bytes(n), nil)
	low := sym.Concrete(sym.Choose(8))
	high := sym.Concrete(sym.Range(low, 7))
	var got []byte
	if sym.Decide(sym.Bool()) {
		got = input.Slice(r, low, high)
	} else {
		in := input.NewInput(r)
		got = in.Slice(low, high)
		sym.Assert(in.Pos() == 0, "slicing moved the cursor")
	}
	want := []byte{}
	if low < n {
		want = s.b[low:]
		if high < n {
			want = s.b[low:high]
		}
	}
	sym.Obs(len(got))
	sym.Assert(len(got) == len(want), "length of a slice")
	for i := range want {
		sym.Assert(got[i] == want[i], "bytes of a slice")
	}
	if len(want) > 0 {
		got[0]++
		again := input.Slice(r, low, high)
		sym.Assert(again[0] == want[0], "writing to a slice changed the reader")
	}
}

// U_cursor: a cursor over a wrapped stream.
//
// unit: budget=20
// bounds: streams of 0..4 arbitrary bytes in every split, read forward byte by byte by a cursor, then again from the start
func U_cursor() {
	n := sym.Concrete(sym.Range(0, 4))
	s, r := open(sym.Bytes(n), nil)
	in := input.NewInput(r)
	for round := 0; round < 2; round++ {
		in.SeekTo(0)
		for i := 0; i < n; i++ {
			v, ok := in.Peek()
			sym.Assert(ok && v == s.b[i], "byte through a cursor")
			sym.Assert(in.Advance(1), "advance through a cursor")
		}
		_, ok := in.Peek()
		sym.Assert(!ok, "end through a cursor")
	}
}

// U_two: two streams read in turn.
//
// unit: budget=15
// bounds: two streams of 0..3 and of 2 or 4100 bytes (arbitrary at the beginning), one read of each and another of either, of 1 or 4097 bytes at offsets 0, 1 or 4095, and a slice of each that keeps its bytes
func U_two() {
	big := make([]byte, []int{2, 4100}[sym.Concrete(sym.Choose(2))])
	for i := range big {
		big[i] = byte(i)
	}
	big[0], big[1] = sym.Byte(), sym.Byte()
	var ss [2]*stream
	var rs [2]io.ReaderAt
	ss[0], rs[0] = open(sym.Bytes(sym.Concrete(sym.Range(0, 3))), []int{2, 1})
	ss[1], rs[1] = open(big, []int{4096, 3})
	var kept [2][]byte
	for i := 0; i < 3; i++ {
		k := i & 1
		if i == 2 && sym.Decide(sym.Bool()) {
			k = 1
		}
		read(ss[k], rs[k], []int{0, 1, 4095}[sym.Concrete(sym.Choose(3))], []int{1, 4097}[sym.Concrete(sym.Choose(2))])
		if i < 2 {
			kept[k] = input.Slice(rs[k], 0, 2)
		}
	}
	for i, l := range kept {
		n := 2
		if len(ss[i].b) < n {
			n = len(ss[i].b)
		}
		sym.Assert(len(l) == n, "length of a slice taken before other reads")
		for j := range l {
			sym.Assert(l[j] == ss[i].b[j], "slice taken before other reads")
		}
	}
}
