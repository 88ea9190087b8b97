// Package c04 decides property C04: bytecode encoding keeps every operand and
// jump target or refuses.
package c04

import (
	"regexp/syntax"
	"strconv"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

type call struct {
	k, id, flag int
	text        string
}

type checker struct {
	k, ret int
	log    *[]call
}

func (c *checker) Check(b []byte, src *input.Input, id, flag int) int {
	*c.log = append(*c.log, call{c.k, id, flag, string(b)})
	return c.ret
}

// same compares the encoded program's run with the machine's.
func same(p isa.Program, in []byte, log *[]call) {
	m := &machine{prog: p, in: in}
	var want []call
	m.check = func(k isa.Checker, text []byte, id, flag int) int {
		c := k.(*checker)
		want = append(want, call{c.k, id, flag, string(text)})
		return c.ret
	}
	m.run()
	size := 0
	code := vm.Encode(p)
	size = code.Size()
	rec := &recorder{}
	ok, n, c, errs := code.Exec(&Reader{B: in}, rec)
	sym.ObsB(ok)
	sym.Obs(n)
	sym.Obs(size)
	sym.Assert(ok == m.ok, "verdict")
	if ok {
		sym.Reach("match")
		sym.Assert(n == m.end, "end")
		SameTree(c, m.caps, "tree")
	} else {
		sym.Reach("fail")
	}
	sym.Assert(len(errs) == len(m.errs), "number of messages")
	for i, e := range errs {
		sym.Assert(e.Pos == m.errs[i].Pos && e.Message == m.errs[i].Msg, "message")
	}
	sym.Assert(len(rec.gets) == len(m.gets) && len(rec.puts) == len(m.puts), "memo traffic")
	for i := range rec.gets {
		sym.Assert(rec.gets[i] == m.gets[i], "memo lookup")
	}
	for i := range rec.puts {
		sym.Assert(rec.puts[i] == m.puts[i], "memo store")
	}
	if log != nil {
		sym.Assert(len(*log) == len(want), "checker calls")
		for i, x := range *log {
			w := want[i]
			sym.Assert(x.k == w.k, "which checker")
			sym.Assert(x.id == w.id && x.flag == w.flag, "checker identifier and flag")
			sym.Assert(x.text == w.text, "checked text")
		}
	}
}

// pad inserts up to n labels and no-ops at arbitrary places.
func pad(p isa.Program, n int) isa.Program {
	for i := 0; i < n; i++ {
		k := sym.Concrete(sym.Choose(2*(len(p)+1) + 1))
		if k == 0 {
			return p
		}
		k--
		var x isa.Insn = isa.Nop{}
		if k%2 == 1 {
			x = isa.NewLabel()
		}
		q := append(isa.Program{}, p[:k/2]...)
		q = append(q, x)
		p = append(q, p[k/2:]...)
	}
	return p
}

func id16() int {
	v := int(int16(sym.U16()))
	return v
}

var uses = 23

// program is a small program around one instruction with arbitrary operands.
func program(k int, log *[]call) isa.Program {
	L1, L2, L3 := isa.NewLabel(), isa.NewLabel(), isa.NewLabel()
	ch := isa.Char{Byte: sym.Byte()}
	tail := func(p ...isa.Insn) isa.Program { return p }
	switch k {
	case 0:
		return tail(ch, isa.Char{Byte: sym.Byte()})
	case 1:
		return tail(isa.Jump{Lbl: L1}, isa.Fail{}, L2, isa.Jump{Lbl: L3}, L1, ch, isa.Jump{Lbl: L2}, isa.Fail{}, L3)
	case 2:
		return tail(isa.Choice{Lbl: L1}, ch, isa.Commit{Lbl: L2}, L1, isa.Any{N: sym.Byte()}, L2)
	case 3:
		return tail(isa.Call{Lbl: L1}, isa.Call{Lbl: L1}, isa.Jump{Lbl: L2}, L1, ch, isa.Return{}, L2)
	case 4:
		return tail(isa.Set{Chars: AnySet()}, isa.Set{Chars: AnySet()})
	case 5:
		return tail(isa.Choice{Lbl: L2}, L1, ch, isa.PartialCommit{Lbl: L1}, L2)
	case 6:
		return tail(isa.Span{Chars: AnySet()}, ch)
	case 7:
		return tail(isa.Choice{Lbl: L1}, ch, isa.BackCommit{Lbl: L2}, L1, isa.Fail{}, L2, isa.Any{N: 1})
	case 8:
		return tail(isa.Choice{Lbl: L1}, ch, isa.FailTwice{}, L1, isa.Any{N: 1})
	case 9:
		return tail(isa.Any{N: sym.Byte()}, isa.Empty{Op: syntax.EmptyOp(sym.Byte() & 63)})
	case 10:
		return tail(isa.TestChar{Byte: sym.Byte(), Lbl: L1}, ch, isa.Commit{Lbl: L2}, L1, isa.Any{N: 1}, L2)
	case 11:
		return tail(isa.TestCharNoChoice{Byte: sym.Byte(), Lbl: L1}, ch, isa.Jump{Lbl: L2}, L1, isa.Any{N: 1}, L2)
	case 12:
		return tail(isa.TestSet{Chars: AnySet(), Lbl: L1}, ch, isa.Commit{Lbl: L2}, L1, isa.Any{N: 1}, L2)
	case 13:
		return tail(isa.TestSetNoChoice{Chars: AnySet(), Lbl: L1}, ch, isa.Jump{Lbl: L2}, L1, isa.Any{N: 1}, L2)
	case 14:
		return tail(isa.TestAny{N: sym.Byte(), Lbl: L1}, ch, isa.Commit{Lbl: L2}, L1, isa.Any{N: 1}, L2)
	case 15:
		return tail(ch, isa.CaptureBegin{Id: id16()}, isa.Any{N: 1}, isa.CaptureFull{Back: byte(sym.Concrete(sym.Choose(3))), Id: id16()}, isa.CaptureEnd{})
	case 16:
		return tail(isa.Any{N: 2}, isa.CaptureLate{Back: byte(sym.Concrete(sym.Choose(3))), Id: id16()}, ch, isa.CaptureEnd{})
	case 17:
		return tail(isa.MemoOpen{Lbl: L1, Id: id16()}, ch, isa.MemoClose{}, L1, isa.Any{N: 1})
	case 18:
		x := id16()
		return tail(L1, isa.MemoTreeOpen{Id: x, Lbl: L3}, isa.Choice{Lbl: L2}, ch, isa.Commit{Lbl: L3}, isa.Fail{}, L3, isa.MemoTreeInsert{}, isa.MemoTreeClose{Id: x}, isa.Jump{Lbl: L1}, L2, isa.MemoTreeClose{Id: x})
	case 19:
		return tail(isa.CheckBegin{Id: id16(), Flag: id16()}, ch, isa.CheckEnd{Checker: &checker{1, sym.Concrete(sym.Range(-1, 1)), log}}, isa.CheckBegin{Id: id16(), Flag: id16()}, isa.CheckEnd{Checker: &checker{2, 0, log}})
	case 20:
		return tail(isa.Error{Message: "x"}, ch, isa.Error{Message: "y"}, isa.Error{Message: "x"}, isa.Any{N: 1})
	case 21:
		return tail(ch, isa.End{Fail: sym.Decide(sym.Bool())}, isa.Any{N: 1})
	default:
		return tail(isa.Choice{Lbl: L1}, isa.CaptureBegin{Id: id16()}, isa.Call{Lbl: L2}, isa.CaptureEnd{}, isa.Commit{Lbl: L3}, L2, ch, isa.Return{}, L1, isa.Error{Message: "m"}, L3)
	}
}

// U_operands: every instruction with arbitrary operands, labels and no-ops
// anywhere.
//
// unit: budget=60
// bounds: 23 small programs that together hold every instruction kind, every operand value (bytes, sets, counts, int16 identifiers and flags, assertion masks), up to 2 extra labels or no-ops inserted at every position (thorough 3), subjects of 0..2 (thorough 3) arbitrary bytes; the run is compared with a direct interpreter of the instruction list
func U_operands() {
	var log []call
	p := program(sym.Concrete(sym.Choose(uses)), &log)
	in := Subject(sym.Pick(2, 3))
	q := pad(p, sym.Pick(2, 3))
	if len(q) > len(p) {
		c1, c2 := vm.Encode(p), vm.Encode(q)
		sym.Assert(c1.Size() == c2.Size(), "labels or no-ops take space")
	}
	same(q, in, &log)
}

// U_pairs: two of the small programs in sequence.
//
// unit: budget=40
// bounds: every ordered pair of the 23 small programs concatenated, subjects of 0..2 (thorough 3) arbitrary bytes
func U_pairs() {
	var log []call
	a := program(sym.Concrete(sym.Choose(uses)), &log)
	b := program(sym.Concrete(sym.Choose(uses)), &log)
	same(append(append(isa.Program{}, a...), b...), Subject(sym.Pick(2, 3)), &log)
}

// filler is dead code of n bytes (n even).
func filler(n int) isa.Program {
	var p isa.Program
	if n > 64 {
		var x isa.Insn = isa.CaptureFull{}
		for ; n > 8; n -= 4 {
			p = append(p, x)
		}
	}
	for ; n > 0; n -= 2 {
		p = append(p, isa.Fail{})
	}
	return p
}

// far is a program whose jumps of one kind go over n bytes in both directions.
func far(k, n int) isa.Program {
	L1, L2, L3 := isa.NewLabel(), isa.NewLabel(), isa.NewLabel()
	b := sym.Byte()
	var p isa.Program
	f := filler(n)
	add := func(x ...isa.Insn) { p = append(p, x...) }
	switch k {
	case 0:
		add(isa.Jump{Lbl: L1}, L2, isa.Char{Byte: b}, isa.End{})
		p = append(p, f...)
		add(L1, isa.Jump{Lbl: L2})
	case 1:
		add(isa.Choice{Lbl: L1}, isa.Char{Byte: b}, isa.Commit{Lbl: L2})
		p = append(p, f...)
		add(L1, isa.Any{N: 1}, L2, isa.Any{N: 1})
	case 2:
		add(isa.Call{Lbl: L1}, isa.End{})
		p = append(p, f...)
		add(L1, isa.Char{Byte: b}, isa.Return{})
	case 3:
		add(isa.Choice{Lbl: L2}, isa.Jump{Lbl: L3}, L1, isa.Char{Byte: b}, isa.Jump{Lbl: L3})
		p = append(p, f...)
		add(L3, isa.Char{Byte: b}, isa.PartialCommit{Lbl: L1}, L2, isa.Any{N: 0})
	case 4:
		add(isa.Choice{Lbl: L1}, isa.Char{Byte: b}, isa.BackCommit{Lbl: L2})
		p = append(p, f...)
		add(L1, isa.Fail{}, L2, isa.Any{N: 1})
	case 5:
		add(isa.TestChar{Byte: b, Lbl: L1}, isa.Char{Byte: b}, isa.Commit{Lbl: L2})
		p = append(p, f...)
		add(L1, isa.Any{N: 1}, L2)
	case 6:
		add(isa.TestCharNoChoice{Byte: b, Lbl: L1}, isa.Jump{Lbl: L2})
		p = append(p, f...)
		add(L1, isa.Any{N: 2}, L2)
	case 7:
		add(isa.TestSet{Chars: charset.New([]byte{'a', 'b'}), Lbl: L1}, isa.Char{Byte: b}, isa.Commit{Lbl: L2})
		p = append(p, f...)
		add(L1, isa.Any{N: 1}, L2)
	case 8:
		add(isa.TestSetNoChoice{Chars: charset.New([]byte{'a', 'b'}), Lbl: L1}, isa.Jump{Lbl: L2})
		p = append(p, f...)
		add(L1, isa.Any{N: 2}, L2)
	default:
		add(isa.TestAny{N: 2, Lbl: L1}, isa.Char{Byte: b}, isa.Commit{Lbl: L2})
		p = append(p, f...)
		add(L1, isa.Any{N: 1}, L2)
	}
	return p
}

// U_far: jump targets around the byte boundaries of the address.
//
// unit: budget=90 steps=60000000
// bounds: every jumping instruction over dead code of 240..260, 65520..65540 and 131056..131076 bytes in steps of 2 (quick: steps of 6 near 256 and 4 lengths near 65536 and 131072), targets at the end of the program included, subjects of 0..2 arbitrary bytes
func U_far() {
	var n int
	if sym.Thorough() {
		n = []int{240, 65520, 131056}[sym.Concrete(sym.Choose(3))] + 2*sym.Concrete(sym.Choose(11))
	} else {
		n = []int{240, 244, 250, 256, 262, 65522, 65530, 65534, 65540, 131062, 196600}[sym.Concrete(sym.Choose(11))]
	}
	k := sym.Concrete(sym.Choose(10))
	same(far(k, n), Subject(2), nil)
}

// U_ids: identifiers and flags outside of 16 bits are refused.
//
// unit: budget=20
// bounds: every 64-bit identifier and flag in captures (begin, late, full), memo entries (single, tree open, tree close) and checks: encoding panics exactly when the value does not fit in 16 bits, and otherwise the value is used
func U_ids() {
	x := sym.Int()
	fits := sym.And(x >= -32768, x <= 32767)
	L1 := isa.NewLabel()
	var log []call
	var p isa.Program
	switch sym.Concrete(sym.Choose(8)) {
	case 0:
		p = isa.Program{isa.CaptureBegin{Id: x}, isa.Any{N: 1}, isa.CaptureEnd{}}
	case 1:
		p = isa.Program{isa.Any{N: 1}, isa.CaptureLate{Back: 1, Id: x}, isa.Any{N: 1}, isa.CaptureEnd{}}
	case 2:
		p = isa.Program{isa.Any{N: 1}, isa.CaptureFull{Back: 1, Id: x}}
	case 3:
		p = isa.Program{isa.MemoOpen{Lbl: L1, Id: x}, isa.Any{N: 1}, isa.MemoClose{}, L1}
	case 4:
		p = isa.Program{isa.MemoTreeOpen{Lbl: L1, Id: x}, isa.Any{N: 1}, isa.MemoTreeInsert{}, L1}
	case 5:
		p = isa.Program{isa.MemoTreeOpen{Lbl: L1, Id: 3}, L1, isa.MemoTreeClose{Id: x}}
	case 6:
		p = isa.Program{isa.CheckBegin{Id: x, Flag: 2}, isa.CheckEnd{Checker: &checker{1, 0, &log}}}
	default:
		p = isa.Program{isa.CheckBegin{Id: 2, Flag: x}, isa.CheckEnd{Checker: &checker{1, 0, &log}}}
	}
	if !sym.Decide(fits) {
		sym.Reach("refused")
		sym.Assert(sym.Try(func() { vm.Encode(p) }), "an operand that does not fit was encoded")
		return
	}
	same(p, []byte{sym.Byte(), sym.Byte()}, &log)
}

// U_sets: many distinct sets.
//
// unit: budget=20
// bounds: programs with 1..258 distinct sets, then an instruction of each kind with a set operand at index {0, 1, 127, 128, 254, 255}, every subject byte; with more than 256 distinct sets encoding must panic
func U_sets() {
	n := []int{1, 2, 128, 129, 255, 256, 257, 258}[sym.Concrete(sym.Choose(8))]
	set := func(i int) charset.Set {
		return charset.Set{Bits: [4]uint64{uint64(i) << 1, 1 << 33, 0, 0}}
	}
	L1, L2 := isa.NewLabel(), isa.NewLabel()
	p := isa.Program{isa.Jump{Lbl: L1}}
	for i := 0; i < n; i++ {
		p = append(p, isa.Set{Chars: set(i)})
		if i%3 == 0 {
			p = append(p, isa.Span{Chars: set(i / 2)})
		}
	}
	p = append(p, L1)
	j := []int{0, 1, 127, 128, 254, 255}[sym.Concrete(sym.Choose(6))]
	if j >= n {
		sym.Assume(false)
	}
	switch sym.Concrete(sym.Choose(4)) {
	case 0:
		p = append(p, isa.Set{Chars: set(j)})
	case 1:
		p = append(p, isa.Span{Chars: set(j)})
	case 2:
		p = append(p, isa.TestSet{Chars: set(j), Lbl: L2}, isa.Any{N: 1}, isa.Commit{Lbl: L2}, L2)
	default:
		p = append(p, isa.TestSetNoChoice{Chars: set(j), Lbl: L2}, isa.Any{N: 1}, L2)
	}
	if n > 256 {
		sym.Reach("refused")
		sym.Assert(sym.Try(func() { vm.Encode(p) }), "more than 256 sets were encoded")
		return
	}
	same(p, []byte{sym.Byte(), sym.Byte()}, nil)
}

// U_tables: many messages and checkers.
//
// unit: budget=30 steps=60000000
// bounds: programs with 1, 255, 256, 257 or 300 distinct messages, and with as many or 65537 (thorough only) checkers; each is reached and must report its own message, checker, identifier and flag; one arbitrary subject byte
func U_tables() {
	l := []int{1, 2, 255, 256, 257, 300}
	if sym.Thorough() {
		l = append(l, 65537)
	}
	n := l[sym.Concrete(sym.Choose(len(l)))]
	var log []call
	var p isa.Program
	if n < 1000 && sym.Decide(sym.Bool()) {
		for i := 0; i < n; i++ {
			p = append(p, isa.Error{Message: strconv.Itoa(i * 7)})
			if i%5 == 0 {
				p = append(p, isa.Error{Message: strconv.Itoa(i)})
			}
		}
	} else {
		for i := 0; i < n; i++ {
			p = append(p, isa.CheckBegin{Id: i % 1000, Flag: -(i % 77)}, isa.CheckEnd{Checker: &checker{i, 0, &log}})
		}
	}
	p = append(p, isa.Any{N: 1})
	same(p, []byte{sym.Byte()}, &log)
}
