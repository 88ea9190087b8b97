// Package c25 decides property C25: saved programs load back unchanged.
package c25

import (
	"encoding/gob"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

func choose(n int) int { return sym.Concrete(sym.Choose(n)) }

// byValue and byPointer are a user's checkers, made known to gob; unknown is not.
type byValue struct{ Max int }

func (c byValue) Check(b []byte, src *input.Input, id, flag int) int {
	if len(b) > c.Max {
		return -1
	}
	return 0
}

type byPointer struct {
	Text string
	Skip []int
}

func (c *byPointer) Check(b []byte, src *input.Input, id, flag int) int {
	if string(b) == c.Text {
		return -1
	}
	for _, n := range c.Skip {
		if n == id+flag {
			return 1
		}
	}
	return 0
}

type unknown struct{ byValue }

func init() {
	gob.Register(byValue{})
	gob.Register(&byPointer{})
}

func text(n int) string { return sym.String(n) }

func plain(n int) string {
	s := sym.String(n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

func set() pattern.Pattern { return pattern.Set(AnySet()) }

// grammar is a program without checkers; msg makes its messages.
func grammar(k int, msg func(int) string) pattern.Pattern {
	lit := func() pattern.Pattern { return pattern.Literal(text(1)) }
	switch k {
	case 0: // several sets, equal ones too
		s := AnySet()
		return pattern.Concat(pattern.Set(s), pattern.Star(set()), pattern.Set(s), pattern.Or(set(), lit()))
	case 1: // messages
		m := msg(1)
		return pattern.Concat(pattern.Or(lit(), pattern.Error(m, lit())), pattern.Or(lit(), pattern.Error(msg(2), nil)), pattern.Error(m, pattern.Any(1)))
	case 2: // captures, memo entries, lookaheads
		return pattern.Concat(pattern.Cap(pattern.Star(pattern.Cap(lit(), 1)), 300), pattern.And(set()), pattern.Memo(pattern.Concat(pattern.Cap(lit(), 2), pattern.Not(lit()))))
	case 3: // rules
		return pattern.Grammar("S", map[string]pattern.Pattern{
			"S": pattern.Or(pattern.Concat(lit(), pattern.NonTerm("T"), lit()), pattern.Error(msg(1), nil)),
			"T": pattern.Cap(pattern.Memo(pattern.Or(pattern.Concat(lit(), pattern.NonTerm("S")), pattern.Star(set()))), 7),
		})
	case 4: // memoized repetitions
		return pattern.Concat(pattern.Star(pattern.Memo(pattern.Or(pattern.Cap(lit(), 3), pattern.Cap(lit(), 4)))), pattern.Any(1))
	case 5: // little or nothing
		return pattern.Or(pattern.Concat(), pattern.Any(2))
	}
	// nothing but an empty set
	return pattern.Optional(pattern.Set(charset.Set{}))
}

// same runs both programs on in.
func same(a, b *vm.Code, in []byte, what string) {
	n, ok := equal(a, b, in, what)
	sym.ObsB(ok)
	sym.Obs(n)
	if ok {
		sym.Reach("match")
	} else {
		sym.Reach("fail")
	}
}

func equal(a, b *vm.Code, in []byte, what string) (int, bool) {
	sym.Assert(a.Size() == b.Size(), what+": size")
	aok, an, ac, aerr := a.Exec(&Reader{B: in}, memo.NoneTable{})
	bok, bn, bc, berr := b.Exec(&Reader{B: in}, memo.NoneTable{})
	sym.Assert(aok == bok, what+": verdict")
	sym.Assert(an == bn, what+": end")
	sym.Assert((ac == nil) == (bc == nil), what+": tree")
	if ac != nil {
		SameTree(bc, TreeOf(ac), what+": tree")
	}
	sym.Assert(len(aerr) == len(berr), what+": number of messages")
	for i := range aerr {
		sym.Assert(aerr[i] == berr[i], what+": message")
	}
	return bn, bok
}

func compile(p pattern.Pattern) vm.Code {
	prog, err := pattern.Compile(p)
	sym.Assert(err == nil, "pattern does not compile")
	return vm.Encode(prog)
}

// U_binary: programs without checkers, binary form.
//
// unit: budget=60
// bounds: 7 grammars with arbitrary bytes, sets and messages of 1..2 bytes; subjects of 0..3 (thorough 0..4) arbitrary bytes; a program is saved, loaded, saved and loaded again; the saved bytes are overwritten after loading
func U_binary() {
	code := compile(grammar(choose(7), text))
	b, err := code.ToBytes()
	sym.Assert(err == nil, "saving fails")
	l1, err := vm.FromBytes(b)
	sym.Assert(err == nil, "loading fails")
	if sym.Decide(sym.Bool()) {
		c, err := l1.ToBytes()
		sym.Assert(err == nil, "saving a loaded program fails")
		l1, err = vm.FromBytes(c)
		sym.Assert(err == nil, "loading it again fails")
		sym.Reach("twice")
	}
	for i := range b {
		b[i] = 0xff
	}
	in := sym.Bytes(choose(sym.Pick(4, 5)))
	same(&code, &l1, in, "loaded program")
}

// other is a program with every kind of content.
func other() vm.Code {
	return compile(pattern.Concat(pattern.Set(charset.Range('0', '9')), pattern.Or(pattern.Error("other", nil), pattern.Literal("x")), pattern.Cap(pattern.Any(3), 9)))
}

// U_several: several programs are saved and loaded.
//
// unit: budget=60
// bounds: one of 7 grammars with arbitrary bytes, sets and messages of 1..2 (in JSON, ASCII) bytes, and another with a set, a message and a capture; both are saved in the same form, one before the other, then loaded in either order; subjects of 0..2 (thorough 0..4) arbitrary bytes
func U_several() {
	json := sym.Decide(sym.Bool())
	msg := text
	if json {
		msg = plain
	}
	codes := [2]vm.Code{compile(grammar(choose(7), msg)), other()}
	save := func(c *vm.Code) []byte {
		f := c.ToBytes
		if json {
			f = c.ToJson
		}
		b, err := f()
		sym.Assert(err == nil, "saving fails")
		return b
	}
	load := func(b []byte) vm.Code {
		f := vm.FromBytes
		if json {
			f = vm.FromJson
		}
		c, err := f(b)
		sym.Assert(err == nil, "loading fails")
		return c
	}
	first, last := choose(2), choose(2)
	var b [2][]byte
	b[first] = save(&codes[first])
	b[1-first] = save(&codes[1-first])
	var l [2]vm.Code
	l[last] = load(b[last])
	l[1-last] = load(b[1-last])
	in := sym.Bytes(choose(sym.Pick(3, 5)))
	for i := range codes {
		same(&codes[i], &l[i], in, "loaded program")
	}
	same(&codes[1], &l[1], []byte("1xabc"), "loaded program")
}

// U_large: large programs.
//
// unit: budget=60
// bounds: 4 programs: a literal of 5000 or 70000 (thorough also 200000) bytes, 255 sets, 300 messages, with one arbitrary byte, set or message in their middle, in both forms; subjects that reach the arbitrary part, with one arbitrary byte there
func U_large() {
	sym.Steps(80_000_000)
	var p pattern.Pattern
	var in []byte
	x := sym.Byte()
	switch k := choose(sym.Pick(4, 5)); k {
	case 0, 1, 4:
		lit := make([]byte, map[int]int{0: 5000, 1: 70000, 4: 200000}[k])
		for i := range lit {
			lit[i] = byte(i * i / 7)
		}
		mid := len(lit) / 2
		lit[mid] = sym.Byte()
		in = append([]byte(nil), lit...)
		in[mid] = x
		p = pattern.Literal(string(lit))
	case 2:
		var alts []pattern.Pattern
		for i := 0; i < 255; i++ {
			s := charset.Set{Bits: [4]uint64{0, 0, 3, 0}}
			s.Bits[i/64] |= 1 << (i % 64)
			if i == 127 {
				s.Bits = [4]uint64{0, sym.U64(), 0, 0}
			}
			alts = append(alts, pattern.Concat(pattern.Any(1), pattern.Cap(pattern.Set(s), i), pattern.Any(2)))
		}
		p = pattern.Or(alts...)
		in = []byte{'a', 64 + x%64, 'b', 'c'}
	case 3:
		m := plain(1)
		var alts []pattern.Pattern
		for i := 0; i < 300; i++ {
			msg := string([]byte{byte(i % 100), byte(i / 100), 'm'})
			if i == 150 {
				msg = m
			}
			alts = append(alts, pattern.Concat(pattern.Literal(string([]byte{byte(i / 128), byte(i % 128)})), pattern.Error(msg, nil)))
		}
		p = pattern.Or(alts...)
		in = []byte{byte(150 / 128), byte(150%128) ^ x&1}
	}
	code := compile(p)
	var l vm.Code
	if sym.Decide(sym.Bool()) {
		b, err := code.ToBytes()
		sym.Assert(err == nil, "saving fails")
		l, err = vm.FromBytes(b)
		sym.Assert(err == nil, "loading fails")
	} else {
		b, err := code.ToJson()
		sym.Assert(err == nil, "saving fails")
		l, err = vm.FromJson(b)
		sym.Assert(err == nil, "loading fails")
	}
	same(&code, &l, in, "loaded program")
}

// U_json: programs without checkers, JSON form.
//
// unit: budget=60
// bounds: 7 grammars with arbitrary bytes and sets, messages of 1..2 ASCII bytes; subjects of 0..3 (thorough 0..4) arbitrary bytes; the saved text without its last 1..3 bytes is refused
func U_json() {
	code := compile(grammar(choose(7), plain))
	b, err := code.ToJson()
	sym.Assert(err == nil, "saving fails")
	l, err := vm.FromJson(b)
	sym.Assert(err == nil, "loading fails")
	cut := choose(4)
	if cut > 0 {
		_, err = vm.FromJson(b[:len(b)-cut])
		sym.Assert(err != nil, "truncated text is accepted")
		sym.Reach("truncated")
		return
	}
	if sym.Decide(sym.Bool()) {
		c, err := l.ToBytes()
		sym.Assert(err == nil, "saving a loaded program fails")
		l, err = vm.FromBytes(c)
		sym.Assert(err == nil, "loading it again fails")
		sym.Reach("both forms")
	}
	for i := range b {
		b[i] = 0xff
	}
	in := sym.Bytes(choose(sym.Pick(4, 5)))
	same(&code, &l, in, "loaded program")
}

func check(p pattern.Pattern, c isa.Checker, id, flag int) pattern.Pattern {
	return pattern.CheckFlags(p, c, id, flag)
}

// withCheckers is a program with several checkers.
func withCheckers(k int, text func(int) string) pattern.Pattern {
	lit := func() pattern.Pattern { return pattern.Literal(text(1)) }
	any := func() pattern.Pattern { return pattern.Any(1) }
	words := isa.NewMapChecker([]string{text(1), text(2)})
	switch k {
	case 0:
		return pattern.Concat(check(any(), words, 1, 2), pattern.Or(check(pattern.Any(2), words, 1, 2), check(any(), isa.NewMapChecker([]string{text(1)}), 0, 0)))
	case 1:
		return pattern.Concat(check(pattern.Star(set()), byValue{choose(3)}, 5, 0), pattern.Or(check(any(), &byPointer{Text: text(1)}, 1, 1), check(any(), words, 0, 0)))
	case 2:
		return pattern.Concat(check(any(), &byPointer{text(1), []int{3, int(sym.Byte())}}, 1, int(sym.Byte())), pattern.Or(lit(), check(any(), byValue{}, 0, 0)))
	case 3: // a reference to what was matched before
		r := isa.NewBackRef()
		return pattern.Concat(check(pattern.Or(pattern.Any(2), any()), r, 1, int(isa.RefDef)), lit(), check(pattern.Concat(), r, 1, int(isa.RefUse)))
	case 4: // two references, one of them nested in a block of the other
		r, s := isa.NewBackRef(), isa.NewBackRef()
		return check(pattern.Concat(check(any(), r, 1, int(isa.RefDef)), check(any(), s, 1, int(isa.RefDef)),
			check(pattern.Concat(), s, 1, int(isa.RefUse)), check(pattern.Concat(), r, 1, int(isa.RefUse))), r, 2, int(isa.RefBlock))
	case 5:
		return check(lit(), isa.NewMapChecker(nil), 0, 0)
	}
	return nil
}

// U_checkers: programs with checkers, binary form.
//
// unit: budget=60
// bounds: 6 programs with checkers of the library (word lists with arbitrary words of 1..2 bytes, back-references used from several places) and of a user (registered with gob, by value and by pointer, with arbitrary fields); subjects of 0..4 (thorough 0..5) arbitrary bytes; saved before or after a run
func U_checkers() {
	code := compile(withCheckers(choose(6), text))
	if sym.Decide(sym.Bool()) {
		code.Exec(&Reader{B: sym.Bytes(2)}, memo.NoneTable{})
		sym.Reach("saved after a run")
	}
	b, err := code.ToBytes()
	sym.Assert(err == nil, "saving fails")
	l, err := vm.FromBytes(b)
	sym.Assert(err == nil, "loading fails")
	in := sym.Bytes(choose(sym.Pick(5, 6)))
	same(&code, &l, in, "loaded program")
}

// U_refused: programs a form has no room for.
//
// unit: budget=30
// bounds: 7 programs with checkers gob was not told of (binary form), or with any checkers (JSON form), are refused when they are saved or when they are loaded
func U_refused() {
	k := choose(7)
	if k == 6 {
		code := compile(check(pattern.Any(1), unknown{}, 0, 0))
		b, err := code.ToBytes()
		if err == nil {
			_, err = vm.FromBytes(b)
		}
		sym.Assert(err != nil, "a program with a checker unknown to gob is loaded")
		sym.Reach("unknown checker")
		return
	}
	code := compile(withCheckers(k, plain))
	b, err := code.ToJson()
	if err == nil {
		_, err = vm.FromJson(b)
	}
	sym.Assert(err != nil, "a program with checkers is loaded from JSON")
	sym.Reach("checkers in JSON")
}

// U_damage: damaged data.
//
// unit: budget=60
// bounds: 3 saved programs (binary form); any one byte changed in any way, or any number of bytes missing at the end, or up to 4 arbitrary bytes added; loading fails or gives the same program
func U_damage() {
	k := choose(3)
	code := compile([]pattern.Pattern{
		pattern.Concat(pattern.Set(charset.Range('a', 'c')), pattern.Literal("b")),
		pattern.Or(pattern.Literal("a"), pattern.Error("bad", nil)),
		pattern.Any(2),
	}[k])
	b, err := code.ToBytes()
	sym.Assert(err == nil, "saving fails")
	in := []byte("ab")
	how := choose(3)
	at := choose(len(b))
	x := sym.Byte()
	if sym.Native() {
		// where a byte of the program stands differs between the builds
		for at := range b {
			for bit := 0; bit < 8; bit++ {
				c := append([]byte(nil), b...)
				c[at] ^= 1 << bit
				damaged(&code, c, in)
			}
			if _, err := vm.FromBytes(b[:at]); err == nil {
				sym.Assert(false, "truncated data is accepted")
			}
		}
	}
	switch how {
	case 0:
		sym.Assume(x != 0)
		c := append([]byte(nil), b...)
		c[at%len(b)] ^= x
		damaged(&code, c, in)
		sym.Reach("changed")
	case 1:
		_, err := vm.FromBytes(b[:at%len(b)])
		sym.Assert(err != nil, "truncated data is accepted")
		sym.Reach("truncated")
	case 2:
		damaged(&code, append(append([]byte(nil), b...), sym.Bytes(choose(4)+1)...), in)
		sym.Reach("added to")
	}
}

func damaged(code *vm.Code, c, in []byte) {
	l, err := vm.FromBytes(c)
	if err != nil {
		return
	}
	equal(code, &l, in, "program loaded from damaged data")
}

// U_junk: data that never was a program.
//
// unit: budget=30
// bounds: 0..9 arbitrary bytes; loading them (binary form) fails
func U_junk() {
	_, err := vm.FromBytes(sym.Bytes(choose(10)))
	sym.Assert(err != nil, "junk is loaded")
	sym.Reach("refused")
}
