// Package c06 decides property C06: incremental reparse equals parsing the
// edited text from scratch.
package c06

import (
	"fmt"
	"github.com/zyedidia/gpeg/input"
	"regexp/syntax"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

func choose(n int) int { return sym.Concrete(sym.Choose(n)) }

func one(l ...int) int { return l[sym.Concrete(sym.Choose(len(l)))] }

// doc is a text under edit with its table.
type doc struct {
	p    *P
	code vm.Code
	tbl  memo.Table
	text []byte
	at   int // where the text begins
}

func open(p *P, text []byte, threshold int) *doc { return openAt(p, text, 0, threshold) }

func openAt(p *P, text []byte, at, threshold int) *doc {
	Note(p, text)
	d := &doc{p: p, tbl: memo.NewTreeTable(threshold), text: text, at: at}
	patt := p.Build()
	if at > 0 {
		patt = From(&d.at, patt)
	}
	prog, err := pattern.Compile(patt)
	sym.Assert(err == nil, "pattern does not compile")
	d.code = vm.Encode(prog)
	return d
}

// parse compares an incremental parse with the reference.
func (d *doc) parse() {
	ok, n, c, _ := d.code.Exec(&Far{d.at, d.text}, d.tbl)
	wok, wn, caps, _ := Run(d.p, d.text)
	wn, caps = wn+d.at, Moved(caps, d.at)
	sym.ObsB(ok)
	sym.Assert(ok == wok, "verdict of an incremental parse")
	if !wok {
		return
	}
	sym.Obs(n)
	sym.Assert(n == wn, "end of an incremental parse")
	sym.Assert(c.Start() == 0 && c.Len() == n, "root span")
	SameTree(c, caps, "tree of an incremental parse")
	if len(caps) > 0 {
		sym.Reach("captures")
	}
}

// edit replaces text[start:end] by b.
func (d *doc) edit(start, end int, b []byte) {
	if sym.Native() {
		sym.Note(fmt.Sprintf("edit [%d,%d) := %q", start, end, b))
	}
	var t []byte
	t = append(t, d.text[:start]...)
	t = append(t, b...)
	t = append(t, d.text[end:]...)
	d.text = t
	d.tbl.ApplyEdit(memo.Edit{Start: d.at + start, End: d.at + end, Len: len(b)})
	if d.tbl.Size() > 0 {
		sym.Reach("entries survive an edit")
	}
}

// anyEdit replaces up to del bytes anywhere by up to ins arbitrary bytes.
func (d *doc) anyEdit(del, ins int) {
	n := len(d.text)
	start := sym.Concrete(sym.Range(0, n))
	m := n - start
	if m > del {
		m = del
	}
	end := start + sym.Concrete(sym.Range(0, m))
	d.edit(start, end, sym.Bytes(sym.Concrete(sym.Range(0, ins))))
}

func has(p *P, op Op) bool {
	if p.Op == op || p.A != nil && has(p.A, op) {
		return true
	}
	for _, x := range p.L {
		if has(x, op) {
			return true
		}
	}
	return false
}

// U_terms: one edit, memo entries anywhere.
//
// unit: budget=60
// bounds: every pattern term of 2..4 (thorough 5) nodes with a memo entry over leaves {1-byte literal, any} and operators {memo, capture, star, option, not, and, alternation, concatenation}, threshold 0, subjects of 0..2 arbitrary bytes, then one edit replacing 0..2 bytes anywhere by 0..1 arbitrary bytes
func U_terms() {
	g := &Gen{Leaves: []Op{Lit, Any}, Unary: []Op{Memo, Cap, Star, Opt, Not, And}, Binary: []Op{Alt, Seq}}
	p := g.Pattern(sym.Concrete(sym.Range(2, sym.Pick(4, 5))))
	if !has(p, Memo) {
		sym.Assume(false)
	}
	d := open(p, Subject(2), 0)
	d.parse()
	d.anyEdit(2, 1)
	d.parse()
}

// template is a pattern whose entries look beyond or before what they match.
func template(i int) *P {
	a, b := LB(sym.Byte()), LB(sym.Byte())
	any := AnyN(1)
	switch i {
	case 0: // lookahead beyond a match
		return Cat(MemoP(Capt(Cat(a, Un(And, b)), 1)), Un(Opt, Capt(any, 2)))
	case 1:
		return Cat(MemoP(Capt(Cat(any, Un(Not, b)), 1)), Un(Star, any))
	case 2: // an entry inside an entry
		return Un(Star, MemoP(Capt(Cat(MemoP(Capt(Cat(any, Un(Opt, Un(And, b))), 1)), Un(Opt, Capt(b, 3))), 2)))
	case 3: // the inner entry looks ahead, the outer one is only used later
		return Or(Cat(MemoP(Cat(a, Un(Not, b))), L("!")), MemoP(Capt(Cat(MemoP(Cat(a, Un(Not, b))), Un(Opt, any)), 1)))
	case 4: // ordered choice: the first alternative failed far ahead
		return MemoP(Or(Capt(Cat(any, a, b), 1), Capt(any, 2)))
	case 5:
		return Cat(Un(Opt, MemoP(Capt(a, 1))), MemoP(Or(Cat(any, any, b), Capt(Un(Opt, any), 2))))
	case 6: // failing entries
		return Or(Cat(MemoP(Cat(any, any, a)), Capt(E(), 1)), Cat(Un(Not, MemoP(b)), Capt(Un(Star, any), 2)))
	case 7: // end of input
		return Cat(MemoP(Cat(Un(Star, a), Un(Not, any))), Capt(E(), 1))
	case 8:
		return Or(Capt(Cat(MemoP(Capt(Un(Star, a), 1)), Un(Not, any)), 2), MemoP(Capt(Un(Star, any), 3)))
	case 9: // grammar
		return Grammar("S", []string{"S", "A"}, []*P{Cat(NT("A"), Un(Opt, Cat(b, NT("S")))), MemoP(Capt(Or(Cat(a, NT("A")), any), 1))})
	case 10:
		s := MemoP(Cat(any, Un(And, b)))
		s.Share = true
		o := MemoP(Capt(Cat(s, Un(Opt, any)), 1))
		o.Share = true
		return Or(Cat(s, L("!")), Cat(o, L("?")), Cat(o, Capt(Un(Star, any), 2)))
	case 11: // a failing inner entry found again by an outer one
		s := MemoP(Cat(any, b))
		s.Share = true
		o := MemoP(Or(Cat(s, Capt(E(), 1)), Capt(any, 2)))
		o.Share = true
		return Or(Cat(s, L("!")), Cat(o, L("?")), o)
	case 12: // the same inside a repetition
		s := MemoP(Cat(any, Un(Opt, b)))
		s.Share = true
		r := MemoP(Capt(Un(Star, Cat(Un(Not, L(";")), s)), 1))
		r.Share = true
		return Or(Cat(Un(Star, Cat(Un(Not, L(";")), s)), L("!")), Cat(r, L("!")), r)
	}
	return Un(Star, Or(MemoP(Capt(Cat(a, Un(Not, b)), 1)), Capt(any, 2)))
}

const templates = 14

// U_look: one edit against entries that examine more than they match.
//
// unit: budget=60
// bounds: 14 templates (lookahead, failed alternatives, failing entries, nested and shared entries, end of input, recursion), all byte values in their literals, thresholds {0, 2}, subjects of 0..3 (thorough 4) arbitrary bytes, one edit replacing 0..2 bytes anywhere by 0..2 arbitrary bytes
func U_look() {
	d := open(template(sym.Concrete(sym.Choose(templates))), Subject(sym.Pick(3, 4)), one(0, 2))
	d.parse()
	d.anyEdit(2, 2)
	d.parse()
}

// U_history: several edits, with and without a parse in between.
//
// unit: budget=60
// bounds: the 14 templates, literals and subjects over {a, b}, threshold 0, subjects of 3 (thorough 0..4) bytes, 2 (thorough 3) insertions, replacements or removals of one byte anywhere, with or without a parse between edits
func U_history() {
	p := template(sym.Concrete(sym.Choose(templates)))
	ab(p)
	if !sym.Thorough() {
		first(p, LB('a'))
	}
	text := sym.Bytes(sym.Concrete(sym.Range(sym.Pick(3, 0), sym.Pick(3, 4))))
	two(text)
	d := open(p, text, 0)
	d.parse()
	k := sym.Pick(2, 3)
	for i := 0; i < k; i++ {
		if i > 0 && sym.Decide(sym.Bool()) {
			d.parse()
		}
		d.change()
		two(d.text)
	}
	d.parse()
}

// change inserts, replaces or removes one byte anywhere.
func (d *doc) change() {
	n := len(d.text)
	k := sym.Concrete(sym.Choose(3))
	m := n
	if k > 0 {
		m--
	}
	if m < 0 {
		sym.Assume(false)
	}
	s := sym.Concrete(sym.Range(0, m))
	switch k {
	case 0:
		d.edit(s, s, sym.Bytes(1))
	case 1:
		d.edit(s, s+1, sym.Bytes(1))
	default:
		d.edit(s, s+1, nil)
	}
}

// mode is a pattern whose first byte decides which entries are consulted, so
// that an edit of that byte makes new entries rest on old ones.
func mode(i int) *P {
	any := AnyN(1)
	rest := Un(Star, any)
	b := LB('b')
	var s, o *P
	switch i {
	case 0: // an entry with lookahead
		s = MemoP(Cat(any, Un(Not, Cat(AnyN(2), b))))
	case 1:
		s = MemoP(Capt(Cat(any, Un(And, AnyN(3))), 1))
	case 2: // fails after looking further
		s = MemoP(Cat(AnyN(3), b))
	case 3: // longer first alternative
		s = MemoP(Or(Cat(AnyN(3), b), Capt(any, 1)))
	case 4: // a combined repetition
		s = Un(Star, MemoP(Or(Cat(LB('a'), Un(Not, Cat(AnyN(2), b))), Capt(Cat(b, Un(Not, LB('a'))), 1))))
	default:
		s = MemoP(Cat(Un(Star, LB('a')), Un(Opt, Cat(b, b, b))))
	}
	s.Share = true
	switch sym.Concrete(sym.Choose(4)) {
	case 0:
		o = MemoP(Capt(s, 2))
	case 1:
		o = MemoP(Or(Capt(s, 2), Capt(Un(Opt, any), 3)))
	case 2:
		o = MemoP(Cat(Un(Not, s), Capt(Un(Opt, any), 2)))
	default:
		m := MemoP(Un(Opt, s))
		m.Share = true
		o = MemoP(Cat(Un(Opt, Capt(m, 2)), Capt(E(), 3)))
	}
	o.Share = true
	return Or(Cat(LB('a'), any, Un(Opt, s), rest), Cat(AnyN(2), o, Capt(rest, 4)), Cat(AnyN(2), s, rest))
}

// U_mode: new entries that rest on entries of earlier parses.
//
// unit: budget=60
// bounds: 6 inner entries used directly or through 4 kinds of outer entry depending on the first byte, subjects of 6 (thorough 2..7) bytes over {a, b}, first byte flipped by an edit, then an edit replacing 0..1 bytes anywhere by 0..1 bytes, parsing after each
func U_mode() {
	p := mode(sym.Concrete(sym.Choose(6)))
	text := sym.Bytes(sym.Concrete(sym.Range(sym.Pick(6, 2), sym.Pick(6, 7))))
	two(text)
	d := open(p, text, 0)
	d.parse()
	d.edit(0, 1, sym.Bytes(1))
	two(d.text)
	d.parse()
	d.anyEdit(1, 1)
	two(d.text)
	d.parse()
}

// two restricts bytes to an alphabet of two.
func two(b []byte) {
	for _, c := range b {
		sym.Assume(sym.Or(c == 'a', c == 'b'))
	}
}

// first sets the first literal of p.
func first(p, l *P) bool {
	if p.Op == Lit && len(p.S) == 1 && p.S[0] != '!' && p.S[0] != '?' && p.S[0] != ';' {
		sym.Assume(p.S[0] == l.S[0])
		return true
	}
	if p.A != nil && first(p.A, l) {
		return true
	}
	for _, x := range p.L {
		if first(x, l) {
			return true
		}
	}
	return false
}

func ab(p *P) {
	if p.Op == Lit && (p.S[0] != '!' && p.S[0] != '?' && p.S[0] != ';') {
		two(p.S)
	}
	if p.A != nil {
		ab(p.A)
	}
	for _, x := range p.L {
		ab(x)
	}
}

// element is the body of a memoized repetition.
func element(i int) *P {
	switch i {
	case 0:
		return Capt(L("a"), 1)
	case 1:
		return Cat(Capt(L("a"), 1), Un(Opt, Capt(L("b"), 2)))
	case 2:
		return Or(Capt(Cat(L("a"), L("b")), 1), Cat(Capt(L("a"), 2), Capt(Un(Opt, L("c")), 3)))
	case 3:
		return Cat(Capt(L("a"), 1), Un(Not, L("b")))
	}
	return Capt(Cat(Un(Plus, L("a")), L("b")), 1)
}

var runs = []string{"a", "ab", "aba", "a", "ab"}

func lens() int {
	if sym.Thorough() {
		return sym.Concrete(sym.Range(0, 18))
	}
	return one(1, 4, 8)
}

// repeated wraps a memoized repetition.
func repeated(k int, e *P) *P {
	s := Un(Star, MemoP(e))
	switch k {
	case 0:
		return s
	case 1:
		return Cat(s, Un(Opt, Capt(AnyN(1), 8)))
	case 2:
		return Capt(Cat(Un(Opt, L("x")), s), 7)
	case 3:
		return Un(Star, MemoP(Cat(Un(Plus, MemoP(e)), Un(Opt, Capt(L(";"), 4)))))
	case 4:
		return Un(Star, Or(MemoP(Capt(s2(e), 7)), Capt(L("x"), 6)))
	}
	return Cat(Un(Plus, MemoP(e)), Un(Star, AnyN(1)), Capt(E(), 6))
}

func s2(e *P) *P { return Un(Plus, MemoP(e)) }

// U_star: edits in long combined repetitions.
//
// unit: budget=60
// bounds: 5 element bodies in 6 contexts, runs of elements of 1, 4 or 8 (thorough 0..18) bytes, threshold 0 (thorough also 3), one or two edits anywhere, each replacing 0..1 bytes by 0..1 bytes of which the last edit's is arbitrary and the other an x
func U_star() {
	i := sym.Concrete(sym.Choose(5))
	p := repeated(sym.Concrete(sym.Choose(6)), element(i))
	text := make([]byte, lens())
	for j := range text {
		text[j] = runs[i][j%len(runs[i])]
	}
	d := open(p, text, sym.Concrete(sym.Choose(sym.Pick(1, 2)))*3)
	d.parse()
	if sym.Decide(sym.Bool()) {
		n := len(d.text)
		s := sym.Concrete(sym.Range(0, n))
		switch sym.Concrete(sym.Choose(3)) {
		case 0:
			d.edit(s, s, []byte("x"))
		case 1:
			if s == n {
				sym.Assume(false)
			}
			d.edit(s, s+1, nil)
		default:
			if s == n {
				sym.Assume(false)
			}
			d.edit(s, s+1, []byte("x"))
		}
		d.parse()
	}
	d.anyEdit(1, 1)
	d.parse()
	d.parse()
}

// U_zero: zero-width assertions inside entries.
//
// unit: budget=40
// bounds: 5 templates around every single zero-width assertion, subjects of 0..2 (thorough 3) letters, blanks and newlines, one (thorough up to two) edits replacing 0..1 bytes anywhere by 0..1 arbitrary bytes before the second parse
func U_zero() {
	op := &P{Op: EmptyOp, EOp: syntax.EmptyOp(1 << uint(sym.Concrete(sym.Choose(6))))}
	x, any := LB(sym.Byte()), AnyN(1)
	var p *P
	switch sym.Concrete(sym.Choose(5)) {
	case 0:
		p = Un(Star, Or(MemoP(Capt(Cat(op, any), 1)), any))
	case 1:
		p = Un(Star, Or(MemoP(Capt(Cat(any, op), 1)), any))
	case 2:
		p = Cat(Un(Opt, x), MemoP(Or(Capt(Cat(op, x), 1), Capt(Un(Opt, x), 2))))
	case 3:
		p = Un(Star, MemoP(Or(Capt(Cat(op, any), 1), Capt(any, 2))))
	default:
		p = Un(Star, Or(MemoP(Cat(Un(Not, op), Capt(any, 1))), MemoP(Capt(any, 2))))
	}
	text := Subject(sym.Pick(2, 3))
	for _, c := range text {
		sym.Assume(sym.Or(c == 'a', sym.Or(c == ' ', c == '\n')))
	}
	d := open(p, text, 0)
	d.parse()
	d.anyEdit(1, 1)
	if sym.Thorough() && sym.Decide(sym.Bool()) {
		d.anyEdit(1, 1)
	}
	d.parse()
}

// U_ends: growth and truncation at either end.
//
// unit: budget=40
// bounds: the 14 templates, subjects of 0..2 arbitrary bytes, appending or prepending 1..2 arbitrary bytes, then removing 1..3 bytes from either end
func U_ends() {
	d := open(template(sym.Concrete(sym.Choose(templates))), Subject(2), 0)
	d.parse()
	at := 0
	if sym.Decide(sym.Bool()) {
		at = len(d.text)
	}
	d.edit(at, at, sym.Bytes(one(1, 2)))
	d.parse()
	k := sym.Concrete(sym.Range(1, 3))
	if k > len(d.text) {
		sym.Assume(false)
	}
	if sym.Decide(sym.Bool()) {
		d.edit(0, k, nil)
	} else {
		d.edit(len(d.text)-k, len(d.text), nil)
	}
	d.parse()
}

// U_long: edits in long texts.
//
// unit: budget=30
// bounds: the repetitions of U_star (quick: 3 bodies in 4 contexts) over runs of elements of 60 (thorough also 130 and 200) bytes, threshold 0 (thorough also 12), two edits at any of 3 (thorough 6) places each, with or without a parse in between: the replacement of 0..1 bytes by "xa" (quick: 1 byte) or its removal, and the replacement of 0..1 bytes by 0..1 (quick: 1) arbitrary bytes
func U_long() {
	sym.Steps(60_000_000)
	i := one([]int{1, 2, 4, 0, 3}[:sym.Pick(3, 5)]...)
	p := repeated(one([]int{0, 2, 3, 4, 1, 5}[:sym.Pick(4, 6)]...), element(i))
	n := one([]int{60, 130, 200}[:sym.Pick(1, 3)]...)
	text := make([]byte, n)
	for j := range text {
		text[j] = runs[i][j%len(runs[i])]
	}
	d := open(p, text, one([]int{0, 12}[:sym.Pick(1, 2)]...))
	d.parse()
	at := func() int {
		k := len(d.text)
		return one([]int{k / 2, k - 4, 1, k, 0, 33}[:sym.Pick(3, 6)]...)
	}
	s := at()
	e := min(len(d.text), s+one([]int{1, 0}[:sym.Pick(1, 2)]...))
	if e > s && sym.Decide(sym.Bool()) {
		d.edit(s, e, nil)
	} else {
		d.edit(s, e, []byte("xa"))
	}
	if sym.Decide(sym.Bool()) {
		d.parse()
	}
	s = at()
	d.edit(s, min(len(d.text), s+one(0, 1)), sym.Bytes(one([]int{1, 0}[:sym.Pick(1, 2)]...)))
	d.parse()
}

// U_far: edits at and before far positions.
//
// unit: budget=40
// bounds: the repetitions of U_star (quick: 2 bodies in 3 contexts; thorough 3 in 6) matched at positions 65535, 2^31-2, 2^32-1 and 2^40, where 1 or 3 elements follow; 0..1 bytes anywhere there replaced by 0..1 arbitrary ones, or 2^40 (thorough also 1, 2^31) blanks put in before them, or all but 1 or 65536 of them (thorough also 1 of them) taken out, then the other kind of edit (thorough: or the same)
func U_far() {
	i := sym.Concrete(sym.Choose(sym.Pick(2, 3)))
	p := repeated(sym.Concrete(sym.Choose(sym.Pick(3, 6))), element(i))
	var in []byte
	for n := one(1, 3); n > 0; n-- {
		in = append(in, []string{"a", "ab", "a"}[i]...)
	}
	d := openAt(p, in, one(Places...), 0)
	d.parse()
	kind := one(0, 1)
	for n := 0; n < 2; n++ {
		if kind == 0 {
			d.anyEdit(1, 1)
		} else {
			d.move(one([]int{1 << 40, -2, -3, 1, 1 << 31, -1}[:sym.Pick(3, 6)]...))
		}
		d.parse()
		if !sym.Thorough() {
			kind = 1 - kind
		} else {
			kind = one(0, 1)
		}
	}
}

// move puts blanks in before the text, or takes them out: -2 leaves one, -3
// leaves 65536.
func (d *doc) move(n int) {
	if n == -2 {
		n = 1 - d.at
	}
	if n == -3 {
		n = 65536 - d.at
	}
	if d.at+n < 1 {
		n = 0
	}
	if sym.Native() {
		sym.Note(fmt.Sprintf("%d blanks at 0", n))
	}
	if n > 0 {
		d.tbl.ApplyEdit(memo.Edit{Start: 0, End: 0, Len: n})
	} else {
		d.tbl.ApplyEdit(memo.Edit{Start: 0, End: -n, Len: 0})
	}
	d.at += n
}

// A sparse text has blanks between few letters.
type letter struct {
	pos int
	b   byte
}

type sparse struct {
	letters []letter
	n       int
}

func (s *sparse) ReadAt(b []byte, off int64) (int, error) {
	if off < 0 || off >= int64(s.n) {
		return 0, EOF
	}
	k := len(b)
	if int64(s.n)-off < int64(k) {
		k = s.n - int(off)
	}
	for i := 0; i < k; i++ {
		b[i] = ' '
	}
	for _, l := range s.letters {
		if int64(l.pos) >= off && int64(l.pos) < off+int64(k) {
			b[l.pos-int(off)] = l.b
		}
	}
	if k < len(b) {
		return k, EOF
	}
	return k, nil
}

// edit replaces [start,end) by n bytes, the first of which is b.
func (s *sparse) edit(start, end int, n int, b byte) {
	var out []letter
	for _, l := range s.letters {
		if l.pos >= end {
			l.pos += n - (end - start)
		} else if l.pos >= start {
			continue
		}
		out = append(out, l)
	}
	if n > 0 {
		out = append(out, letter{start, b})
	}
	s.letters = out
	s.n += n - (end - start)
}

// U_wide: entries of many bytes.
//
// unit: budget=40
// bounds: 3 elements "a", w blanks, "b" with w of 300, 70000 or 2^33 in 4 contexts (repetition; repetition in an entry; two entries in each element; lookahead before a repetition), two edits at any of 4 (thorough 12) places around the letters and in the blanks, each replacing 0..1 bytes by 0..1 (thorough also w) of which the first is arbitrary; the result is that of a parse without table
func U_wide() {
	w := one(300, 70000, 1<<33)
	skip := CheckerFunc(func(b []byte, src *input.Input, id, flag int) int { return w })
	gap := pattern.Check(pattern.Literal(""), skip)
	var p pattern.Pattern
	a, b := pattern.Cap(pattern.Literal("a"), 1), pattern.Cap(pattern.Literal("b"), 2)
	e := pattern.Cap(pattern.Concat(a, gap, b), 3)
	switch one(0, 1, 2, 3) {
	case 0:
		p = pattern.Star(pattern.Memo(e))
	case 1:
		p = pattern.Cap(pattern.Memo(pattern.Concat(pattern.Star(pattern.Memo(e)), pattern.Optional(a))), 4)
	case 2:
		p = pattern.Star(pattern.Cap(pattern.Concat(pattern.Memo(pattern.Concat(a, gap)), pattern.Memo(b)), 5))
	default:
		p = pattern.Concat(pattern.And(pattern.Memo(pattern.Concat(e, e))), pattern.Star(pattern.Memo(e)))
	}
	prog, err := pattern.Compile(p)
	sym.Assert(err == nil, "pattern does not compile")
	code := vm.Encode(prog)
	tbl := memo.NewTreeTable(one(0, 2))
	s := &sparse{}
	for i := 0; i < 3; i++ {
		s.letters = append(s.letters, letter{s.n, 'a'}, letter{s.n + w + 1, 'b'})
		s.n += w + 2
	}
	parse := func() {
		ok, n, c, _ := code.Exec(s, tbl)
		ok2, n2, c2, _ := code.Exec(s, memo.NoneTable{})
		sym.ObsB(ok)
		sym.Assert(ok == ok2 && (!ok || n == n2), "result of an incremental parse")
		if ok {
			sym.Assert(c.Start() == c2.Start() && c.Len() == c2.Len(), "root span")
			SameTree(c, TreeOf(c2), "tree of an incremental parse")
			if n > 0 {
				sym.Reach("captures")
			}
		}
	}
	parse()
	for i := 0; i < 2; i++ {
		places := []int{w + 2, w + 1, w + 5, 2*w + 3, 0, 1, w, w + 3, 2*w + 4, 2*w + 5, 3*w + 5, 5}
		at := one(places[:sym.Pick(4, len(places))]...)
		n := one([]int{0, 1, w}[:sym.Pick(2, 3)]...)
		end := at + one(0, 1)
		if at >= s.n {
			at, end = s.n, s.n
		}
		b := sym.Byte()
		if sym.Native() {
			sym.Note(fmt.Sprintf("edit [%d,%d) := %d bytes from %q", at, end, n, b))
		}
		s.edit(at, end, n, b)
		tbl.ApplyEdit(memo.Edit{Start: at, End: end, Len: n})
		parse()
	}
	if tbl.Size() > 0 {
		sym.Reach("entries")
	}
}

// U_two: two texts edited in turn.
//
// unit: budget=15
// bounds: two of 4 of the templates (also the same, then one program), each with a text of one arbitrary byte (thorough 1..2) and a table of its own; both parsed, the first edited (0..1 bytes anywhere replaced by 0..1 arbitrary ones), the second parsed, the second edited, both parsed, the first through the second's program if they are the same
func U_two() {
	k := []int{1, 2, 4, 7}
	i := choose(len(k))
	j := i
	if sym.Decide(sym.Bool()) {
		j = choose(len(k))
	}
	text := func() []byte { return sym.Bytes(1 + choose(sym.Pick(1, 2))) }
	d := open(template(k[i]), text(), 0)
	var e *doc
	if i == j {
		c := *d
		e = &c
		e.tbl = memo.NewTreeTable(0)
		e.text = text()
		if sym.Native() {
			sym.Note(fmt.Sprintf("other text %q", e.text))
		}
	} else {
		e = open(template(k[j]), text(), 0)
	}
	d.parse()
	e.parse()
	d.anyEdit(1, 1)
	e.parse()
	e.anyEdit(1, 1)
	d.parse()
	e.parse()
}
