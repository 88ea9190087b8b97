// Package c16 decides property C16: converted regular expressions find what
// Go's regexp finds.
package c16

import (
	"fmt"
	"regexp"
	"regexp/syntax"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/rxconv"
	"github.com/zyedidia/gpeg/vm"
	"verif/harness/ref"
	"verif/harness/sym"
)

func choose(n int) int { return sym.Concrete(sym.Choose(n)) }

type op int

const (
	chars op = iota // one byte, by test
	cat
	alt
	star
	plus
	quest
	assert
)

// R is a regular expression with its notation.
type R struct {
	op   op
	l    []*R
	lazy bool
	test func(b byte) bool
	at   func(in []byte, i int) bool
	text []byte
}

func byteR(text string, f func(byte) bool) *R { return &R{op: chars, text: []byte(text), test: f} }

// lit is one literal byte that needs no escape.
func lit(c byte) *R {
	return &R{op: chars, text: []byte{c}, test: func(b byte) bool { return b == c }}
}

func dot() *R { return byteR(".", func(b byte) bool { return b != '\n' }) }

func group(r *R) []byte {
	if r.op == chars || r.op == assert {
		return r.text
	}
	return append(append([]byte("(?:"), r.text...), ')')
}

func catR(l ...*R) *R {
	r := &R{op: cat, l: l}
	for _, x := range l {
		if x.op == alt {
			r.text = append(r.text, group(x)...)
		} else {
			r.text = append(r.text, x.text...)
		}
	}
	return r
}

func altR(l ...*R) *R {
	r := &R{op: alt, l: l}
	for i, x := range l {
		if i > 0 {
			r.text = append(r.text, '|')
		}
		r.text = append(r.text, x.text...)
	}
	return r
}

func rep(o op, lazy bool, x *R) *R {
	r := &R{op: o, l: []*R{x}, lazy: lazy, text: append([]byte{}, group(x)...)}
	r.text = append(r.text, "*+?"[o-star])
	if lazy {
		r.text = append(r.text, '?')
	}
	return r
}

// capR is a capturing group.
func capR(x *R) *R {
	return &R{op: cat, l: []*R{x}, text: append(append([]byte("("), x.text...), ')')}
}

func assertR(text string, f func(in []byte, i int) bool) *R {
	return &R{op: assert, text: []byte(text), at: f}
}

// match is backtracking in priority order.
func (r *R) match(in []byte, i int, k func(i int) bool) bool {
	switch r.op {
	case chars:
		return i < len(in) && r.test(in[i]) && k(i+1)
	case assert:
		return r.at(in, i) && k(i)
	case cat:
		return seq(r.l, in, i, k)
	case alt:
		for _, x := range r.l {
			if x.match(in, i, k) {
				return true
			}
		}
		return false
	}
	more := func() bool {
		return r.l[0].match(in, i, func(j int) bool {
			if r.op == quest {
				return k(j)
			}
			s := *r
			s.op = star
			return s.match(in, j, k)
		})
	}
	if r.op == plus {
		return more()
	}
	if r.lazy {
		return k(i) || more()
	}
	return more() || k(i)
}

func seq(l []*R, in []byte, i int, k func(int) bool) bool {
	if len(l) == 0 {
		return k(i)
	}
	return l[0].match(in, i, func(j int) bool { return seq(l[1:], in, j, k) })
}

func (r *R) nullable() bool {
	switch r.op {
	case chars:
		return false
	case cat:
		for _, x := range r.l {
			if !x.nullable() {
				return false
			}
		}
		return true
	case alt:
		for _, x := range r.l {
			if x.nullable() {
				return true
			}
		}
		return false
	case plus:
		return r.l[0].nullable()
	}
	return true
}

// loops: something that can match the empty string is repeated.
func (r *R) loops() bool {
	if (r.op == star || r.op == plus) && r.l[0].nullable() {
		return true
	}
	for _, x := range r.l {
		if x.loops() {
			return true
		}
	}
	return false
}

// check compares one search.
func check(r *R, prefix string, in []byte) {
	if r.loops() {
		sym.Assume(false)
	}
	for i := range in {
		sym.Assume(in[i] < 128)
	}
	s := prefix + string(r.text)
	start, end := -1, -1
	for i := 0; i <= len(in); i++ {
		if r.match(in, i, func(j int) bool { end = j; return true }) {
			start = i
			break
		}
	}
	if sym.Native() {
		sym.Note(fmt.Sprintf("regular expression %q, subject %q", s, in))
		l := regexp.MustCompile(s).FindIndex(in)
		if l == nil {
			l = []int{-1, -1}
		}
		if l[0] != start || l[1] != end {
			panic(fmt.Sprintf("the reference finds %d..%d, package regexp %v", start, end, l))
		}
	}
	p, err := rxconv.FromRegexp(s, syntax.Perl)
	sym.Assert(err == nil && p != nil, "regular expression rejected")
	prog, err := pattern.Compile(p)
	sym.Assert(err == nil, "pattern does not compile")
	code := vm.Encode(prog)
	ok, n, c, _ := code.Exec(&ref.Reader{B: in}, memo.NoneTable{})
	sym.ObsB(ok)
	sym.Assert(ok == (start >= 0), "match or no match")
	if !ok {
		return
	}
	sym.Obs(n)
	sym.Assert(n == end, "end of the match")
	ref.SameTree(c, []*ref.Node{{Id: 0, Start: start, Len: end - start}}, "span of the match")
	if end > start {
		sym.Reach("match")
	}
}

func text(n int) []byte { return sym.Bytes(sym.Concrete(sym.Range(0, n))) }

// gen is an arbitrary expression.
func gen(depth int) *R {
	n := 10
	if depth == 0 {
		n = 3
	}
	switch choose(n) {
	case 0:
		return lit('a')
	case 1:
		return lit('b')
	case 2:
		return dot()
	case 3:
		return catR(gen(depth-1), gen(depth-1))
	case 4:
		return altR(gen(depth-1), gen(depth-1))
	case 5:
		return rep(star, false, gen(depth-1))
	case 6:
		return rep(star, true, gen(depth-1))
	case 7:
		return rep(plus, sym.Decide(sym.Bool()), gen(depth-1))
	case 8:
		return rep(quest, false, gen(depth-1))
	default:
		return rep(quest, true, gen(depth-1))
	}
}

// U_all: all small expressions.
//
// unit: budget=60
// bounds: every expression of depth 2 over a, b and dot with concatenation, alternation and the six greedy and non-greedy operators, subjects of 0..3 (thorough 4) ASCII bytes
func U_all() {
	check(gen(2), "", text(sym.Pick(3, 4)))
}

func atom() *R {
	switch choose(3) {
	case 0:
		return lit('a')
	case 1:
		return lit('b')
	}
	return dot()
}

func quant(x *R) *R {
	k := choose(7)
	if k == 6 {
		return x
	}
	return rep(star+op(k/2), k%2 == 1, x)
}

// U_nested: nested repetitions and what follows them.
//
// unit: budget=60
// bounds: (?:(?:x|y z)q1 u)q2 v with q1, q2 among the six operators or none, x, y, u, v among a, b and dot (z = a) (quick: three of these fixed in turn), subjects of 0..3 (thorough 4) ASCII bytes
func U_nested() {
	x, y, u, v := lit('a'), lit('b'), lit('b'), lit('a')
	if sym.Thorough() {
		x, y, u, v = atom(), atom(), atom(), atom()
	} else {
		switch choose(4) {
		case 0:
			x = atom()
		case 1:
			y = atom()
		case 2:
			u = atom()
		default:
			v = atom()
		}
	}
	in := altR(x, catR(y, lit('a')))
	check(catR(quant(capR(catR(quant(in), u))), v), "", text(sym.Pick(3, 4)))
}

// U_chain: several operators in a row, whose continuations are nested.
//
// unit: budget=60
// bounds: x1q1 x2q2 x3q3 with the operators (or none) and x1, x2, x3 among a and (?:a|ab) and b, the whole optionally repeated or inside an alternative, subjects of 0..3 (thorough 4) ASCII bytes
func U_chain() {
	part := func() *R {
		switch choose(3) {
		case 0:
			return quant(lit('a'))
		case 1:
			return quant(altR(lit('a'), catR(lit('a'), lit('b'))))
		}
		return quant(lit('b'))
	}
	n := sym.Pick(2, 3)
	var l []*R
	for i := 0; i < n; i++ {
		l = append(l, part())
	}
	r := catR(l...)
	switch choose(4) {
	case 0:
		r = catR(rep(plus, false, capR(r)), lit('b'))
	case 1:
		r = altR(catR(r, lit('b')), dot())
	case 2:
		r = rep(star, true, r)
		r = catR(r, lit('b'))
	}
	check(r, "", text(sym.Pick(3, 4)))
}

// in is membership in ranges given by pairs of bounds.
func in(b byte, l string) bool {
	r := false
	for i := 0; i < len(l); i += 2 {
		r = sym.Or(r, sym.And(l[i] <= b, b <= l[i+1]))
	}
	return r
}

func word(b byte) bool { return in(b, "azAZ09__") }

func boundary(in []byte, i int) bool {
	w, v := false, false
	if i > 0 {
		w = word(in[i-1])
	}
	if i < len(in) {
		v = word(in[i])
	}
	return w != v
}

// where is an assertion; multi is the m flag.
func where(multi bool) *R { return assertion(multi, choose(7)) }

func assertion(multi bool, k int) *R {
	switch k {
	case 0:
		return assertR("^", func(in []byte, i int) bool { return i == 0 || multi && in[i-1] == '\n' })
	case 1:
		return assertR("$", func(in []byte, i int) bool { return i == len(in) || multi && in[i] == '\n' })
	case 2:
		return assertR(`\A`, func(in []byte, i int) bool { return i == 0 })
	case 3:
		return assertR(`\z`, func(in []byte, i int) bool { return i == len(in) })
	case 4:
		return assertR(`\b`, boundary)
	case 5:
		return assertR(`\B`, func(in []byte, i int) bool { return !boundary(in, i) })
	}
	return catR()
}

// U_assert: anchors and word boundaries.
//
// unit: budget=60
// bounds: every assertion (or none) before, inside and after (quick: after, only $, \b or none) two characters (a, dot or any byte), in 4 arrangements (plain, alternative, repeated, optional), with and without the m flag, subjects of 0..2 (thorough 3) ASCII bytes
func U_assert() {
	multi := sym.Decide(sym.Bool())
	prefix := ""
	if multi {
		prefix = "(?m)"
	}
	any := func() *R {
		return byteR(`(?s:.)`, func(byte) bool { return true })
	}
	p, q := any(), lit('a')
	if sym.Decide(sym.Bool()) {
		p, q = q, p
	}
	var r *R
	last := assertion(multi, []int{1, 4, 6, 0, 2, 3, 5}[choose(sym.Pick(3, 7))])
	switch choose(4) {
	case 0:
		r = catR(where(multi), p, where(multi), q, last)
	case 1:
		r = altR(catR(p, where(multi)), catR(where(multi), q), last)
	case 2:
		r = catR(rep(star, sym.Decide(sym.Bool()), catR(where(multi), p)), last)
	default:
		r = catR(p, rep(quest, sym.Decide(sym.Bool()), catR(where(multi), q)), last)
	}
	check(r, prefix, text(sym.Pick(2, 3)))
}

// U_class: classes.
//
// unit: budget=60
// bounds: [lo-hi] and [^lo-hi] with a third member, for three lo and hi up to 2 above, and any of 3 third members; the Perl classes and four POSIX classes, complemented or not; the s flag; alone, repeated and followed by a character, subjects of 0..2 ASCII bytes
func U_class() {
	not := sym.Decide(sym.Bool())
	var x *R
	digit := func(b byte) bool { return in(b, "09") }
	space := func(b byte) bool { return in(b, "  \t\n\f\r") }
	named := func(yes, no string, f func(byte) bool) *R {
		if not {
			return byteR(no, func(b byte) bool { return !f(b) })
		}
		return byteR(yes, f)
	}
	switch choose(9) {
	case 0:
		lo := "Aam"[choose(3)]
		hi := lo + byte(choose(3))
		c := "bz5"[choose(3)]
		t := []byte{'['}
		if not {
			t = append(t, '^')
		}
		t = append(t, lo, '-', hi, c, ']')
		x = &R{op: chars, text: t, test: func(b byte) bool {
			return sym.Or(sym.And(lo <= b, b <= hi), b == c) != not
		}}
	case 1:
		x = named(`\d`, `\D`, digit)
	case 2:
		x = named(`\w`, `\W`, word)
	case 3:
		x = named(`\s`, `\S`, space)
	case 4:
		x = named("[[:punct:]]", "[[:^punct:]]", func(b byte) bool {
			return in(b, "!/:@[`{~")
		})
	case 5:
		x = named("[[:xdigit:]x]", "[^[:xdigit:]x]", func(b byte) bool {
			return in(b, "09afAFxx")
		})
	case 6:
		x = named("[[:cntrl:]]", "[[:^cntrl:]]", func(b byte) bool { return sym.Or(b < 32, b == 127) })
	case 7:
		x = named("[\\x{e9}-\\x{4e00}a]", "[^\\x{e9}-\\x{4e00}a]", func(b byte) bool { return b == 'a' })
	default:
		x = named("(?s:.)", "(?-s:.)", func(b byte) bool { return !not || b != '\n' })
		x.test = func(b byte) bool { return !not || b != '\n' }
	}
	switch choose(3) {
	case 1:
		x = rep(plus, false, x)
	case 2:
		x = catR(rep(star, true, x), lit('z'))
	}
	check(x, "", text(2))
}

// U_fold: letters in either case.
//
// unit: budget=60
// bounds: (?i) before any one or two ASCII letters or digits, or a class of any one range of 2 letters, plain or complemented, repeated or not, subjects of 0..2 ASCII bytes
func U_fold() {
	lower := func(b byte) byte { return byte(sym.Ite(sym.And(b >= 'A', b <= 'Z'), int(b)+32, int(b))) }
	letter := func() byte {
		b := sym.Byte()
		sym.Assume(sym.Or(sym.And(b >= 'a', b <= 'z'), sym.Or(sym.And(b >= 'A', b <= 'Z'), sym.And(b >= '0', b <= '9'))))
		return b
	}
	c := sym.ConcreteB(letter())
	var r *R
	same := func(c byte) *R {
		return &R{op: chars, text: []byte{c}, test: func(b byte) bool { return lower(b) == lower(c) }}
	}
	switch choose(4) {
	case 0:
		r = same(c)
	case 1:
		r = catR(same(c), same("kS3"[choose(3)]))
	case 2:
		r = catR(rep(star, sym.Decide(sym.Bool()), same(c)), same('K'))
	default:
		not := sym.Decide(sym.Bool())
		if word(c+1) == false || c == '9' {
			sym.Assume(false)
		}
		t := "["
		if not {
			t = "[^"
		}
		r = byteR(t+string([]byte{c, '-', c + 1})+"]", func(b byte) bool {
			return sym.Or(lower(b) == lower(c), lower(b) == lower(c+1)) != not
		})
	}
	check(r, "(?i)", text(2))
}

// U_literal: literal characters and escapes.
//
// unit: budget=60
// bounds: any ASCII byte as \x.. escape, quoted by \Q..\E or (if it is no letter or digit) by a backslash, after an a and before a b, subjects of 0..3 ASCII bytes
func U_literal() {
	c := sym.ConcreteB(sym.Byte())
	if c >= 128 {
		sym.Assume(false)
	}
	x := lit(c)
	hex := "0123456789abcdef"
	switch choose(3) {
	case 0:
		x.text = []byte{'\\', 'x', hex[c>>4], hex[c&15]}
	case 1:
		x.text = []byte{'\\', 'Q', c, '\\', 'E'}
		if c == '\\' {
			sym.Assume(false)
		}
	default:
		if word(c) || c < 32 || c == ' ' || c == 127 {
			sym.Assume(false)
		}
		if !in(c, "!/:@[`{~") {
			sym.Assume(false)
		}
		x.text = []byte{'\\', c}
	}
	check(catR(lit('a'), x, lit('b')), "", text(3))
}

// U_flags: flags inside the expression.
//
// unit: budget=40
// bounds: 8 expressions with the flags i, m, s, U set and cleared in groups, subjects of 0..3 ASCII bytes
func U_flags() {
	lower := func(c byte) *R {
		return byteR(string([]byte{c}), func(b byte) bool { return b|32 == c && b >= 'A' })
	}
	set := func(text string, r *R) *R { r.text = []byte(text); return r }
	var r *R
	switch choose(8) {
	case 0:
		r = set("a(?i:b)a", catR(lit('a'), lower('b'), lit('a')))
	case 1:
		r = set("(?U)a*b?", catR(rep(star, true, lit('a')), rep(quest, true, lit('b'))))
	case 2:
		r = set("(?U:a*?)b", catR(rep(star, false, lit('a')), lit('b')))
	case 3:
		r = set("(?U)(?:a+|b)(?-U:a*)", catR(altR(rep(plus, true, lit('a')), lit('b')), rep(star, false, lit('a'))))
	case 4:
		r = set("(?s).(?-s:.)", catR(byteR("", func(byte) bool { return true }), dot()))
	case 5:
		r = set("(?i)a(?-i)b", catR(lower('a'), lit('b')))
	case 6:
		r = set("(?P<n>a|ab)(?:)b??", catR(altR(lit('a'), catR(lit('a'), lit('b'))), rep(quest, true, lit('b'))))
	default:
		r = set("(?m:^)a(?m:$)|b$", altR(
			catR(assertR("", func(in []byte, i int) bool { return i == 0 || in[i-1] == '\n' }), lit('a'),
				assertR("", func(in []byte, i int) bool { return i == len(in) || in[i] == '\n' })),
			catR(lit('b'), assertR("", func(in []byte, i int) bool { return i == len(in) }))))
	}
	check(r, "", text(3))
}

// U_reject: what is not supported is an error.
//
// unit: budget=20
// bounds: 20 unsupported or malformed expressions: counted repetition anywhere, repetition of what can match nothing, syntax errors
func U_reject() {
	l := []string{"a{2}", "a{1,}", "(a{2,3}b)*", "a|b{2}", "(?:a*)+?b", "(a*)*", "(a?)*", "(|a)+", "(^)*", "(\\b)+", "(a*b*)*", "((a|)b?)*",
		"(", "[", "a**", "*a", "\\", "(?z)", "[b-a]", "a)"}
	s := l[choose(len(l))]
	if s == "(?:a*)+?b" {
		s = "(a*)+?b"
	}
	p, err := rxconv.FromRegexp(s, syntax.Perl)
	sym.ObsB(err == nil)
	sym.Assert(err != nil && p == nil, "unsupported regular expression accepted: "+s)
}

// U_large: long expressions and subjects.
//
// unit: budget=20
// bounds: sequences of 30 or 90 (thorough also 250) characters, alternatives of as many words with common beginnings, as many groups nested (at most 30), 30 repetitions inside a repetition, a word repeated over a subject of as many bytes, greedily and not, a choice repeated and a backtracking repetition; subjects that match with an arbitrary ASCII byte at any of 3 places and mostly another one at the end
func U_large() {
	sym.Steps(200_000_000)
	n := []int{30, 90, 250}[choose(sym.Pick(2, 3))]
	at := func(i int) byte { return "abcde"[i*3%5] }
	seqOf := func(n int) *R {
		l := make([]*R, n)
		for i := range l {
			l[i] = lit(at(i))
			if i%7 == 3 {
				l[i] = dot()
			}
		}
		return catR(l...)
	}
	run := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = at(i)
		}
		return b
	}
	var r *R
	var s []byte
	lazy := choose(2) == 1
	switch choose(8) {
	case 0:
		r, s = seqOf(n), run(n+1)
	case 7:
		if n > 30 {
			sym.Assume(false)
		}
		l := make([]*R, n+1)
		for i := 0; i < n; i++ {
			l[i] = rep(star, lazy, lit("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef"[i]))
		}
		l[n] = lit(';')
		r, s = catR(rep(star, lazy, catR(l...)), rep(star, lazy, lit('b')), lit('!')), []byte("ACZab;;P;acb;b!")
	case 1:
		l := make([]*R, n)
		for i := range l {
			l[i] = seqOf(1 + i*5%9)
			if i%2 == 0 {
				l[i] = catR(l[i], lit('!'))
			}
		}
		r, s = catR(altR(l...), lit(';')), append(run(1+(n-1)*5%9), ';')
	case 2:
		r = lit('a')
		for i := 0; i < min(n, 30); i++ {
			if i%3 == 0 {
				r = capR(r)
			} else if i%3 == 1 {
				r = rep(quest, lazy, catR(r, lit('b')))
			} else {
				r = catR(lit('a'), r)
			}
			s = append(s, 'a')
		}
		for i := 0; i < n/3; i++ {
			s = append(s, 'b')
		}
		if n > 30 {
			sym.Assume(false)
		}
	case 3:
		r, s = catR(rep(star, lazy, altR(lit('a'), lit('b'), catR(lit('c'), dot()))), lit('d')), nil
		for i := 0; i < n; i++ {
			s = append(s, "abcx"[i%4])
		}
		s = append(s, 'd')
	case 4:
		r = catR(rep(plus, lazy, lit('a')), rep(star, lazy, dot()), lit('b'))
		for i := 0; i < n; i++ {
			s = append(s, "aab"[i*3/n])
		}
	case 5:
		r, s = catR(rep(star, lazy, seqOf(5)), rep(quest, lazy, lit('a')), lit('!')), append(run(n/5*5), 'a', '!')
	default:
		r, s = rep(star, lazy, altR(seqOf(3), seqOf(4), lit('c'))), run(n)
	}
	s[[]int{0, len(s) / 2, len(s) - 2}[choose(3)]] = sym.Byte()
	if s[len(s)-1] != '!' || n > 30 {
		s[len(s)-1] = sym.Byte()
	}
	check(r, "", s)
}

// U_history: several expressions, also one text with several flags.
//
// unit: budget=40
// bounds: any 3 (thorough 4) of 10 expressions with flags (fold case, dot matches newline, one line, non-greedy, also for the same text; one is rejected) converted one after another, then all compiled, then each run; subjects of 0..2 ASCII bytes
func U_history() {
	a, b := func() *R { return lit('a') }, func() *R { return lit('b') }
	fold := func() *R { return byteR("a", func(c byte) bool { return c == 'a' || c == 'A' }) }
	any := func() *R { return byteR(".", func(byte) bool { return true }) }
	end := func(multi bool) *R {
		return assertR("$", func(in []byte, i int) bool { return i == len(in) || multi && in[i] == '\n' })
	}
	type expr struct {
		r     *R
		flags syntax.Flags
	}
	const perl = syntax.Perl
	l := []func() expr{
		func() expr { return expr{catR(a(), dot()), perl} },
		func() expr { return expr{catR(fold(), dot()), perl | syntax.FoldCase} },
		func() expr { return expr{catR(a(), any()), perl | syntax.DotNL} },
		func() expr { return expr{catR(a(), end(false)), perl} },
		func() expr { return expr{catR(a(), end(true)), perl &^ syntax.OneLine} },
		func() expr { return expr{rep(plus, false, a()), perl} },
		func() expr { r := rep(plus, true, a()); r.text = []byte("a+"); return expr{r, perl | syntax.NonGreedy} },
		func() expr { return expr{rep(plus, true, altR(a(), b())), perl} },
		func() expr { return expr{catR(capR(rep(star, false, a())), b()), perl} },
		func() expr { return expr{nil, perl} },
	}
	n := sym.Pick(3, 4)
	in := text(2)
	for i := range in {
		sym.Assume(in[i] < 128)
	}
	es := make([]expr, n)
	ps := make([]pattern.Pattern, n)
	for i := range es {
		e := l[choose(len(l))]()
		es[i] = e
		s := "(a*)*"
		if e.r != nil {
			s = string(e.r.text)
		}
		if sym.Native() {
			sym.Note(fmt.Sprintf("%q with flags %d", s, e.flags))
		}
		p, err := rxconv.FromRegexp(s, e.flags)
		if e.r == nil {
			sym.Assert(err != nil && p == nil, "unsupported regular expression accepted after another")
			continue
		}
		sym.Assert(err == nil && p != nil, "regular expression rejected after another")
		ps[i] = p
	}
	if sym.Native() {
		sym.Note(fmt.Sprintf("subject %q", in))
	}
	codes := make([]vm.Code, n)
	for i := range es {
		if es[i].r == nil {
			continue
		}
		prog, err := pattern.Compile(ps[i])
		sym.Assert(err == nil, "pattern does not compile")
		codes[i] = vm.Encode(prog)
	}
	for i, e := range es {
		if e.r == nil {
			continue
		}
		start, end := -1, -1
		for k := 0; k <= len(in); k++ {
			if e.r.match(in, k, func(j int) bool { end = j; return true }) {
				start = k
				break
			}
		}
		ok, n, c, _ := codes[i].Exec(&ref.Reader{B: in}, memo.NoneTable{})
		sym.ObsB(ok)
		sym.Assert(ok == (start >= 0), "match or no match of one of several expressions")
		if ok {
			sym.Assert(n == end, "end of the match of one of several expressions")
			ref.SameTree(c, []*ref.Node{{Id: 0, Start: start, Len: end - start}}, "span of the match of one of several expressions")
			sym.Reach("match")
		}
	}
}
