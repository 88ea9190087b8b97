// Package c14 decides property C14: the textual PEG notation means what it
// documents.
package c14

import (
	"fmt"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

func choose(n int) int { return sym.Concrete(sym.Choose(n)) }

// check compiles a text and compares it with its reading on one subject.
func check(s []byte, in []byte) {
	t := ReadNotation(s)
	if t.Loose {
		sym.Assume(false)
	}
	if sym.Native() {
		sym.Note(fmt.Sprintf("text %q, subject %q", s, in))
		if t.P != nil {
			sym.Note("read as " + t.P.String())
		}
	}
	p, err := re.Compile(string(s))
	sym.ObsB(err == nil)
	if t.P == nil {
		sym.Reach("rejected")
		sym.Assert(err != nil && p == nil, "text outside the notation accepted")
		return
	}
	sym.Assert(err == nil && p != nil, "text in the notation rejected")
	run(t.P, p, in)
}

func run(want *P, p pattern.Pattern, in []byte) {
	if Unclear(want) {
		return // a name in an alternative that is never tried
	}
	def, wf := Sound(want)
	if def && !wf {
		sym.Reach("ill-formed")
		return
	}
	prog, err := pattern.Compile(p)
	if !def {
		sym.Reach("undefined")
		_, nf := err.(*pattern.NotFoundError)
		sym.Assert(nf, "no NotFoundError for an undefined rule")
		return
	}
	sym.Assert(err == nil, "pattern does not compile")
	code := vm.Encode(prog)
	ok, n, c, errs := code.Exec(&Reader{B: in}, memo.NoneTable{})
	wok, wn, caps, _ := Run(want, in)
	sym.ObsB(ok)
	sym.Assert(ok == wok, "verdict of the pattern")
	sym.Assert(len(errs) == 0, "errors")
	if !ok {
		return
	}
	sym.Obs(n)
	sym.Assert(n == wn, "end of the match")
	SameTree(c, caps, "captures")
	if n > 0 {
		sym.Reach("match")
	}
}

// U_text: arbitrary short texts.
//
// unit: budget=60
// bounds: every text of 0..3 (thorough 4) bytes, subjects of 0..1 bytes
func U_text() {
	s := sym.Bytes(sym.Concrete(sym.Range(0, sym.Pick(3, 4))))
	check(s, Subject(1))
}

// from takes n bytes from a small alphabet.
func from(alpha string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[choose(len(alpha))]
	}
	return b
}

// U_operators: operators and grouping.
//
// unit: budget=60
// bounds: every text of 1..5 (thorough 6) characters over . / * ( ) !, and of 4 (thorough 5) over . ? + & { } #newline, subjects of 0..2 bytes
func U_operators() {
	if sym.Decide(sym.Bool()) {
		check(from("./*()!", sym.Concrete(sym.Range(1, sym.Pick(5, 6)))), Subject(2))
		return
	}
	check(from(".?+&{}#\n", sym.Pick(4, 5)), Subject(2))
}

// U_class: classes of arbitrary characters.
//
// unit: budget=60
// bounds: [x] and [^x] with every x of 0..3 (thorough 4) bytes, in ranges an upper bound of at most 3 above the lower or below it, subjects of 0..1 bytes
func U_class() {
	x := sym.Bytes(sym.Concrete(sym.Range(0, sym.Pick(3, 4))))
	for i := 1; i+1 < len(x); i++ {
		d := x[i+1] - x[i-1]
		sym.Assume(sym.Or(x[i] != '-', sym.Or(d < 4, x[i+1] < x[i-1])))
	}
	s := []byte{'['}
	if sym.Decide(sym.Bool()) {
		s = append(s, '^')
	}
	s = append(append(s, x...), ']')
	check(s, sym.Bytes(sym.Concrete(sym.Range(0, 1))))
}

// U_range: ranges given by escapes and characters.
//
// unit: budget=60
// bounds: [a-b] and [^a-b] for a and b from 14 characters, named escapes and octal escapes of 1..3 digits up to \277, every subject byte
func U_range() {
	ends := []string{"a", "z", "-", "^", "0", " ", `\n`, `\-`, `\]`, `\\`, `\7`, `\60`, `\177`, `\277`}
	s := "["
	if sym.Decide(sym.Bool()) {
		s += "^"
	}
	s += ends[choose(len(ends))] + "-" + ends[choose(len(ends))] + "]"
	check([]byte(s), sym.Bytes(1))
}

// U_escape: literals with escapes.
//
// unit: budget=60
// bounds: literals in either quote of a backslash and 1..3 arbitrary bytes, or of 0..3 arbitrary bytes, subjects of 0..3 bytes
func U_escape() {
	q := "'\""[choose(2)]
	s := []byte{q}
	if sym.Decide(sym.Bool()) {
		s = append(s, '\\')
		s = append(s, sym.Bytes(sym.Concrete(sym.Range(1, 3)))...)
	} else {
		s = append(s, sym.Bytes(sym.Concrete(sym.Range(0, sym.Pick(2, 3))))...)
	}
	s = append(s, q)
	check(s, Subject(3))
}

var tokens = []string{"", "[ab]", ".", "(", ")", "/", "*", "?", "!", "{{", "}}", "+", "&", "A"}

// U_tokens: sequences of tokens.
//
// unit: budget=60
// bounds: every sequence of 4 (thorough 5) of 14 tokens: a literal of an arbitrary byte above the ASCII range, a class, dot, parentheses, memo braces, the operators, an identifier; subjects of 2 bytes
func U_tokens() {
	var s []byte
	n := sym.Pick(4, 5)
	for i := 0; i < n; i++ {
		if k := choose(len(tokens)); k == 0 {
			b := sym.Byte()
			sym.Assume(b >= 128)
			s = append(s, '\'', b, '\'')
		} else {
			s = append(s, tokens[k]...)
		}
	}
	check(s, sym.Bytes(2))
}

// templates hold every construct of the notation.
var templates = []string{
	"'a'/[^c-e]*!.",
	"({{'a'}}/.)+&\"b\"?#\n",
	"S<-A 'x'S?\nA<-[0\\55]",
	"( 'a' / . )+ &'b' ?",
	"{{ 'a' }} # no\n \"b\"?",
	"S <- 'a' B* !.  B <- '\\142'",
	"\tE<-'(' E ')' / [\\-\\]]",
}

// U_insert: arbitrary bytes anywhere in a text.
//
// unit: budget=60
// bounds: 3 (thorough 6) texts that use every construct, 1 arbitrary byte (thorough 2) inserted at or written over any position, subjects of 1 byte
func U_insert() {
	t := templates[choose(sym.Pick(3, len(templates)))]
	k := sym.Pick(1, 2)
	i := sym.Concrete(sym.Range(0, len(t)))
	j := i
	if sym.Decide(sym.Bool()) {
		if i+k > len(t) {
			sym.Assume(false)
		}
		j = i + k
	}
	s := append([]byte{}, t[:i]...)
	s = append(append(s, sym.Bytes(k)...), t[j:]...)
	check(s, sym.Bytes(1))
}

// U_space: white space and comments between the tokens.
//
// unit: budget=60
// bounds: a grammar of 2 rules, any of 7 kinds of white space and comments (thorough two of them) between any two tokens, before the first or after the last; subjects of 2 bytes
func U_space() {
	toks := []string{"S", "<-", "!", "B", "(", "'a'", "/", "[^a]", ")", "*", "{{", "B", "}}", "?", "B", "<-", "'b'"}
	kinds := []string{" ", "\t", "\n", "\r\n", "\r", "# <- '\n", "#\r"}
	at := sym.Concrete(sym.Range(0, len(toks)))
	var s []byte
	for i := 0; i <= len(toks); i++ {
		if i == at {
			s = append(s, kinds[choose(len(kinds))]...)
			if sym.Thorough() {
				s = append(s, kinds[choose(len(kinds))]...)
			}
		}
		if i < len(toks) {
			s = append(s, toks[i]...)
		}
	}
	check(s, sym.Bytes(2))
}

var names = []string{"S", "_x", "Rule_2", "a9"}

// bodies of rules; @ stands for a name.
var bodies = []string{"'a'", "@", "@ 'b'", "'a' @ / .", "(!'c' @)?", "'a' / 'b' @", "&@ . @?"}

// U_rules: rules, the start rule and the captures of rules.
//
// unit: budget=60
// bounds: grammars of 1..3 (quick: 1..2 with 7 bodies, 3 with 4) rules, each from 7 bodies over every rule name or an undefined one; captures off or on, for every order in which the rules are visited; subjects of 0..2 bytes
func U_rules() {
	n := sym.Concrete(sym.Range(1, 3))
	nb := len(bodies)
	if n == 3 {
		nb = sym.Pick(4, nb)
	}
	var s []byte
	for i := 0; i < n; i++ {
		s = append(s, names[i]...)
		s = append(s, " <- "...)
		for _, c := range []byte(bodies[choose(nb)]) {
			if c != '@' {
				s = append(s, c)
				continue
			}
			k := choose(n + 1)
			if k == n {
				k = 3
				if n == 3 && !sym.Thorough() {
					sym.Assume(false)
				}
			}
			s = append(s, names[k]...)
		}
		s = append(s, '\n')
	}
	if sym.Decide(sym.Bool()) {
		check(s, Subject(2))
		return
	}
	captured(s, Subject(2))
}

// captured compares a text compiled with captures.
func captured(s, in []byte) {
	t := ReadNotation(s)
	if t.Loose || t.P == nil {
		sym.Assume(false)
	}
	if sym.Native() {
		sym.Note(fmt.Sprintf("text %q with captures, subject %q", s, in))
	}
	ids := map[string]int{}
	p, err := re.CompileCap(string(s), ids)
	sym.Assert(err == nil && p != nil, "text in the notation rejected")
	sym.Assert(len(ids) == len(t.Rules), "identifiers reported")
	g := *t.P
	g.L = nil
	seen := map[int]bool{}
	for i, n := range t.Rules {
		id, ok := ids[n]
		sym.Assert(ok, "identifier of a rule not reported")
		sym.Assert(!seen[id], "identifier used twice")
		seen[id] = true
		g.L = append(g.L, Capt(t.P.L[i], id))
	}
	run(&g, p, in)
	sym.Reach("captures")
}

// U_capture: captures with references in every position.
//
// unit: budget=40
// bounds: 4 grammars of 2..3 rules with nested, repeated, optional and looked-ahead references, every order in which the rules are visited, subjects of 0..3 (thorough 4) bytes; and an expression without rules
func U_capture() {
	sym.MapOrder(-3)
	l := []string{
		"S <- A* B\nA <- 'a' / 'b' A\nB <- .",
		"S <- &A B / A A\nA <- [ab]\nB <- A 'c'",
		"S <- 'a' S 'b' / A\nA <- 'c'?",
		"S <- (A / B)+ !.\nA <- 'a' {{B}}\nB <- 'b'",
		"'a' / .",
	}
	k := choose(len(l))
	if k == len(l)-1 {
		ids := map[string]int{}
		p, err := re.CompileCap(l[k], ids)
		sym.Assert(err == nil && p != nil, "text in the notation rejected")
		sym.Assert(len(ids) == 0, "identifiers reported without a rule")
		run(ReadNotation([]byte(l[k])).P, p, Subject(2))
		return
	}
	captured([]byte(l[k]), Subject(sym.Pick(3, 4)))
}

// U_names: rules with arbitrary names.
//
// unit: budget=60
// bounds: a grammar of 2 rules, the first referring to an arbitrary name and to the second, all names of 1..2 letters, underscores and (behind the first) digits, also equal or one the beginning of another, captures off or on; subjects of 0..2 bytes
func U_names() {
	sym.MapOrder(-3)
	name := func() []byte {
		b := sym.Bytes(1 + choose(2))
		for i, c := range b {
			letter := sym.Or(sym.And(c >= 'a', c <= 'z'), sym.Or(sym.And(c >= 'A', c <= 'Z'), c == '_'))
			sym.Assume(sym.Or(letter, sym.And(i > 0, sym.And(c >= '0', c <= '9'))))
		}
		return b
	}
	a, b := name(), name()
	ref := name()
	var s []byte
	for _, part := range [][]byte{a, []byte(" <- 'a' "), ref, []byte(" / "), b, []byte("\n"), b, []byte("<-'c'")} {
		s = append(s, part...)
	}
	if choose(2) == 0 {
		check(s, Subject(2))
	} else {
		captured(s, Subject(2))
	}
}

// U_large: long tokens and many of them.
//
// unit: budget=30
// bounds: a literal, class, comment, run of blanks, name, sequence, choice of 40 and 256 (thorough also 255, 300 and 700) bytes, operands or escapes, grammars of 5 and 40 (thorough 90) rules with captures on or off, with one arbitrary byte in the text (literal, class, comment, blanks, name) at any of 4 places; subjects that match, with the last byte arbitrary
func U_large() {
	sym.Steps(200_000_000)
	k := choose(9)
	n := []int{40, 256, 255, 300, 700}[choose(sym.Pick(2, 5))]
	at := []int{0, n / 2, n - 2, n - 1}[choose(4)]
	fill := func(unit string) []byte {
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, unit[i%len(unit)])
		}
		return b
	}
	join := func(l ...[]byte) []byte {
		var b []byte
		for _, x := range l {
			b = append(b, x...)
		}
		return b
	}
	var s, in []byte
	switch k {
	case 0: // literal
		b := fill("abcde")
		in = join(b, []byte("!"))
		b[at] = sym.Byte()
		s = join([]byte("'"), b, []byte("' '!'?"))
	case 1: // class
		b := fill("acegik")
		in = []byte("aac!")
		b[at] = sym.Byte()
		s = join([]byte("["), b, []byte("]*"))
	case 2: // comment
		b := fill("comment ")
		b[at] = sym.Byte()
		s = join([]byte("'a' #"), b, []byte("\n 'b'"))
		in = []byte("ab")
	case 3: // blanks
		b := fill(" \t\n\n ")
		b[at] = sym.Byte()
		s = join([]byte("'a'"), b, []byte("?'b'"))
		in = []byte("ab")
	case 4: // name
		b := fill("nAm_e5")
		c := append([]byte{}, b...)
		c[at] = sym.Byte()
		s = join([]byte("S<-"), b, []byte("\n"), c, []byte("<-'a'"))
		in = []byte("aa")
	case 5: // sequence
		if n > 100 {
			sym.Assume(false)
		}
		s = nil
		for i := 0; i < n; i++ {
			s = append(s, []string{"'a'", "[ab]", ".", "&'a' .", "'b'?", "('a')"}[i%6]...)
			s = append(s, " \n"[i%2])
			in = append(in, 'a')
		}
	case 6: // choice
		if n > 100 {
			sym.Assume(false)
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				s = append(s, '/')
			}
			c := byte('A' + i%26)
			s = append(s, '\'', c, byte('a'+i/26), '\'')
			in = []byte{c, byte('a' + i/26)}
		}
	case 7: // escapes
		for i := 0; i < n; i++ {
			s = append(s, []string{`\141`, `\n`, `\\`, `b`, `\0`, `\12`, `\-`}[i%7]...)
			in = append(in, "a\n\\b\x00\n-"[i%7])
		}
		s = join([]byte{'"'}, s, []byte{'"'})
	default: // rules
		if at != 0 || n > 255 {
			sym.Assume(false)
		}
		n = 5
		if choose(2) == 1 {
			n = sym.Pick(40, 90)
		}
		for i := 0; i < n; i++ {
			name := func(i int) string { return "R" + string(rune('a'+i/26)) + string(rune('a'+i%26)) }
			s = append(s, name(i)...)
			s = append(s, " <- 'a' "...)
			if i+1 < n {
				s = append(s, name(i+1)...)
				s = append(s, " .? # next\n"...)
			} else {
				s = append(s, "!'a'"...)
			}
			in = append(in, 'a')
		}
		in = append(in, 'b')
		if choose(2) == 1 {
			captured(s, in)
			return
		}
	}
	in = append([]byte{}, in...)
	in[len(in)-1] = sym.Byte()
	check(s, in)
}

// U_history: several texts one after another.
//
// unit: budget=40
// bounds: any 2 (thorough 3) of 9 texts (expressions, grammars with the same rule names in other orders and with other definitions, memo entries, undefined rules, texts outside the notation), each with or without captures, compiled to patterns one after another, then all compiled to programs, then each run on subjects of 0..2 bytes
func U_history() {
	l := []string{
		"'a' [^b] / .",
		"S <- A S / A\nA <- 'a' / 'b'",
		"A <- S 'b' / 'a'\nS <- [ab]",
		"S <- {{ A }} {{ 'b' }}?\nA <- .",
		"{{ 'ab' }} / {{ 'a' }}",
		"S <- A 'b'",
		"S <- 'a",
		"S <- ('a' / 'b')* !.",
		"[b-a]",
	}
	n := sym.Pick(2, 3)
	in := Subject(2)
	ps := make([]pattern.Pattern, n)
	want := make([]*P, n)
	ids := make([]map[string]int, n)
	for i := range ps {
		s := l[choose(len(l))]
		t := ReadNotation([]byte(s))
		capture := sym.Decide(sym.Bool())
		if sym.Native() {
			sym.Note(fmt.Sprintf("text %q, captures %v", s, capture))
		}
		var err error
		if capture {
			ids[i] = map[string]int{}
			ps[i], err = re.CompileCap(s, ids[i])
		} else {
			ps[i], err = re.Compile(s)
		}
		if t.P == nil {
			sym.Assert(err != nil && ps[i] == nil, "text outside the notation accepted after another")
			continue
		}
		sym.Assert(err == nil && ps[i] != nil, "text in the notation rejected after another")
		want[i] = t.P
		if capture && len(t.Rules) > 0 {
			sym.Assert(len(ids[i]) == len(t.Rules), "identifiers reported after another text")
			g := *t.P
			g.L = nil
			for k, r := range t.Rules {
				id, ok := ids[i][r]
				sym.Assert(ok, "identifier of a rule not reported after another text")
				g.L = append(g.L, Capt(t.P.L[k], id))
			}
			want[i] = &g
		}
	}
	if sym.Native() {
		sym.Note(fmt.Sprintf("subject %q", in))
	}
	for i := range ps {
		if want[i] != nil {
			run(want[i], ps[i], in)
		}
	}
}
