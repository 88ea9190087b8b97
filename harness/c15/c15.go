// Package c15 decides property C15: compiling untrusted notation text never
// panics.
package c15

import (
	"fmt"

	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
	"verif/harness/sym"
)

func choose(n int) int { return sym.Concrete(sym.Choose(n)) }

// compile takes a text as far as bytecode. A panic or a path that does not end
// within the instruction limit is reported by the engine.
func compile(s []byte, caps bool) {
	if sym.Native() {
		sym.Note(fmt.Sprintf("text %q, captures %v", s, caps))
	}
	var p pattern.Pattern
	var err error
	if caps {
		ids := map[string]int{}
		p, err = re.CompileCap(string(s), ids)
	} else {
		p, err = re.Compile(string(s))
	}
	sym.ObsB(err == nil)
	if err != nil {
		sym.Reach("rejected")
		sym.Assert(p == nil, "a pattern in spite of the error")
		return
	}
	sym.Assert(p != nil, "neither a pattern nor an error")
	prog, err := pattern.Compile(p)
	if err != nil {
		sym.Reach("no program")
		return
	}
	sym.Assert(prog != nil, "neither a program nor an error")
	code := vm.Encode(prog)
	sym.Assert(code.Size() > 0, "empty code")
	sym.Obs(code.Size())
	sym.Reach("program")
}

func either(s []byte) { compile(s, sym.Decide(sym.Bool())) }

// U_text: arbitrary short texts.
//
// unit: budget=60
// bounds: every text of 0..4 (thorough 5) bytes
func U_text() {
	compile(sym.Bytes(sym.Concrete(sym.Range(0, sym.Pick(4, 5)))), false)
}

// U_bracket: arbitrary bytes between brackets of every kind.
//
// unit: budget=60
// bounds: 0..3 (thorough 4) arbitrary bytes between ' ', " ", [ ], [^ ], ( ), { }, {{ }}, # newline, <- and nothing
func U_bracket() {
	l := [][2]string{{"'", "'"}, {"\"", "\""}, {"[", "]"}, {"[^", "]"}, {"(", ")"}, {"{", "}"}, {"{{", "}}"}, {"#", "\n"}, {"A<-", ""}, {"A<-.A<-", ""}}
	b := l[choose(len(l))]
	x := sym.Bytes(sym.Concrete(sym.Range(0, sym.Pick(3, 4))))
	// a range of bytes takes time with its width
	for i := 1; i+1 < len(x); i++ {
		d := x[i+1] - x[i-1]
		sym.Assume(sym.Or(x[i] != '-', sym.Or(d < 4, x[i+1] < x[i-1])))
	}
	s := append([]byte(b[0]), x...)
	s = append(s, b[1]...)
	compile(s, b[1] == "")
}

// U_operators: every arrangement of operators.
//
// unit: budget=60
// bounds: every text of 5 (thorough 6) characters over ( ) { } . A * ! and of 4 (thorough 5) over ? + & / [ ] ' \ < - # newline
func U_operators() {
	alpha, n := "(){}.A*!", sym.Pick(5, 6)
	if sym.Decide(sym.Bool()) {
		alpha, n = "?+&/[]'\\<-#\n", sym.Pick(4, 5)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[choose(len(alpha))]
	}
	compile(b, false)
}

var bodies = []string{"", "S", "A", "U", "S S", "A S", "'a' S", "S / A", "!S", "&A", "A*", "S?", "(S?)*", "{A}", "{{S}}", "{{A}}*", "[]", "[^]", "''", "(A", "A / ", "'a'* A+", "('')+ [\\377-\\0]"}

// U_rules: rules, also recursive, repeated, unreachable and undefined ones.
//
// unit: budget=60
// bounds: two rules over the names S, A (also the same name twice), each from 23 bodies (left recursion, loops over empty matches, undefined names, empty classes and literals, single braces, unbalanced), with and without captures; inlining thresholds 0 and 100
func U_rules() {
	pattern.InlineThreshold = 100 * choose(2)
	a := bodies[choose(len(bodies))]
	b := bodies[choose(len(bodies))]
	second := []string{"A", "S"}[choose(2)]
	either([]byte("S <- " + a + "\n" + second + " <- " + b))
}

// U_mutate: damaged texts.
//
// unit: budget=60
// bounds: 4 texts that use every construct, truncated anywhere, or 1 (thorough 2) arbitrary bytes inserted at or written over any position, or any byte removed or doubled
func U_mutate() {
	l := []string{
		"'a'/[^c-e]*!.",
		"({{'a'}}/.)+&\"b\"?#\n",
		"S<-A 'x'S?\nA<-[0\\55]",
		"A<-{B}\nB<-'\\12'/A+",
	}
	t := l[choose(len(l))]
	i := sym.Concrete(sym.Range(0, len(t)))
	s := append([]byte{}, t[:i]...)
	k := sym.Pick(1, 2)
	switch choose(5) {
	case 0: // truncated
	case 1:
		s = append(append(s, sym.Bytes(k)...), t[i:]...)
	case 2:
		j := i + k
		if j > len(t) {
			j = len(t)
		}
		s = append(append(s, sym.Bytes(k)...), t[j:]...)
	case 3:
		if i < len(t) {
			s = append(s, t[i+1:]...)
		}
	default:
		if i < len(t) {
			s = append(append(s, t[i]), t[i:]...)
		}
	}
	compile(s, choose(2) == 1)
}

// U_deep: nesting.
//
// unit: budget=60
// bounds: 1..10 (thorough 12) levels of one of 8 kinds of nesting around an operand, also with the last closing bracket missing, and chains of 1..64 operators
func U_deep() {
	kinds := [][2]string{{"(", ")"}, {"{{", "}}"}, {"{", "}"}, {"!(", ")"}, {"(", ")*"}, {"('a'/", ")"}, {"(&", "?)+"}, {"A<-(", ")"}}
	n := sym.Concrete(sym.Range(1, sym.Pick(10, 12)))
	k := choose(len(kinds) + 1)
	if k == len(kinds) {
		s := []byte(".")
		c := []string{" .", "/.", " !.", " A"}[choose(4)]
		for i := 0; i < n*n*2/3; i++ {
			s = append(s, c...)
		}
		compile(s, false)
		return
	}
	var s []byte
	for i := 0; i < n; i++ {
		s = append(s, kinds[k][0]...)
	}
	s = append(s, '.')
	cut := choose(2)
	for i := cut; i < n; i++ {
		s = append(s, kinds[k][1]...)
	}
	compile(s, false)
}

// U_large: long texts.
//
// unit: budget=20
// bounds: literals, classes, comments, blanks and names of 256 or 600 (thorough also 255 and 3000) bytes, sequences and choices of that many bytes (up to 256), unterminated and complete, with one arbitrary byte at any of 3 (thorough 5) places
func U_large() {
	sym.Steps(300_000_000)
	n := []int{256, 600, 255, 3000}[choose(sym.Pick(2, 4))]
	var unit, head, tail string
	k := choose(7)
	switch k {
	case 0:
		head, unit, tail = "'", "ab", "'"
	case 1:
		head, unit, tail = "[", "a-cx", "]"
	case 2:
		head, unit, tail = "'a'#", "text", "\n.*"
	case 3:
		head, unit, tail = "S", "name_1", "<-'a'"
	case 4:
		head, unit, tail = "'a'", "  \t\n", "/."
	case 5:
		head, unit, tail = "(", ". / ", ".)?"
	default:
		head, unit, tail = "S<-", ". 'a'", "!."
	}
	if k >= 5 && n > 300 {
		sym.Assume(false)
	}
	s := []byte(head)
	for i := 0; len(s) < n; i++ {
		s = append(s, unit[i%len(unit)])
	}
	if sym.Decide(sym.Bool()) {
		s = append(s, tail...)
	}
	s[[]int{0, len(s) / 2, len(s) - 1, 1, len(s) - 2}[choose(sym.Pick(3, 5))]] = sym.Byte()
	if k == 3 || sym.Thorough() {
		either(s)
		return
	}
	compile(s, false)
}
