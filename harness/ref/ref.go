// Package ref is the oracle side of the pattern harnesses: a syntax tree for
// patterns, its translation into gpeg's public constructors, and a direct
// interpreter of PEG semantics that shares nothing with the code under test.
package ref

import (
	"fmt"
	"regexp/syntax"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"verif/harness/sym"
)

type Op int

const (
	Lit Op = iota
	Set
	Any
	Empty
	Alt
	Seq
	Star
	Plus
	Opt
	Not
	And
	Cap
	Memo
	Rep
	Search
	Err
	Check
	EmptyOp
	NonTerm
	Gram
	Class
)

// P is a pattern.
type P struct {
	Op      Op
	A, B    *P
	L       []*P // children of n-ary Alt and Seq
	S       []byte
	Chars   charset.Set
	N       int // Any, Rep count; Cap, Memo, Check identifier
	Flag    int
	Msg     string
	Name    string
	Names   []string // Gram: definitions in L
	EOp     syntax.EmptyOp
	Checker isa.Checker
	Ref     func(m *M, b []byte, pos, id, flag int) int // the checker's meaning
	NoRec   bool                                        // Err without recovery
	Ranges  [][2]byte                                   // Class, complemented if Neg; only for reading texts
	Neg     bool
	Share   bool // build one node for all occurrences
	built   pattern.Pattern
}

func L(s string) *P           { return &P{Op: Lit, S: []byte(s)} }
func LB(b ...byte) *P         { return &P{Op: Lit, S: b} }
func Cls(s charset.Set) *P    { return &P{Op: Set, Chars: s} }
func AnyN(n int) *P           { return &P{Op: Any, N: n} }
func E() *P                   { return &P{Op: Empty} }
func Or(l ...*P) *P           { return &P{Op: Alt, L: l} }
func Cat(l ...*P) *P          { return &P{Op: Seq, L: l} }
func Un(op Op, a *P) *P       { return &P{Op: op, A: a} }
func Capt(a *P, id int) *P    { return &P{Op: Cap, A: a, N: id} }
func MemoP(a *P) *P           { return &P{Op: Memo, A: a, N: -1} }
func Repeat(a *P, n int) *P   { return &P{Op: Rep, A: a, N: n} }
func NT(n string) *P          { return &P{Op: NonTerm, Name: n} }
func Error(m string, r *P) *P { return &P{Op: Err, Msg: m, A: r, NoRec: r == nil} }

// Grammar with alternating names and definitions.
func Grammar(start string, names []string, defs []*P) *P {
	return &P{Op: Gram, Name: start, Names: names, L: defs}
}

// Has is set membership by definition.
func Has(s charset.Set, b byte) bool { return s.Bits[b>>6]>>(b&63)&1 == 1 }

// Build translates into gpeg constructors.
func (p *P) Build() pattern.Pattern {
	if !p.Share {
		return p.build()
	}
	if p.built == nil {
		p.built = p.build()
	}
	return p.built
}

func (p *P) build() pattern.Pattern {
	switch p.Op {
	case Lit:
		return pattern.Literal(string(p.S))
	case Set:
		return pattern.Set(p.Chars)
	case Any:
		return pattern.Any(uint8(p.N))
	case Empty:
		return pattern.Concat()
	case Alt, Seq:
		l := make([]pattern.Pattern, len(p.L))
		for i := range l {
			l[i] = p.L[i].Build()
		}
		if p.Op == Alt {
			return pattern.Or(l...)
		}
		return pattern.Concat(l...)
	case Star:
		return pattern.Star(p.A.Build())
	case Plus:
		return pattern.Plus(p.A.Build())
	case Opt:
		return pattern.Optional(p.A.Build())
	case Not:
		return pattern.Not(p.A.Build())
	case And:
		return pattern.And(p.A.Build())
	case Cap:
		return pattern.Cap(p.A.Build(), p.N)
	case Memo:
		if p.N >= 0 {
			return pattern.MemoId(p.A.Build(), p.N)
		}
		return pattern.Memo(p.A.Build())
	case Rep:
		return pattern.Repeat(p.A.Build(), p.N)
	case Search:
		return pattern.Search(p.A.Build())
	case Err:
		if p.NoRec {
			return pattern.Error(p.Msg, nil)
		}
		return pattern.Error(p.Msg, p.A.Build())
	case Check:
		if p.N == 0 && p.Flag == 0 {
			return pattern.Check(p.A.Build(), p.Checker)
		}
		return pattern.CheckFlags(p.A.Build(), p.Checker, p.N, p.Flag)
	case EmptyOp:
		return pattern.EmptyOp(p.EOp)
	case NonTerm:
		return pattern.NonTerm(p.Name)
	case Gram:
		defs := map[string]pattern.Pattern{}
		for i, n := range p.Names {
			defs[n] = p.L[i].Build()
		}
		return pattern.Grammar(p.Name, defs)
	}
	panic("bad op")
}

// Node is a capture of the reference derivation.
type Node struct {
	Id, Start, Len int
	Kids           []*Node
}

// LogEnt is a logged error.
type LogEnt struct {
	Pos int
	Msg string
}

// M is one reference parse.
type M struct {
	In      []byte
	Log     []LogEnt
	Aborted bool
	AbortAt int
	Calls   int // memo body evaluations
	Far     int // last byte examined
	// OnMemo is told the end of every evaluation of a memo entry: where it
	// began, how much it matched, the last byte it examined itself and the
	// last byte anything examined.
	OnMemo func(p *P, pos, n int, ok bool, own, far int)
	depth  int
}

type env struct {
	g  *P
	up *env
}

// Nullable reports conservatively whether p can succeed without consuming.
func (p *P) Nullable() bool {
	switch p.Op {
	case Lit:
		return len(p.S) == 0
	case Set, Class:
		return false
	case Any:
		return p.N == 0
	case Alt:
		for _, x := range p.L {
			if x.Nullable() {
				return true
			}
		}
		return len(p.L) == 0
	case Seq:
		for _, x := range p.L {
			if !x.Nullable() {
				return false
			}
		}
		return true
	case Plus, Cap, Memo, Search:
		return p.A.Nullable()
	case Check:
		return p.A.Nullable()
	case Rep:
		return p.N <= 0 || p.A.Nullable()
	case Err:
		return !p.NoRec && p.A.Nullable()
	case NonTerm:
		return true
	case Gram:
		return true
	}
	return true
}

// WellFormed: no repetition of a nullable pattern.
func (p *P) WellFormed() bool {
	if p.Op == Star || p.Op == Plus {
		if p.A.Nullable() {
			return false
		}
	}
	if p.A != nil && !p.A.WellFormed() {
		return false
	}
	for _, x := range p.L {
		if !x.WellFormed() {
			return false
		}
	}
	return true
}

// Run parses from the start of in.
func Run(p *P, in []byte) (ok bool, end int, caps []*Node, m *M) {
	m = &M{In: in}
	ok, end, caps = m.Run(p)
	return
}

// Run parses from the start.
func (m *M) Run(p *P) (ok bool, end int, caps []*Node) {
	ok, end, caps = m.eval(p, 0, nil)
	if m.Aborted {
		return false, m.AbortAt, nil
	}
	return
}

// RunAt parses from a later position.
func RunAt(p *P, in []byte, pos int) (bool, int) {
	m := &M{In: in}
	ok, end, _ := m.eval(p, pos, nil)
	return ok && !m.Aborted, end
}

// look records that a byte was examined.
func (m *M) look(pos int) {
	if pos > m.Far {
		m.Far = pos
	}
}

func (m *M) eval(p *P, pos int, e *env) (bool, int, []*Node) {
	if m.Aborted {
		return false, pos, nil
	}
	switch p.Op {
	case Lit:
		for _, c := range p.S {
			m.look(pos)
			if pos >= len(m.In) || m.In[pos] != c {
				return false, pos, nil
			}
			pos++
		}
		return true, pos, nil
	case Set:
		m.look(pos)
		if pos < len(m.In) && Has(p.Chars, m.In[pos]) {
			return true, pos + 1, nil
		}
		return false, pos, nil
	case Class:
		if pos < len(m.In) && p.In(m.In[pos]) {
			return true, pos + 1, nil
		}
		return false, pos, nil
	case Any:
		m.look(pos + p.N - 1)
		if pos+p.N <= len(m.In) {
			return true, pos + p.N, nil
		}
		return false, pos, nil
	case Empty:
		return true, pos, nil
	case Alt:
		if len(p.L) == 0 {
			return true, pos, nil
		}
		for _, x := range p.L {
			ok, n, c := m.eval(x, pos, e)
			if ok || m.Aborted {
				return ok, n, c
			}
		}
		return false, pos, nil
	case Seq:
		var all []*Node
		for _, x := range p.L {
			ok, n, c := m.eval(x, pos, e)
			if !ok {
				return false, pos, nil
			}
			pos, all = n, append(all, c...)
		}
		return true, pos, all
	case Star, Plus:
		var all []*Node
		for n := 0; ; n++ {
			ok, q, c := m.eval(p.A, pos, e)
			if !ok {
				return p.Op == Star || n > 0, pos, all
			}
			if q == pos {
				panic("ill-formed repetition in the reference")
			}
			pos, all = q, append(all, c...)
		}
	case Opt:
		ok, q, c := m.eval(p.A, pos, e)
		if !ok {
			return !m.Aborted, pos, nil
		}
		return true, q, c
	case Not:
		ok, _, _ := m.eval(p.A, pos, e)
		return !ok && !m.Aborted, pos, nil
	case And:
		ok, _, c := m.eval(p.A, pos, e)
		return ok, pos, c
	case Cap:
		ok, q, c := m.eval(p.A, pos, e)
		if !ok {
			return false, pos, nil
		}
		return true, q, []*Node{{Id: p.N, Start: pos, Len: q - pos, Kids: c}}
	case Memo:
		m.Calls++
		far := m.Far
		m.Far = -1
		ok, q, c := m.eval(p.A, pos, e)
		own := m.Far
		if far > m.Far {
			m.Far = far
		}
		if m.OnMemo != nil {
			m.OnMemo(p, pos, q-pos, ok, own, m.Far)
		}
		return ok, q, c
	case Rep:
		var all []*Node
		for i := 0; i < p.N; i++ {
			ok, q, c := m.eval(p.A, pos, e)
			if !ok {
				return false, pos, nil
			}
			pos, all = q, append(all, c...)
		}
		return true, pos, all
	case Search:
		for i := pos; i <= len(m.In); i++ {
			ok, q, c := m.eval(p.A, i, e)
			if ok || m.Aborted {
				return ok, q, c
			}
		}
		return false, pos, nil
	case Err:
		m.Log = append(m.Log, LogEnt{pos, p.Msg})
		if p.NoRec {
			m.Aborted, m.AbortAt = true, pos
			return false, pos, nil
		}
		return m.eval(p.A, pos, e)
	case Check:
		ok, q, c := m.eval(p.A, pos, e)
		if !ok {
			return false, pos, nil
		}
		n := p.Ref(m, m.In[pos:q], q, p.N, p.Flag)
		if n < 0 {
			return false, pos, nil
		}
		return true, q + n, c
	case EmptyOp:
		return m.Assertion(p.EOp, pos), pos, nil
	case NonTerm:
		for s := e; s != nil; s = s.up {
			for i, n := range s.g.Names {
				if n == p.Name {
					m.depth++
					if m.depth > 5000 {
						panic("runaway recursion in the reference")
					}
					ok, q, c := m.eval(s.g.L[i], pos, s)
					m.depth--
					return ok, q, c
				}
			}
		}
		panic("undefined name in the reference")
	case Gram:
		s := &env{p, e}
		for i, n := range p.Names {
			if n == p.Name {
				return m.eval(p.L[i], pos, s)
			}
		}
		panic("undefined start in the reference")
	}
	panic("bad op")
}

func word(b byte) bool {
	return b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9'
}

// Assertion: one of the requested conditions holds at pos.
func (m *M) Assertion(op syntax.EmptyOp, pos int) bool {
	begin, end := pos == 0, pos == len(m.In)
	wb, wa := false, false
	if !begin {
		wb = word(m.In[pos-1])
	}
	if !end {
		wa = word(m.In[pos])
	}
	if op&syntax.EmptyBeginText != 0 && begin {
		return true
	}
	if op&syntax.EmptyEndText != 0 && end {
		return true
	}
	if op&syntax.EmptyBeginLine != 0 && (begin || m.In[pos-1] == '\n') {
		return true
	}
	if op&syntax.EmptyEndLine != 0 && (end || m.In[pos] == '\n') {
		return true
	}
	if op&syntax.EmptyWordBoundary != 0 && wb != wa {
		return true
	}
	if op&syntax.EmptyNoWordBoundary != 0 && wb == wa {
		return true
	}
	return false
}

// Reader serves a byte slice.
type Reader struct{ B []byte }

type eofError struct{}

func (eofError) Error() string { return "EOF" }

// EOF is what Reader returns at the end.
var EOF error = eofError{}

func (r *Reader) ReadAt(b []byte, off int64) (int, error) {
	if off < 0 {
		return 0, EOF
	}
	if off >= int64(len(r.B)) {
		return 0, EOF
	}
	n := copy(b, r.B[off:])
	if n < len(b) {
		return n, EOF
	}
	return n, nil
}

// Far is a text that begins at a (large) position, with blanks before.
type Far struct {
	At int
	B  []byte
}

func (r *Far) ReadAt(b []byte, off int64) (int, error) {
	if off < 0 {
		return 0, EOF
	}
	if off >= int64(r.At) {
		return (&Reader{r.B}).ReadAt(b, off-int64(r.At))
	}
	n := 0
	for n < len(b) && off+int64(n) < int64(r.At) {
		b[n] = ' '
		n++
	}
	if n == len(b) {
		return n, nil
	}
	m, err := (&Reader{r.B}).ReadAt(b[n:], 0)
	return n + m, err
}

// From builds p to be matched at a position that may change.
func From(at *int, p pattern.Pattern) pattern.Pattern {
	skip := func(b []byte, src *input.Input, id, flag int) int { return *at }
	return pattern.Concat(pattern.Check(pattern.Literal(""), CheckerFunc(skip)), p)
}

// Moved gives nodes n places further.
func Moved(l []*Node, n int) []*Node {
	if n == 0 {
		return l
	}
	var out []*Node
	for _, c := range l {
		out = append(out, &Node{c.Id, c.Start + n, c.Len, Moved(c.Kids, n)})
	}
	return out
}

// Places are far positions, around the limits of narrow integers.
var Places = []int{65535, 1<<31 - 2, 1<<32 - 1, 1 << 40}

// SameTree asserts that c's children are exactly want.
func SameTree(c *memo.Capture, want []*Node, what string) {
	it := c.ChildIterator(0)
	for _, w := range want {
		k := it()
		sym.Assert(k != nil, what+": capture missing")
		sym.Assert(k.Id() == w.Id, what+": capture identifier")
		sym.Assert(k.Start() == w.Start, what+": capture start")
		sym.Assert(k.Len() == w.Len, what+": capture length")
		SameTree(k, w.Kids, what)
	}
	sym.Assert(it() == nil, what+": extra capture")
}

// TreeOf copies the visible tree under c.
func TreeOf(c *memo.Capture) []*Node {
	var l []*Node
	it := c.ChildIterator(0)
	for k := it(); k != nil; k = it() {
		l = append(l, &Node{k.Id(), k.Start(), k.Len(), TreeOf(k)})
	}
	return l
}

// CheckerFunc adapts a function to isa.Checker.
type CheckerFunc func(b []byte, src *input.Input, id, flag int) int

func (f CheckerFunc) Check(b []byte, src *input.Input, id, flag int) int { return f(b, src, id, flag) }

// String is Go-like notation for reports.
func (p *P) String() string {
	un := func(n string) string { return n + "(" + p.A.String() + ")" }
	switch p.Op {
	case Lit:
		return fmt.Sprintf("%q", p.S)
	case Set:
		return fmt.Sprintf("Set(%x)", p.Chars.Bits)
	case Class:
		return fmt.Sprintf("Class(%v %v)", p.Ranges, p.Neg)
	case Any:
		return fmt.Sprintf("Any(%d)", p.N)
	case Empty:
		return "Empty"
	case Alt, Seq:
		s := "Or("
		if p.Op == Seq {
			s = "Concat("
		}
		for i, x := range p.L {
			if i > 0 {
				s += ", "
			}
			s += x.String()
		}
		return s + ")"
	case Star:
		return un("Star")
	case Plus:
		return un("Plus")
	case Opt:
		return un("Optional")
	case Not:
		return un("Not")
	case And:
		return un("And")
	case Cap:
		return un(fmt.Sprintf("Cap#%d", p.N))
	case Memo:
		return un("Memo")
	case Rep:
		return un(fmt.Sprintf("Repeat#%d", p.N))
	case Search:
		return un("Search")
	case Err:
		if p.NoRec {
			return fmt.Sprintf("Error(%q)", p.Msg)
		}
		return un(fmt.Sprintf("Error#%q", p.Msg))
	case Check:
		return un(fmt.Sprintf("Check#%d,%d", p.N, p.Flag))
	case EmptyOp:
		return fmt.Sprintf("EmptyOp(%d)", p.EOp)
	case NonTerm:
		return "<" + p.Name + ">"
	case Gram:
		s := "Grammar(" + p.Name
		for i, n := range p.Names {
			s += ", " + n + " <- " + p.L[i].String()
		}
		return s + ")"
	}
	return "?"
}

// Note records the case for the report of a native replay.
func Note(p *P, in []byte) {
	if sym.Native() {
		sym.Note(fmt.Sprintf("pattern %s, subject %q", p, in))
	}
}
