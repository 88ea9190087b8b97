// Package c28 decides property C28: the grammars that ship with the library
// parse what they describe.
package c28

// engine: slab=20000000

import (
	"fmt"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

func choose(n int) int { return sym.Concrete(sym.Choose(n)) }

func note(f string, a ...interface{}) {
	if sym.Native() {
		sym.Note(fmt.Sprintf(f, a...))
	}
}

// grammar is a shipped grammar: as the library compiles it, and as it reads.
type grammar struct {
	name string
	code vm.Code
	p    *P
	ids  map[string]int
}

// load compiles a grammar with a capture for every rule.
func load(name string) (g *grammar) {
	g = &grammar{name: name, ids: map[string]int{}}
	defer func() {
		if recover() != nil {
			g.p = nil
		}
	}()
	text := sym.File("grammars/" + name + ".peg")
	t := ReadNotation([]byte(text))
	if t.P == nil {
		return g
	}
	p, err := re.CompileCap(text, g.ids)
	if err != nil {
		return g
	}
	prog, err := pattern.Compile(p)
	if err != nil {
		return g
	}
	g.code = vm.Encode(prog)
	q := *t.P
	q.L = nil
	for i, n := range t.Rules {
		q.L = append(q.L, Capt(t.P.L[i], g.ids[n]))
	}
	g.p = &q
	return g
}

var (
	json     = load("json")
	jsonMemo = load("json_memo")
	java     = load("java")
	javaMemo = load("java_memo")
	arith    = load("arith")
	cLang    = load("c")
	peg      = load("peg")
	reG      = load("re")
	lpeg     = load("lpeg")
)

func (g *grammar) compiled() {
	sym.Assert(g.p != nil, g.name+".peg does not compile")
}

func (g *grammar) run(in []byte, t memo.Table) (bool, int, *memo.Capture) {
	g.compiled()
	ok, n, c, _ := g.code.Exec(&Reader{B: in}, t)
	return ok, n, c
}

// agrees compares a parse with the reading of the grammar.
func (g *grammar) agrees(in []byte) bool {
	ok, n, c := g.run(in, memo.NoneTable{})
	rok, rn, nodes, _ := Run(g.p, in)
	sym.Assert(ok == rok, "verdict of "+g.name+".peg")
	sym.ObsB(ok)
	if !ok {
		return false
	}
	sym.Assert(n == rn, "end of a parse by "+g.name+".peg")
	SameTree(c, nodes, "tree of "+g.name+".peg")
	sym.Reach("parse")
	return n == len(in)
}

// same compares the parses of two grammars with the same rules.
func (g *grammar) same(h *grammar, in []byte, t memo.Table) {
	ok, n, c := g.run(in, memo.NoneTable{})
	hok, hn, hc := h.run(in, t)
	sym.Assert(ok == hok && (!ok || n == hn), "result of "+h.name+".peg")
	sym.ObsB(ok)
	if ok {
		sameNodes(shared(TreeOf(hc), h, g, h), shared(TreeOf(c), g, h, h), "tree of "+h.name+".peg")
		sym.Reach("parse")
	}
}

// shared keeps the nodes of a tree of g whose rules h has too, with the
// identifiers they have in as.
func shared(l []*Node, g, h, as *grammar) []*Node {
	var out []*Node
	for _, n := range l {
		kids := shared(n.Kids, g, h, as)
		both := false
		for name, id := range g.ids {
			if _, ok := h.ids[name]; ok && id == n.Id {
				out = append(out, &Node{as.ids[name], n.Start, n.Len, kids})
				both = true
			}
		}
		if !both {
			out = append(out, kids...)
		}
	}
	return out
}

func sameNodes(a, b []*Node, what string) {
	sym.Assert(len(a) == len(b), what+": number of captures")
	for i := range a {
		sym.Assert(a[i].Id == b[i].Id && a[i].Start == b[i].Start && a[i].Len == b[i].Len, what+": capture")
		sameNodes(a[i].Kids, b[i].Kids, what)
	}
}

// around replaces n bytes at a position by arbitrary ones.
func around(text string, at, n int) []byte {
	in := []byte(text)
	for i := 0; i < n && at+i < len(in); i++ {
		in[at+i] = sym.Byte()
	}
	return in
}

// doc is a recogniser of JSON texts.
type doc struct {
	s []byte
	i int
}

func (d *doc) is(l ...byte) bool {
	for _, c := range l {
		if d.i < len(d.s) && d.s[d.i] == c {
			return true
		}
	}
	return false
}

func (d *doc) eat(l ...byte) bool {
	if d.is(l...) {
		d.i++
		return true
	}
	return false
}

func (d *doc) space() {
	for d.eat(' ', '\t', '\n', '\r') {
	}
}

func (d *doc) in(low, high byte) bool {
	if d.i < len(d.s) && d.s[d.i] >= low && d.s[d.i] <= high {
		d.i++
		return true
	}
	return false
}

func (d *doc) digits() bool {
	if !d.in('0', '9') {
		return false
	}
	for d.in('0', '9') {
	}
	return true
}

func (d *doc) number() bool {
	d.eat('-')
	if !d.eat('0') && !d.digits() {
		return false
	}
	if d.eat('.') && !d.digits() {
		return false
	}
	if d.eat('e', 'E') {
		d.eat('+', '-')
		return d.digits()
	}
	return true
}

func (d *doc) str() bool {
	if !d.eat('"') {
		return false
	}
	for !d.eat('"') {
		if d.eat('\\') {
			if d.eat('u') {
				for k := 0; k < 4; k++ {
					if !d.in('0', '9') && !d.in('a', 'f') && !d.in('A', 'F') {
						return false
					}
				}
			} else if !d.eat('"', '\\', '/', 'b', 'f', 'n', 'r', 't') {
				return false
			}
		} else if !d.in(' ', 255) {
			return false
		}
	}
	return true
}

func (d *doc) word(w string) bool {
	for i := 0; i < len(w); i++ {
		if !d.eat(w[i]) {
			return false
		}
	}
	return true
}

func (d *doc) list(end byte, member func() bool) bool {
	d.i++
	d.space()
	if d.eat(end) {
		return true
	}
	for {
		if !member() {
			return false
		}
		d.space()
		if d.eat(end) {
			return true
		}
		if !d.eat(',') {
			return false
		}
	}
}

func (d *doc) value() bool {
	d.space()
	switch {
	case d.is('{'):
		return d.list('}', func() bool {
			d.space()
			if !d.str() {
				return false
			}
			d.space()
			return d.eat(':') && d.value()
		})
	case d.is('['):
		return d.list(']', d.value)
	case d.is('"'):
		return d.str()
	case d.is('t'):
		return d.word("true")
	case d.is('f'):
		return d.word("false")
	case d.is('n'):
		return d.word("null")
	}
	return d.number()
}

func isJSON(s []byte) bool {
	d := &doc{s: s}
	if !d.value() {
		return false
	}
	d.space()
	return d.i == len(s)
}

func checkJSON(in []byte) {
	note("subject %q", in)
	ok := json.agrees(in)
	sym.Assert(ok == isJSON(in), "json.peg accepts what is not JSON or refuses what is")
	json.same(jsonMemo, in, memo.NewTreeTable(0))
	json.same(jsonMemo, in, memo.NoneTable{})
	if ok {
		sym.Reach("json")
	}
}

// U_json: short texts.
//
// unit: budget=60
// bounds: json.peg and json_memo.peg on every text of 0..4 (thorough 6) bytes; json.peg accepts JSON texts (as encoding/json does) and nothing else, its tree is that of the reference reading of the grammar, and json_memo.peg with a memo table and without gives the same
func U_json() {
	checkJSON(sym.Bytes(sym.Concrete(sym.Range(0, sym.Pick(4, 6)))))
}

var jsonTexts = []string{
	" { \"k\" : [ 1 , -2.5E+03 , true , null ] , \"\" : { } } ",
	"[\"a\\u00fF\\n\\\\b\\\"\",\"\\t\\r\",[ ],[{}],0.1e-9]",
}

// U_json_in: longer texts.
//
// unit: budget=60
// bounds: 2 texts of about 50 bytes with 2 (thorough 3) adjacent arbitrary bytes anywhere; otherwise as U_json
func U_json_in() {
	t := jsonTexts[choose(len(jsonTexts))]
	checkJSON(around(t, choose(len(t)), sym.Pick(2, 3)))
}

const javaText = `package a.b;
import c.D;
class A<T> extends B {
  int[] x = {1, 0x2f};
  void f(int a) { if (a > 0L) { g(a--, "q\n"); } else return; }
}
`

// place is an arbitrary one of every n-th places of a text.
func place(text string, n int) int { return choose((len(text)+n-1)/n) * n }

var javaTexts = []string{
	"class A{int x=1>>>b;char c='\\u0061';}",
	"class A{String s=\"q\\12\"+\"\";}",
	"class A{double d=.1e-2f*0x1p3+1_0L;}",
	"@A(b={1},c=\"\")enum E{A(1),B{};int f(){}}",
	"interface I<T extends A&B>extends J<?>{int X=1;void f(int...a)throws E;}",
	"class A{{for(int i=0;i<n;i++)a:b+=c?d:-e;}}",
	"class A{int f(A<int[]>a)[]{switch(a){case 1:break a;default:}}}",
	"class A{{try{a=new B[1][];}catch(final E|F e){}finally{;}}}",
	"class A{A(){super(1);do{x.<T>f()[0]--;}while(!(a instanceof B));}}",
	"/*a*/package a;import static b.*;//c\n;",
}

// U_java: short Java files.
//
// unit: budget=60
// bounds: 10 files of 35..75 bytes with an arbitrary byte at any 7th (thorough any) place: java.peg parses it as the reference reads the grammar, and java_memo.peg with a memo table gives the same
func U_java() {
	sym.Steps(100_000_000)
	text := javaTexts[choose(len(javaTexts))]
	in := around(text, place(text, sym.Pick(7, 1)), 1)
	note("subject %q", in)
	if java.agrees(in) {
		sym.Reach("all")
	}
	java.same(javaMemo, in, memo.NewTreeTable(0))
}

// edit replaces a part of a text and tells the table.
func edit(in []byte, tbl memo.Table, low, n int, by []byte) []byte {
	if low+n > len(in) {
		n = len(in) - low
	}
	out := append(append(append([]byte{}, in[:low]...), by...), in[low+n:]...)
	tbl.ApplyEdit(memo.Edit{Start: low, End: low + n, Len: len(by)})
	note("edit [%d,%d) := %q", low, low+n, by)
	return out
}

// U_edit: a file is edited.
//
// unit: budget=60
// bounds: the file parsed with java_memo.peg and a table of threshold 0 or 16, then edited at any 16th (thorough 3rd) place, where 0, 1 or 7 bytes are replaced by 0..1 arbitrary ones (thorough: and once more, two bytes by "{}", at one of 4 places); the tree is what java.peg finds without a table
func U_edit() {
	sym.Steps(100_000_000)
	tbl := memo.NewTreeTable(choose(2) * 16)
	in := []byte(javaText)
	javaMemo.run(in, tbl)
	in = edit(in, tbl, place(javaText, sym.Pick(16, 3)), []int{0, 1, 7}[choose(3)], sym.Bytes(choose(2)))
	java.same(javaMemo, in, tbl)
	if sym.Thorough() {
		in = edit(in, tbl, 20+choose(4)*25, 2, []byte("{}"))
		java.same(javaMemo, in, tbl)
	}
}

var others = []struct {
	g    **grammar
	text string
}{
	{&arith, "12+(3*4-(5))/67"},
	{&cLang, "static int f(int *a, ...) {\n  for (;;) a[1] += (b->c ? 0x1f : \"s\\n\"[0]);\n  return sizeof(int);\n}\n"},
	{&lpeg, "s <- {a} / %d^+2 => f -- b"},
	{&peg, "A <- !B* ('x\\n' / [^a-z\\12])? # c\nB <- .+\n"},
	{&reG, "A <- !B* ('x\\n' / [^a-z\\101])? # c\nB <- {{ .+ }} {\"\"}\n"},
}

// U_others: the other grammars.
//
// unit: budget=60
// bounds: texts of 15..90 bytes in the languages of arith.peg, c.peg, lpeg.peg, peg.peg and re.peg with an arbitrary byte at any 5th (thorough any, and two adjacent) place: verdict, end and tree are those of the reference reading of the grammar
func U_others() {
	sym.Steps(100_000_000)
	o := others[choose(len(others))]
	in := around(o.text, place(o.text, sym.Pick(5, 1)), sym.Pick(1, 2))
	note("subject %q", in)
	if (*o.g).agrees(in) {
		sym.Reach("all")
	}
}

var notation = []string{
	"A <- !B* ('x\\n' / [^a-z\\101])? # c\nB <- {{ .+ }} {\"\\-\"}\n",
	"&a+ ( \"\" 'b' ) / [] .*",
	"A<-[b-\\n]# c\n",
}

// U_self: the grammars of the notation.
//
// unit: budget=60
// bounds: texts of 0..3 (thorough 4) bytes, and three of 13, 24 and 60 bytes with an arbitrary byte at any 2nd (thorough any) place: re.peg matches all of a text exactly when re.Compile accepts it, and what peg.peg matches re.Compile accepts
func U_self() {
	sym.Steps(100_000_000)
	var in []byte
	if k := choose(len(notation) + 1); k < len(notation) {
		in = around(notation[k], place(notation[k], sym.Pick(2, 1)), 1)
	} else {
		in = sym.Bytes(sym.Concrete(sym.Range(0, sym.Pick(3, 4))))
	}
	note("text %q", in)
	_, err := re.Compile(string(in))
	ok, n, _ := reG.run(in, memo.NoneTable{})
	sym.Assert((ok && n == len(in)) == (err == nil), "re.peg and re.Compile disagree")
	ok, n, _ = peg.run(in, memo.NoneTable{})
	sym.Assert(!ok || n != len(in) || err == nil, "peg.peg matches what re.Compile refuses")
	sym.ObsB(ok)
	if err == nil {
		sym.Reach("accepted")
	}
}
