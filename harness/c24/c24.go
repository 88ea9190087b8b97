// Package c24 decides property C24: memoized work is reused.
package c24

import (
	"fmt"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
	. "verif/harness/ref"
	"verif/harness/sym"
)

func one(l ...int) int { return l[sym.Concrete(sym.Choose(len(l)))] }

func b() *P { return LB(sym.Byte()) }

// eval is the evaluation of a memo entry at a position.
type eval struct{ id, pos int }

// counted is a table that counts its lookups.
type counted struct {
	*memo.TreeTable
	gets int
}

func (c *counted) Get(id, pos int) (*memo.Entry, bool) {
	c.gets++
	return c.TreeTable.Get(id, pos)
}

// doc is a text under edit, the evaluations seen in the last parse and those
// whose results must still be known, with the end of the text they depend on.
type doc struct {
	p         *P
	code      vm.Code
	tbl       *counted
	text      []byte
	threshold int
	calls     []eval
	known     map[eval]int
}

// elem is the first identifier of elements of repetitions, whose failures are
// not stored.
const elem = 100

// memoized is a memo entry whose evaluations are recorded.
func (d *doc) memoized(id int, x *P) *P {
	rec := func(t []byte, src *input.Input, id, flag int) int {
		d.calls = append(d.calls, eval{id, src.Pos()})
		return 0
	}
	c := &P{Op: Check, A: E(), N: id, Checker: CheckerFunc(rec), Ref: func(m *M, t []byte, pos, id, flag int) int { return 0 }}
	p := MemoP(Cat(c, x))
	p.Flag = id
	p.Share = true
	return p
}

func (d *doc) open(p *P, text []byte, threshold int) {
	Note(p, text)
	prog, err := pattern.Compile(p.Build())
	sym.Assert(err == nil, "pattern does not compile")
	d.p, d.code, d.text, d.threshold = p, vm.Encode(prog), text, threshold
	d.tbl = &counted{memo.NewTreeTable(threshold), 0}
	d.known = map[eval]int{}
}

// parse parses and checks that nothing known is evaluated again.
func (d *doc) parse() {
	d.calls = nil
	d.tbl.gets = 0
	d.code.Exec(&Reader{B: d.text}, d.tbl)
	type res struct {
		stored bool
		far    int
	}
	first := map[eval]res{}
	m := &M{In: d.text}
	m.OnMemo = func(p *P, pos, n int, ok bool, own, far int) {
		k := eval{p.Flag, pos}
		if _, seen := first[k]; seen {
			return
		}
		stored := ok && n > 0 || !ok && p.Flag < elem
		if own-pos+1 < d.threshold {
			stored = false
		}
		first[k] = res{stored, far}
	}
	m.Run(d.p)
	most := 0
	for _, h := range d.known {
		if h > most {
			most = h
		}
	}
	seen := map[eval]bool{}
	sym.Obs(len(d.calls))
	for _, k := range d.calls {
		if _, ok := d.known[k]; ok {
			sym.Assert(false, fmt.Sprintf("known result evaluated again (entry %d)", k.id))
		}
		if seen[k] {
			sym.Assert(!first[k].stored, fmt.Sprintf("evaluated twice in one parse (entry %d)", k.id))
		}
		seen[k] = true
	}
	if len(d.known) > 0 && len(seen) > 0 {
		sym.Reach("partly known")
	} else if len(d.known) > 0 {
		sym.Reach("all known")
	}
	for k := range seen {
		if r := first[k]; r.stored {
			if r.far < most {
				r.far = most // may depend on results that depend on so much
			}
			d.known[k] = r.far
		}
	}
}

// near is how close to the examined text an edit may be to make the table
// forget a result.
const near = 3

func (d *doc) edit(start, end int, add []byte) {
	if sym.Native() {
		sym.Note(fmt.Sprintf("edit [%d,%d) := %q", start, end, add))
	}
	t := append([]byte{}, d.text[:start]...)
	t = append(t, add...)
	d.text = append(t, d.text[end:]...)
	d.tbl.ApplyEdit(memo.Edit{Start: start, End: end, Len: len(add)})
	left := map[eval]int{}
	by := len(add) - (end - start)
	for k, h := range d.known {
		if end+near <= k.pos {
			left[eval{k.id, k.pos + by}] = h + by
		} else if start > h+near {
			left[k] = h
		}
	}
	d.known = left
}

// change replaces, inserts or removes one byte anywhere.
func (d *doc) change() {
	k := sym.Concrete(sym.Choose(3))
	n := len(d.text)
	if k > 0 {
		n--
	}
	at := sym.Concrete(sym.Range(0, n))
	switch k {
	case 0:
		d.edit(at, at, sym.Bytes(1))
	case 1:
		d.edit(at, at+1, sym.Bytes(1))
	default:
		d.edit(at, at+1, nil)
	}
}

func not(s string) *P { return Cls(charset.New([]byte(s)).Complement()) }

const templates = 9

func (d *doc) template(i int) *P {
	any := AnyN(1)
	word := Un(Plus, not(";="))
	switch i {
	case 0:
		return Un(Star, Cat(d.memoized(1, word), L(";")))
	case 1: // the same entry in several alternatives
		m := d.memoized(1, Cat(any, Un(Opt, b())))
		return Or(Cat(m, L("!")), Cat(m, L("?")), Cat(m, Un(Star, Cat(m, Un(Opt, b())))))
	case 2: // recursion
		return Grammar("S", []string{"S", "A"}, []*P{Cat(NT("A"), Un(Opt, NT("S"))), d.memoized(1, Or(Cat(b(), NT("A")), any))})
	case 3: // nested entries
		return Un(Star, Cat(d.memoized(1, Cat(d.memoized(2, word), Un(Opt, Cat(L("="), d.memoized(3, word))))), L(";")))
	case 4: // failing entries
		return Un(Star, Or(d.memoized(1, Cat(any, b())), Cat(Un(Not, d.memoized(2, L(";"))), any), L(";")))
	case 5: // predicates
		m := d.memoized(1, Cat(not(";"), Un(Opt, not(";"))))
		return Un(Star, Or(Cat(Un(And, m), m), Cat(Un(Not, m), any)))
	case 6: // repetitions of entries
		return Un(Star, d.memoized(elem, Cat(word, L(";"))))
	case 7:
		return Un(Star, d.memoized(elem, Or(Cat(d.memoized(2, word), L(";")), any)))
	}
	return Cat(Un(Star, d.memoized(elem, Cat(word, L("=")))), Un(Star, d.memoized(elem+1, Cat(not("="), Un(Opt, L(";"))))))
}

// stmts is a text of n statements.
func stmts(n int) []byte {
	var t []byte
	for i := 0; i < n; i++ {
		t = append(t, "ab=c;;abc;"[i%3:i%3+3+i%2]...)
	}
	if sym.Thorough() {
		t[sym.Concrete(sym.Choose(len(t)))] = sym.Byte()
	}
	return t
}

// U_unchanged: parsing again.
//
// unit: budget=60
// bounds: 9 templates (entries alone, in alternatives, recursive, nested, failing, in predicates, as elements of repetitions), every byte in their literals, thresholds {0, 2, 4}, texts of 0..5 (thorough 6) arbitrary bytes, parsed 3 times
func U_unchanged() {
	d := &doc{}
	p := d.template(sym.Concrete(sym.Choose(templates)))
	d.open(p, Subject(sym.Pick(5, 6)), one(0, 2, 4))
	d.parse()
	d.parse()
	d.parse()
}

// U_edit: parsing after an edit.
//
// unit: budget=60
// bounds: the 9 templates, threshold {0, 2}, texts of 3 to 5 statements (10..17 bytes; thorough: one byte of them arbitrary), one byte replaced, inserted or removed anywhere, parsed again twice
func U_edit() {
	d := &doc{}
	p := d.template(sym.Concrete(sym.Choose(templates)))
	d.open(p, stmts(one(3, 4, 5)), one(0, 2))
	d.parse()
	d.change()
	d.parse()
	d.parse()
}

// U_edits: parsing after edits.
//
// unit: budget=60
// bounds: the 9 templates, threshold 0, a text of 12 (thorough 15 and 30) bytes, one byte replaced, inserted or removed anywhere, with or without parsing then, and again near the beginning or end
func U_edits() {
	d := &doc{}
	p := d.template(sym.Concrete(sym.Choose(templates)))
	t := []byte("ab=c;d;ef=g;hi;"[:sym.Pick(12, 15)])
	if sym.Thorough() && sym.Decide(sym.Bool()) {
		t = append(t, t...)
	}
	d.open(p, t, 0)
	d.parse()
	d.change()
	if sym.Decide(sym.Bool()) {
		d.parse()
	}
	if sym.Decide(sym.Bool()) {
		d.edit(1, 2, []byte("x"))
	} else {
		n := len(d.text)
		d.edit(n-2, n-2, []byte("y"))
	}
	d.parse()
	d.parse()
}

// U_runs: repetitions resume from combined runs.
//
// unit: budget=60
// bounds: a repetition over an entry of one or two arbitrary bytes, over texts of 31..33, 63, 64 and 100 elements with an arbitrary byte; lookups when parsed again and after the replacement of one byte anywhere
func U_runs() {
	d := &doc{}
	n := one(31, 32, 33, 63, 64, 100)
	in := make([]byte, n)
	for i := range in {
		in[i] = "ab"[i%2]
	}
	in[n/3] = sym.Byte()
	e := AnyN(1)
	if sym.Decide(sym.Bool()) {
		e = Cat(AnyN(1), Un(Opt, b()))
	}
	d.open(Un(Star, d.memoized(elem, e)), in, 0)
	d.parse()
	few := 2
	for k := n; k > 0; k /= 2 {
		few++
	}
	all := d.tbl.gets
	d.parse()
	sym.Obs(d.tbl.gets)
	sym.Assert(d.tbl.gets <= few, "runs of an unchanged repetition are not combined")
	at := []int{0, 1, n / 4, n / 2, n - 1}[sym.Concrete(sym.Choose(5))]
	d.edit(at, at+1, sym.Bytes(1))
	d.parse()
	sym.Assert(d.tbl.gets <= 2*few+8, "runs beside an edit are not reused")
	d.parse()
	sym.Assert(d.tbl.gets <= 2*few+8, "runs beside an edit are not reused later")
	if all > n/2 {
		sym.Reach("many elements")
	}
}
