package c04

import (
	"regexp/syntax"

	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	. "verif/harness/ref"
	"verif/harness/sym"
)

// machine executes an instruction list by the meaning isa documents for each
// instruction, with jump targets as list positions.
type machine struct {
	prog  isa.Program
	in    []byte
	ok    bool
	end   int
	caps  []*Node
	errs  []LogEnt
	gets  []event
	puts  []event
	check func(k isa.Checker, text []byte, id, flag int) int
}

type event struct{ id, pos, length int }

const (
	kRet = iota
	kChoice
	kMemo
	kTree
	kCap
	kCheck
)

type frame struct {
	kind, ip, pos, id, flag int
	caps                    []*Node
}

func (m *machine) at(l isa.Label) int {
	for i, x := range m.prog {
		if y, ok := x.(isa.Label); ok && y == l {
			return i
		}
	}
	panic("label")
}

func (m *machine) run() {
	var st []frame
	pos, ip := 0, 0
	addTo := func(c []*Node) {
		if len(st) == 0 {
			m.caps = append(m.caps, c...)
		} else {
			f := &st[len(st)-1]
			f.caps = append(f.caps[:len(f.caps):len(f.caps)], c...)
		}
	}
	pop := func() frame {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		return f
	}
	byteIs := func(f func(byte) bool) bool { return pos < len(m.in) && f(m.in[pos]) }
	for steps := 0; ; steps++ {
		if steps > 1<<20 {
			panic("steps")
		}
		fail := false
		if ip >= len(m.prog) {
			m.ok, m.end = true, pos
			return
		}
		insn := m.prog[ip]
		ip++
		switch t := insn.(type) {
		case isa.Label, isa.Nop:
		case isa.Char:
			if fail = !byteIs(func(b byte) bool { return b == t.Byte }); !fail {
				pos++
			}
		case isa.Set:
			if fail = !byteIs(func(b byte) bool { return Has(t.Chars, b) }); !fail {
				pos++
			}
		case isa.Any:
			if fail = pos+int(t.N) > len(m.in); !fail {
				pos += int(t.N)
			}
		case isa.Span:
			for byteIs(func(b byte) bool { return Has(t.Chars, b) }) {
				pos++
			}
		case isa.Jump:
			ip = m.at(t.Lbl)
		case isa.Choice:
			st = append(st, frame{kind: kChoice, ip: m.at(t.Lbl), pos: pos})
		case isa.Call:
			st = append(st, frame{kind: kRet, ip: ip})
			ip = m.at(t.Lbl)
		case isa.Return:
			f := pop()
			addTo(f.caps)
			ip = f.ip
		case isa.Commit:
			f := pop()
			addTo(f.caps)
			ip = m.at(t.Lbl)
		case isa.PartialCommit:
			f := pop()
			addTo(f.caps)
			st = append(st, frame{kind: kChoice, ip: f.ip, pos: pos})
			ip = m.at(t.Lbl)
		case isa.BackCommit:
			f := pop()
			addTo(f.caps)
			pos, ip = f.pos, m.at(t.Lbl)
		case isa.Fail:
			fail = true
		case isa.FailTwice:
			pop()
			fail = true
		case isa.Empty:
			mm := &M{In: m.in}
			fail = !mm.Assertion(syntax.EmptyOp(t.Op), pos)
		case isa.TestChar:
			if byteIs(func(b byte) bool { return b == t.Byte }) {
				st = append(st, frame{kind: kChoice, ip: m.at(t.Lbl), pos: pos})
				pos++
			} else {
				ip = m.at(t.Lbl)
			}
		case isa.TestCharNoChoice:
			if byteIs(func(b byte) bool { return b == t.Byte }) {
				pos++
			} else {
				ip = m.at(t.Lbl)
			}
		case isa.TestSet:
			if byteIs(func(b byte) bool { return Has(t.Chars, b) }) {
				st = append(st, frame{kind: kChoice, ip: m.at(t.Lbl), pos: pos})
				pos++
			} else {
				ip = m.at(t.Lbl)
			}
		case isa.TestSetNoChoice:
			if byteIs(func(b byte) bool { return Has(t.Chars, b) }) {
				pos++
			} else {
				ip = m.at(t.Lbl)
			}
		case isa.TestAny:
			if pos+int(t.N) <= len(m.in) {
				st = append(st, frame{kind: kChoice, ip: m.at(t.Lbl), pos: pos})
				pos += int(t.N)
			} else {
				ip = m.at(t.Lbl)
			}
		case isa.CaptureBegin:
			st = append(st, frame{kind: kCap, id: t.Id, pos: pos})
		case isa.CaptureLate:
			st = append(st, frame{kind: kCap, id: t.Id, pos: pos - int(t.Back)})
		case isa.CaptureFull:
			addTo([]*Node{{Id: t.Id, Start: pos - int(t.Back), Len: int(t.Back)}})
		case isa.CaptureEnd:
			f := pop()
			addTo([]*Node{{Id: f.id, Start: f.pos, Len: pos - f.pos, Kids: f.caps}})
		case isa.MemoOpen:
			m.gets = append(m.gets, event{t.Id, pos, 0})
			st = append(st, frame{kind: kMemo, id: t.Id, pos: pos})
		case isa.MemoClose:
			f := pop()
			addTo(f.caps)
			m.puts = append(m.puts, event{f.id, f.pos, pos - f.pos})
		case isa.MemoTreeOpen:
			m.gets = append(m.gets, event{t.Id, pos, 0})
			st = append(st, frame{kind: kTree, id: t.Id, pos: pos})
		case isa.MemoTreeInsert:
			f := st[len(st)-1]
			m.puts = append(m.puts, event{f.id, f.pos, pos - f.pos})
		case isa.MemoTreeClose:
			for len(st) > 0 && st[len(st)-1].kind == kTree && st[len(st)-1].id == t.Id {
				f := pop()
				addTo(f.caps)
			}
		case isa.CheckBegin:
			st = append(st, frame{kind: kCheck, id: t.Id, flag: t.Flag, pos: pos})
		case isa.CheckEnd:
			f := pop()
			addTo(f.caps)
			n := m.check(t.Checker, m.in[f.pos:pos], f.id, f.flag)
			if n < 0 {
				fail = true
			} else {
				// a checker may only ask for bytes that are there
				sym.Assume(pos+n <= len(m.in))
				pos += n
			}
		case isa.Error:
			m.errs = append(m.errs, LogEnt{Pos: pos, Msg: t.Message})
		case isa.End:
			m.ok, m.end = !t.Fail, pos
			if t.Fail {
				m.caps = nil
			}
			return
		default:
			panic("instruction")
		}
		for fail {
			if len(st) == 0 {
				m.ok, m.end, m.caps = false, pos, nil
				return
			}
			f := pop()
			switch f.kind {
			case kChoice:
				ip, pos, fail = f.ip, f.pos, false
			case kMemo:
				m.puts = append(m.puts, event{f.id, f.pos, -1})
			}
		}
	}
}

// recorder is a memo table that finds nothing and records what it is asked.
type recorder struct{ gets, puts []event }

func (r *recorder) Get(id, pos int) (*memo.Entry, bool) {
	r.gets = append(r.gets, event{id, pos, 0})
	return nil, false
}
func (r *recorder) Put(id, start, length, examined, count int, captures []*memo.Capture) {
	r.puts = append(r.puts, event{id, start, length})
}
func (r *recorder) ApplyEdit(memo.Edit)      {}
func (r *recorder) AllValues() []*memo.Entry { return nil }
func (r *recorder) Size() int                { return 0 }
