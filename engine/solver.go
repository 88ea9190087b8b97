package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var dumpF *os.File

func init() {
	if f := os.Getenv("GOSYM_DUMP"); f != "" {
		dumpF, _ = os.Create(f)
	}
}

type sres uint8

const (
	rUnsat sres = iota
	rSat
	rUnknown
)

type varVal struct {
	idx int
	val uint64
}

type qres struct {
	r    sres
	vals []varVal
}

const nshard = 64

type qcache struct {
	sh [nshard]struct {
		sync.Mutex
		m map[[2]uint64]*qres
	}
}

func newQCache() *qcache {
	q := &qcache{}
	for i := range q.sh {
		q.sh[i].m = make(map[[2]uint64]*qres)
	}
	return q
}

func (q *qcache) get(k [2]uint64) *qres {
	s := &q.sh[k[0]%nshard]
	s.Lock()
	defer s.Unlock()
	return s.m[k]
}

func (q *qcache) put(k [2]uint64, r *qres) {
	s := &q.sh[k[0]%nshard]
	s.Lock()
	s.m[k] = r
	s.Unlock()
}

type solverStats struct {
	queries, sat, unsat, unknown, hits int64
	nanos                              int64
}

// Solver drives the solver processes of one worker.
type Solver struct {
	ctx   *Ctx
	cache *qcache
	st    *solverStats
	vs    []*Expr
	bv    *proc
	lia   *proc
}

// proc is one solver process.
type proc struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.Closer
	out      *bufio.Reader
	declared map[string]bool
	nq       int
	timeout  int // ms
	bin      string
	logic    string
}

func newSolver(ctx *Ctx, cache *qcache, st *solverStats, bin string) *Solver {
	s := &Solver{ctx: ctx, cache: cache, st: st}
	s.bv = &proc{timeout: 10000, bin: bin, logic: "QF_BV"}
	s.lia = &proc{timeout: 10000, bin: bin, logic: "QF_LIA"}
	return s
}

func (s *Solver) close() {
	s.bv.close()
	s.lia.close()
}

func (s *proc) start() {
	s.declared = map[string]bool{}
	s.nq = 0
	args := []string{"-in", "-smt2"}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic("cannot start solver: " + err.Error())
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.inc = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-logic %s)\n", s.timeout, s.logic)
}

func (s *proc) close() {
	if s.cmd == nil {
		return
	}
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// Check decides the conjunction of es; the caller supplies the cache key.
func (s *Solver) Check(es []*Expr) *qres {
	sort.SliceStable(es, func(i, j int) bool { return es[i].S < es[j].S })
	key, vs := s.ctx.Canon(es, s.vs[:0])
	s.vs = vs
	r := s.cache.get(key)
	if r != nil {
		atomic.AddInt64(&s.st.hits, 1)
	} else {
		r = s.solve(es, vs)
		s.cache.put(key, r)
	}
	if r.r != rSat {
		return r
	}
	// translate the canonical variables back
	out := &qres{r: rSat, vals: make([]varVal, len(r.vals))}
	for i, v := range r.vals {
		out.vals[i] = varVal{int(vs[v.idx].V), v.val}
	}
	return out
}

func (s *Solver) solve(es, vs []*Expr) *qres {
	t0 := time.Now()
	res := &qres{r: rUnknown}
	if body, ok := s.ctx.printLin(es, vs); ok {
		res = s.lia.run(body, vs, linVar, func(w uint8) string { return "Int" })
		if dumpF != nil {
			fmt.Fprintf(dumpF, ";lia %v\n(push)\n%s(check-sat)\n(pop)\n", time.Since(t0), body)
		}
	}
	if res.r == rUnknown {
		var body strings.Builder
		s.ctx.Print(&body, es, vs)
		res = s.bv.run(body.String(), vs, varName, func(w uint8) string { return fmt.Sprintf("(_ BitVec %d)", w) })
		if dumpF != nil {
			fmt.Fprintf(dumpF, ";bv %v\n(push)\n%s(check-sat)\n(pop)\n", time.Since(t0), body.String())
		}
	}
	atomic.AddInt64(&s.st.queries, 1)
	switch res.r {
	case rSat:
		atomic.AddInt64(&s.st.sat, 1)
	case rUnsat:
		atomic.AddInt64(&s.st.unsat, 1)
	default:
		atomic.AddInt64(&s.st.unknown, 1)
	}
	atomic.AddInt64(&s.st.nanos, int64(time.Since(t0)))
	return res
}

// run decides one query.
func (s *proc) run(body string, vs []*Expr, name func(int, uint8) string, sort func(uint8) string) *qres {
	if s.cmd == nil {
		s.start()
	} else if s.nq > 3000 { // keep the solver's memory bounded
		s.close()
		s.start()
	}
	s.nq++
	for i, v := range vs {
		n := name(i, v.W)
		if !s.declared[n] {
			s.declared[n] = true
			t := "Bool"
			if v.W != 0 {
				t = sort(v.W)
			}
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", n, t)
		}
	}
	s.in.WriteString("(push)\n")
	s.in.WriteString(body)
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line := s.line()
	res := &qres{r: rUnknown}
	switch line {
	case "sat":
		res.r = rSat
		if len(vs) > 0 {
			s.in.WriteString("(get-value (")
			for i, v := range vs {
				s.in.WriteString(name(i, v.W))
				s.in.WriteByte(' ')
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			txt := s.sexp()
			vals, err := parseValues(txt)
			if err != nil {
				panic("solver output: " + err.Error() + ": " + txt)
			}
			for i, v := range vs {
				x, ok := vals[name(i, v.W)]
				if !ok {
					panic("solver output lacks " + name(i, v.W) + ": " + txt)
				}
				res.vals = append(res.vals, varVal{i, x})
			}
		}
	case "unsat":
		res.r = rUnsat
	case "unknown":
	default:
		panic("solver said: " + line + "\n" + body)
	}
	s.in.WriteString("(pop)\n")
	return res
}

func (s *proc) line() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic("solver died: " + err.Error())
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *proc) sexp() string {
	var sb strings.Builder
	depth := 0
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic("solver died")
		}
		if depth == 0 && b != '(' {
			if b == '\n' || b == ' ' || b == '\r' {
				continue
			}
			l, _ := s.out.ReadString('\n')
			return string(b) + l
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				return sb.String()
			}
		}
	}
}

func parseValues(t string) (map[string]uint64, error) {
	r := map[string]uint64{}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(t))
	for i := 0; i < len(f); {
		name := f[i]
		i++
		if i >= len(f) {
			return nil, fmt.Errorf("short")
		}
		v := f[i]
		switch {
		case v == "true":
			r[name] = 1
		case v == "false":
			r[name] = 0
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return nil, err
			}
			r[name] = x
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return nil, err
			}
			r[name] = x
		case v == "_":
			x, err := strconv.ParseUint(strings.TrimPrefix(f[i+1], "bv"), 10, 64)
			if err != nil {
				return nil, err
			}
			r[name] = x
			i += 2
		case v[0] >= '0' && v[0] <= '9':
			x, err := strconv.ParseUint(v, 10, 64)
			if err != nil {
				return nil, err
			}
			r[name] = x
		default:
			return nil, fmt.Errorf("value %q", v)
		}
		i++
	}
	return r, nil
}
