package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

type varInfo struct {
	w     uint8
	order bool // internal map-order choice, not part of the input vector
}

type comp struct {
	vars []uint64
	cons []*Expr
}

// Path is the state of one execution of a harness.
type Path struct {
	prefix   []uint64 // decisions to replay
	pos      int
	trace    []uint64
	model    []uint64
	comps    []*comp
	known    map[*Expr]bool
	vars     []varInfo
	steps    int
	maxSteps int
	cells    int
	mapOrder int
	orders   map[int][]int
	asserts  int
	obs      []obsItem
	reach    map[string]bool
	locks map[*Value]*lockState
	pools map[*Value][]Value
	notes    map[string]bool
	input    []string
	fwd      int
}

type obsItem struct {
	v Value
	w uint8
}

type item struct {
	prefix []uint64
	model  []uint64
}

// Unit is one harness function.
type Unit struct {
	Name    string
	Doc     string
	Bounds  string
	Budget  float64 // seconds, 0 = share of the rest
	Steps   int
	KF      string // what fails here, if that is a known finding
	kfMsg   string // and the message it fails with
	tier    string
	mu      sync.Mutex
	cond    *sync.Cond
	work    []item
	busy    int
	stop    bool
	timedUp bool

	paths, okPaths, assumed, limits, unknowns int64
	steps, asserts, symAsserts, decisions     int64
	reach                                     map[string]int64
	cands                                     []*Cand
	samples                                   []*Sample
	errs                                      []string
	wall                                      float64
	pending                                   int
	limitMsgs                                 map[string]int
}

type Cand struct {
	Unit   string
	Kind   string
	Msg    string
	Vec    []uint64
	Widths []uint8
	order  bool
}

type Sample struct {
	Vec []uint64
	Obs []string
}

func (vm *VM) newPathVar(w uint8, order bool) *Expr {
	p := vm.p
	i := len(p.vars)
	if i >= 4000 {
		vm.end(endLimit, "too many symbolic variables")
	}
	p.vars = append(p.vars, varInfo{w, order})
	if len(p.model) < len(p.vars) {
		p.model = append(p.model, 0)
	}
	return vm.ctx.Var(i, w)
}

func (p *Path) addCons(e *Expr) {
	p.known[e] = true
	var hit *comp
	n := p.comps[:0]
	for _, c := range p.comps {
		if interBits(c.vars, e.vars) {
			if hit == nil {
				hit = c
				n = append(n, c)
			} else {
				hit.vars = orBits(hit.vars, c.vars)
				hit.cons = append(hit.cons, c.cons...)
			}
		} else {
			n = append(n, c)
		}
	}
	p.comps = n
	if hit == nil {
		p.comps = append(p.comps, &comp{vars: e.vars, cons: []*Expr{e}})
		return
	}
	hit.vars = orBits(hit.vars, e.vars)
	hit.cons = append(hit.cons, e)
}

// query decides (path constraints relevant to e) and e.
func (vm *VM) query(e *Expr) (*qres, []uint64) {
	es := []*Expr{e}
	for _, c := range vm.p.comps {
		if interBits(c.vars, e.vars) {
			es = append(es, c.cons...)
		}
	}
	r := vm.sol.Check(es)
	if r.r != rSat {
		return r, nil
	}
	m := append([]uint64(nil), vm.p.model...)
	for _, v := range r.vals {
		m[v.idx] = v.val
	}
	return r, m
}

const (
	dTrue   = 1
	dForced = 2
)

func (vm *VM) decideV(v Value) bool {
	if v.O == nil {
		return v.N != 0
	}
	return vm.decide(v.O.(*Expr))
}

// decide picks a direction for a symbolic condition; the other direction, if
// feasible, becomes a pending path.
func (vm *VM) decide(c *Expr) bool {
	if c.Op == OConst {
		return c.V != 0
	}
	p := vm.p
	if p.known[c] {
		return true
	}
	nc := vm.ctx.Not(c)
	if p.known[nc] {
		return false
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, d)
		t := d&dTrue != 0
		k := c
		if !t {
			k = nc
		}
		if d&dForced == 0 {
			p.addCons(k)
		} else {
			p.known[k] = true
		}
		return t
	}
	vm.checkStop()
	t := vm.ctx.Eval(c, p.model) != 0
	k, o := c, nc
	var d uint64
	if t {
		d = dTrue
	} else {
		k, o = nc, c
	}
	r, m := vm.query(o)
	switch r.r {
	case rSat:
		pre := make([]uint64, len(p.trace)+1)
		copy(pre, p.trace)
		pre[len(p.trace)] = d ^ dTrue
		vm.push(item{pre, m})
		p.addCons(k)
	case rUnsat:
		d |= dForced
		p.known[k] = true
	default:
		atomic.AddInt64(&vm.unit.unknowns, 1)
		p.addCons(k)
	}
	p.trace = append(p.trace, d)
	atomic.AddInt64(&vm.unit.decisions, 1)
	return t
}

// concretize forks over the values of e.
func (vm *VM) concretize(e *Expr) uint64 {
	for n := 0; ; n++ {
		if e.Op == OConst {
			return e.V
		}
		if n > 600 {
			vm.end(endLimit, "too many values to concretize")
		}
		p := vm.p
		var v uint64
		if p.pos < len(p.prefix) {
			v = p.prefix[p.pos]
			p.pos++
		} else {
			v = vm.ctx.Eval(e, p.model)
		}
		p.trace = append(p.trace, v)
		if vm.decide(vm.ctx.Eq(e, vm.ctx.Const(v, e.W))) {
			return v
		}
	}
}

func (vm *VM) orderChoice(n int) int {
	v := vm.newPathVar(8, true)
	vm.assume(vm.ctx.Ult(v, vm.ctx.Const(uint64(n), 8)))
	return int(vm.concretize(v))
}

func (vm *VM) assume(c *Expr) {
	if c.Op == OConst {
		if c.V == 0 {
			vm.end(endAssume, "")
		}
		return
	}
	p := vm.p
	if p.known[c] {
		return
	}
	if p.known[vm.ctx.Not(c)] {
		vm.end(endAssume, "")
	}
	if p.pos < len(p.prefix) {
		p.addCons(c)
		return
	}
	if vm.ctx.Eval(c, p.model) != 0 {
		p.addCons(c)
		return
	}
	r, m := vm.query(c)
	switch r.r {
	case rSat:
		p.model = m
		p.addCons(c)
	case rUnsat:
		vm.end(endAssume, "")
	default:
		atomic.AddInt64(&vm.unit.unknowns, 1)
		vm.end(endLimit, "solver unknown in assume")
	}
}

func (vm *VM) assert(c Value, msg string) {
	p := vm.p
	p.asserts++
	if c.O == nil {
		if c.N == 0 {
			vm.end(endViolated, msg)
		}
		return
	}
	e := c.O.(*Expr)
	if e.Op == OConst {
		if e.V == 0 {
			vm.end(endViolated, msg)
		}
		return
	}
	if p.known[e] {
		return
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, d)
		if d == 1 {
			p.addCons(e)
		} else {
			p.known[e] = true
		}
		return
	}
	atomic.AddInt64(&vm.unit.symAsserts, 1)
	r, m := vm.query(vm.ctx.Not(e))
	switch r.r {
	case rUnsat:
		p.trace = append(p.trace, 0)
		p.known[e] = true
		return
	case rSat:
		old := p.model
		p.model = m
		vm.candidate("assert", msg)
		p.model = old
		if vm.ctx.Eval(e, p.model) == 0 {
			r, m := vm.query(e)
			if r.r != rSat {
				vm.end(endViolated, "")
			}
			p.model = m
		}
		p.trace = append(p.trace, 1)
		p.addCons(e)
	default:
		atomic.AddInt64(&vm.unit.unknowns, 1)
		if vm.ctx.Eval(e, p.model) == 0 {
			vm.end(endViolated, msg)
		}
		p.trace = append(p.trace, 1)
		p.addCons(e)
	}
}

func (vm *VM) vector() ([]uint64, []uint8) {
	var v []uint64
	var w []uint8
	for i, vi := range vm.p.vars {
		if vi.order {
			continue
		}
		v = append(v, vm.p.model[i]&maskW(vi.w))
		w = append(w, vi.w)
	}
	return v, w
}

func (vm *VM) candidate(kind, msg string) {
	vec, w := vm.vector()
	c := &Cand{Unit: vm.unit.Name, Kind: kind, Msg: msg, Vec: vec, Widths: w}
	for _, vi := range vm.p.vars {
		if vi.order {
			c.order = true
		}
	}
	vm.eng.addCand(vm.unit, c)
}

func (vm *VM) checkStop() {
	u := vm.unit
	if u.stop {
		vm.end(endLimit, "stopped")
	}
}

func (vm *VM) push(it item) {
	u := vm.unit
	u.mu.Lock()
	u.work = append(u.work, it)
	if u.busy < len(vm.eng.vms) {
		u.cond.Signal()
	}
	u.mu.Unlock()
}

// runPath executes the unit once.
func (vm *VM) runPath(it item) {
	u := vm.unit
	p := &Path{prefix: it.prefix, model: it.model, known: map[*Expr]bool{}, maxSteps: u.Steps}
	vm.p = p
	vm.sp, vm.depth, vm.top = 0, 0, nil
	if len(vm.ctx.tab) > 400000 {
		vm.ctx = newCtx()
		vm.sol.ctx = vm.ctx
	}
	var end pathEnd
	func() {
		defer func() {
			x := recover()
			switch t := x.(type) {
			case nil:
			case pathEnd:
				end = t
			case *targetPanic:
				end = pathEnd{endPanic, t.msg}
			case engineErr:
				end = pathEnd{endUnsupported, string(t)}
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					debug.PrintStack()
				}
				end = pathEnd{endUnsupported, fmt.Sprint("engine: ", x)}
			}
			if end.k == endUnsupported {
				s := end.msg + " [in"
				for f, n := vm.top, 0; f != nil && n < 12; f, n = f.caller, n+1 {
					s += " " + f.fn.name
				}
				end.msg = s + "]"
			}
		}()
		vm.call(vm.fnOf(vm.eng.units[u.Name]), nil, nil)
	}()
	for i := len(vm.undo) - 1; i >= 0; i-- {
		*vm.undo[i].p = vm.undo[i].old
	}
	vm.undo = vm.undo[:0]
	for i := len(vm.undoMaps) - 1; i >= 0; i-- {
		*vm.undoMaps[i].m = vm.undoMaps[i].old
	}
	vm.undoMaps = vm.undoMaps[:0]

	switch end.k {
	case endPanic:
		vm.candidate("panic", end.msg)
	case endHang:
		vm.candidate("hang", end.msg)
	case endStack:
		vm.candidate("stack", end.msg)
	case endViolated:
		if end.msg != "" {
			vm.candidate("assert", end.msg)
		}
	}
	u.mu.Lock()
	defer u.mu.Unlock()
	u.paths++
	u.steps += int64(p.steps)
	u.asserts += int64(p.asserts)
	for k := range p.reach {
		u.reach[k]++
	}
	switch end.k {
	case endOK:
		u.okPaths++
		if u.okPaths <= 8 || u.okPaths%97 == 0 || (u.okPaths&(u.okPaths-1)) == 0 {
			vm.sample()
		}
	case endAssume:
		u.assumed++
	case endLimit:
		if end.msg != "stopped" {
			u.limits++
			if u.limitMsgs == nil {
				u.limitMsgs = map[string]int{}
			}
			u.limitMsgs[end.msg]++
		} else {
			u.pending++
		}
	case endUnsupported:
		u.limits++
		if len(u.errs) < 5 {
			u.errs = append(u.errs, end.msg)
		}
	}
}

const maxSamples = 40

func (vm *VM) sample() {
	u := vm.unit
	for _, vi := range vm.p.vars {
		if vi.order {
			return
		}
	}
	if len(u.samples) >= maxSamples {
		// keep a spread: overwrite a rotating slot
		i := int(u.okPaths) % maxSamples
		u.samples[i] = vm.mkSample()
		return
	}
	u.samples = append(u.samples, vm.mkSample())
}

func (vm *VM) mkSample() *Sample {
	v, _ := vm.vector()
	s := &Sample{Vec: v}
	for _, o := range vm.p.obs {
		s.Obs = append(s.Obs, vm.obsString(o))
	}
	return s
}

func (vm *VM) obsString(o obsItem) string {
	switch x := o.v.O.(type) {
	case nil:
		return fmt.Sprint(signExt(o.v.N, o.w))
	case *Expr:
		return fmt.Sprint(signExt(vm.ctx.Eval(x, vm.p.model), x.W))
	case string:
		return fmt.Sprintf("%q", x)
	case *SStr:
		b := make([]byte, len(x.b))
		for i := range b {
			b[i] = byte(vm.ctx.Eval(vm.expr(x.b[i], 8), vm.p.model))
		}
		return fmt.Sprintf("%q", string(b))
	}
	return "?"
}

// explore runs a unit to completion or until its deadline.
func (e *Engine) explore(u *Unit, deadline time.Time) {
	u.cond = sync.NewCond(&u.mu)
	u.reach = map[string]int64{}
	u.work = []item{{}}
	t0 := time.Now()
	timer := time.AfterFunc(time.Until(deadline), func() {
		u.mu.Lock()
		u.stop = true
		u.timedUp = true
		u.cond.Broadcast()
		u.mu.Unlock()
	})
	var wg sync.WaitGroup
	for _, vm := range e.vms {
		wg.Add(1)
		go func(vm *VM) {
			defer wg.Done()
			vm.unit = u
			for {
				u.mu.Lock()
				for len(u.work) == 0 && u.busy > 0 && !u.stop {
					u.cond.Wait()
				}
				if u.stop || len(u.work) == 0 {
					u.cond.Broadcast()
					u.mu.Unlock()
					return
				}
				it := u.work[len(u.work)-1]
				u.work = u.work[:len(u.work)-1]
				u.busy++
				u.mu.Unlock()
				vm.runPath(it)
				u.mu.Lock()
				u.busy--
				if u.busy == 0 {
					u.cond.Broadcast()
				}
				u.mu.Unlock()
			}
		}(vm)
	}
	wg.Wait()
	timer.Stop()
	u.pending += len(u.work)
	if u.pending == 0 {
		u.timedUp = false
	}
	u.work = nil
	u.wall = time.Since(t0).Seconds()
}
