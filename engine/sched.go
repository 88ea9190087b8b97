package main

// Threads. vsync.Par runs functions as threads of which one runs at a time.
// A thread may be left for another one whenever it is about to acquire a lock
// or to perform an atomic operation, and when it ends; which one continues is a
// symbolic choice. Between these points every access to memory is checked
// against the happens-before order, so a path on which no race is reported
// stands for all finer interleavings of the same order of synchronisation.

const maxThreads = 6

type clock [maxThreads]uint32

func (c *clock) join(d *clock) {
	for i := range c {
		if d[i] > c[i] {
			c[i] = d[i]
		}
	}
}

type lockState struct {
	w    bool
	r    int
	relW clock // released by writers
	relR clock // released by readers
}

type thread struct {
	id      int
	fn      Value
	resume  chan bool
	yield   chan struct{}
	stack   []Value
	sp      int
	depth   int
	top     *frame
	started bool
	done    bool
	ready   func() bool
	pan     any
}

type killed struct{}

type access struct{ w, r clock }

type sched struct {
	ts    []*thread
	cur   *thread // nil: the main thread
	vc    [maxThreads]clock
	cells map[*Value]*access
	maps  map[*MapObj]*access
}

func (s *sched) tid() int {
	if s.cur == nil {
		return 0
	}
	return s.cur.id
}

func (vm *VM) lockOf(p *Value) *lockState {
	if p == nil {
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	if vm.p.locks == nil {
		vm.p.locks = map[*Value]*lockState{}
	}
	l := vm.p.locks[p]
	if l == nil {
		l = &lockState{}
		vm.p.locks[p] = l
	}
	return l
}

// syncPoint lets other threads run; it returns once ready holds.
func (vm *VM) syncPoint(ready func() bool) {
	s := vm.sched
	if s == nil || s.cur == nil {
		if ready != nil && !ready() {
			vm.end(endHang, "deadlock")
		}
		return
	}
	t := s.cur
	t.ready = ready
	t.yield <- struct{}{}
	if !<-t.resume {
		panic(killed{})
	}
	t.ready = nil
}

func (vm *VM) acquire(cs ...*clock) {
	if s := vm.sched; s != nil {
		for _, c := range cs {
			s.vc[s.tid()].join(c)
		}
	}
}

func (vm *VM) release(c *clock) {
	if s := vm.sched; s != nil {
		t := s.tid()
		c.join(&s.vc[t])
		s.vc[t][t]++
	}
}

// par runs the functions as threads; a thread that could continue is left for
// another one at most limit times (any number of times if negative).
func (vm *VM) par(limit int, fns []Value) {
	if vm.sched != nil {
		panic(engineErr("nested Par"))
	}
	if len(fns) >= maxThreads {
		panic(engineErr("too many threads"))
	}
	s := &sched{cells: map[*Value]*access{}, maps: map[*MapObj]*access{}}
	for i := range s.vc {
		s.vc[i][i] = 1
	}
	for i, f := range fns {
		t := &thread{id: i + 1, fn: f, resume: make(chan bool), yield: make(chan struct{})}
		t.stack = make([]Value, 1<<12)
		s.ts = append(s.ts, t)
		s.vc[t.id].join(&s.vc[0])
	}
	vm.sched = s
	defer func() {
		for _, t := range s.ts {
			if t.started && !t.done {
				t.resume <- false
				<-t.yield
			}
		}
		vm.sched = nil
	}()
	var prev *thread
	for {
		var run []*thread
		left, cont := false, false
		for _, t := range s.ts {
			if t.done {
				continue
			}
			left = true
			if t.ready == nil || t.ready() {
				run = append(run, t)
				cont = cont || t == prev
			}
		}
		if !left {
			return
		}
		if cont && limit == 0 {
			run = []*thread{prev}
		}
		if len(run) == 0 {
			vm.end(endViolated, "deadlock")
		}
		v := vm.choose(int64(len(run)))
		k := v.N
		if v.O != nil {
			k = vm.concretize(v.O.(*Expr))
		}
		if cont && run[k] != prev && limit > 0 {
			limit--
		}
		prev = run[k]
		vm.resumeThread(prev)
	}
}

func (vm *VM) resumeThread(t *thread) {
	s := vm.sched
	stack, sp, depth, top := vm.stack, vm.sp, vm.depth, vm.top
	vm.stack, vm.sp, vm.depth, vm.top = t.stack, t.sp, t.depth, t.top
	s.cur = t
	if t.started {
		t.resume <- true
	} else {
		t.started = true
		go func() {
			defer func() {
				x := recover()
				if _, ok := x.(killed); !ok {
					t.pan = x
				}
				t.done = true
				t.yield <- struct{}{}
			}()
			vm.callClosure(t.fn)
		}()
	}
	<-t.yield
	s.cur = nil
	t.stack, t.sp, t.depth, t.top = vm.stack, vm.sp, vm.depth, vm.top
	vm.stack, vm.sp, vm.depth, vm.top = stack, sp, depth, top
	if t.pan != nil {
		if _, ok := t.pan.(engineErr); ok {
			vm.top = t.top
		}
		panic(t.pan)
	}
}

// ---- data races ----

func (vm *VM) check(a *access, write bool) {
	s := vm.sched
	t := s.tid()
	c := &s.vc[t]
	for i := range c {
		if i != t && (a.w[i] > c[i] || write && a.r[i] > c[i]) {
			vm.end(endViolated, "data race")
		}
	}
	if write {
		a.w[t] = c[t]
	} else {
		a.r[t] = c[t]
	}
}

// touch records an access to a cell and all that is stored in it.
func (vm *VM) touch(p *Value, write bool) {
	s := vm.sched
	if s.cur == nil {
		return
	}
	if a, ok := p.O.(*Agg); ok {
		for i := range a.f {
			vm.touch(&a.f[i], write)
		}
		return
	}
	a := s.cells[p]
	if a == nil {
		a = &access{}
		s.cells[p] = a
	}
	vm.check(a, write)
}

func (vm *VM) touchAll(c []Value, write bool) {
	if vm.sched == nil || vm.sched.cur == nil {
		return
	}
	for i := range c {
		vm.touch(&c[i], write)
	}
}

func (vm *VM) touchMap(m *MapObj, write bool) {
	s := vm.sched
	if s == nil || s.cur == nil || m.sync {
		return
	}
	a := s.maps[m]
	if a == nil {
		a = &access{}
		s.maps[m] = a
	}
	vm.check(a, write)
}

// split moves what is known about a zero aggregate to its parts.
func (vm *VM) split(p *Value, f []Value) {
	if a := vm.sched.cells[p]; a != nil {
		for i := range f {
			b := *a
			vm.sched.cells[&f[i]] = &b
		}
	}
}

// ---- models of package sync ----

func cellOf(vm *VM, v Value) *Value {
	p, _ := v.O.(*Value)
	if p == nil {
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (vm *VM) atomicPoint(p *Value) {
	if vm.sched == nil || vm.sched.cur == nil {
		return
	}
	vm.syncPoint(nil)
	l := vm.lockOf(p)
	vm.acquire(&l.relW)
	vm.release(&l.relW)
}

func init() {
	lock := func(vm *VM, fn *Fn, args []Value) Value {
		l := vm.lockOf(cellOf(vm, args[0]))
		vm.syncPoint(func() bool { return !l.w && l.r == 0 })
		l.w = true
		vm.acquire(&l.relW, &l.relR)
		return Value{}
	}
	tryLock := func(vm *VM, fn *Fn, args []Value) Value {
		l := vm.lockOf(cellOf(vm, args[0]))
		vm.syncPoint(nil)
		if l.w || l.r > 0 {
			return Value{}
		}
		l.w = true
		vm.acquire(&l.relW, &l.relR)
		return Value{N: 1}
	}
	unlock := func(vm *VM, fn *Fn, args []Value) Value {
		l := vm.lockOf(cellOf(vm, args[0]))
		if !l.w {
			vm.end(endPanic, "sync: unlock of unlocked mutex")
		}
		l.w = false
		vm.release(&l.relW)
		return Value{}
	}
	for _, t := range []string{"Mutex", "RWMutex"} {
		intrinsics["(*sync."+t+").Lock"] = lock
		intrinsics["(*sync."+t+").TryLock"] = tryLock
		intrinsics["(*sync."+t+").Unlock"] = unlock
	}
	intrinsics["(*sync.RWMutex).RLock"] = func(vm *VM, fn *Fn, args []Value) Value {
		l := vm.lockOf(cellOf(vm, args[0]))
		vm.syncPoint(func() bool { return !l.w })
		l.r++
		vm.acquire(&l.relW)
		return Value{}
	}
	intrinsics["(*sync.RWMutex).TryRLock"] = func(vm *VM, fn *Fn, args []Value) Value {
		l := vm.lockOf(cellOf(vm, args[0]))
		vm.syncPoint(nil)
		if l.w {
			return Value{}
		}
		l.r++
		vm.acquire(&l.relW)
		return Value{N: 1}
	}
	intrinsics["(*sync.RWMutex).RUnlock"] = func(vm *VM, fn *Fn, args []Value) Value {
		l := vm.lockOf(cellOf(vm, args[0]))
		if l.r == 0 {
			vm.end(endPanic, "sync: RUnlock of unlocked RWMutex")
		}
		l.r--
		vm.release(&l.relR)
		return Value{}
	}
	intrinsics["(*sync.Once).Do"] = func(vm *VM, fn *Fn, args []Value) Value {
		p := cellOf(vm, args[0])
		l := vm.lockOf(p)
		vm.syncPoint(func() bool { return !l.w })
		a := vm.aggOf(p, vm.rtype(deref(fn.ssa.Params[0].Type())))
		last := &a.f[len(a.f)-1]
		if b, ok := last.O.(string); !ok || b != "done" {
			l.w = true
			vm.callClosure(args[1])
			l.w = false
			vm.setCell(last, Value{O: "done"})
			vm.release(&l.relW)
		}
		vm.acquire(&l.relW)
		return Value{}
	}
	intrinsics["(*sync.Pool).Put"] = func(vm *VM, fn *Fn, args []Value) Value {
		if args[1].O == nil {
			return Value{}
		}
		p := cellOf(vm, args[0])
		vm.atomicPoint(p)
		if vm.p.pools == nil {
			vm.p.pools = map[*Value][]Value{}
		}
		vm.p.pools[p] = append(vm.p.pools[p], args[1])
		return Value{}
	}
	intrinsics["(*sync.Pool).Get"] = func(vm *VM, fn *Fn, args []Value) Value {
		p := cellOf(vm, args[0])
		vm.atomicPoint(p)
		if l := vm.p.pools[p]; len(l) > 0 {
			vm.p.pools[p] = l[:len(l)-1]
			return l[len(l)-1]
		}
		rt := vm.rtype(deref(fn.ssa.Params[0].Type()))
		a := vm.aggOf(p, rt)
		f := a.f[len(a.f)-1] // New
		if f.O == nil {
			return Value{}
		}
		return vm.callClosure(f)
	}
	intrinsics["verif/harness/vsync.Par"] = func(vm *VM, fn *Fn, args []Value) Value {
		if s, _ := args[0].O.(*SliceV); s != nil {
			vm.par(-1, append([]Value(nil), s.a...))
		}
		return Value{}
	}
	intrinsics["verif/harness/vsync.ParN"] = func(vm *VM, fn *Fn, args []Value) Value {
		if s, _ := args[1].O.(*SliceV); s != nil {
			vm.par(int(vm.toInt(args[0], nil)), append([]Value(nil), s.a...))
		}
		return Value{}
	}
}
