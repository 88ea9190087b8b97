// Package vsync runs threads under a scheduler whose decisions are part of the
// input vector. In a native replay it stands in for package sync inside of the
// code under test (the import is rewritten in a build overlay), and its locks
// are points where another thread may continue; the engine has models of
// package sync that do the same. Replays are built with the race detector; the
// scheduler hides its own synchronisation from it and reports that of the
// locks, so a race shows whenever the schedule does not order the accesses.
package vsync

import (
	"sync"
	"unsafe"

	"verif/harness/sym"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

// Pool is a sync.Pool that gives back what was put in last.
type Pool struct {
	New func() interface{}
	l   []interface{}
	a   byte
}

// Put is like sync.Pool's.
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	Point()
	raceAcquire(unsafe.Pointer(&p.a))
	p.l = append(p.l, x)
	raceReleaseMerge(unsafe.Pointer(&p.a))
}

// Get is like sync.Pool's.
func (p *Pool) Get() interface{} {
	Point()
	raceAcquire(unsafe.Pointer(&p.a))
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		raceReleaseMerge(unsafe.Pointer(&p.a))
		return x
	}
	raceReleaseMerge(unsafe.Pointer(&p.a))
	if p.New == nil {
		return nil
	}
	return p.New()
}

// Map is a sync.Map that is listed in the order of insertion.
type Map struct {
	m map[interface{}]interface{}
	l []interface{}
	a byte
}

func (m *Map) enter() {
	Point()
	raceAcquire(unsafe.Pointer(&m.a))
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
}

func (m *Map) leave() { raceReleaseMerge(unsafe.Pointer(&m.a)) }

func (m *Map) put(k, v interface{}) {
	if _, ok := m.m[k]; !ok {
		m.l = append(m.l, k)
	}
	m.m[k] = v
}

func (m *Map) drop(k interface{}) {
	delete(m.m, k)
	var l []interface{}
	for _, x := range m.l {
		if x != k {
			l = append(l, x)
		}
	}
	m.l = l
}

// Load is like sync.Map's.
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.enter()
	defer m.leave()
	v, ok := m.m[k]
	return v, ok
}

// Store is like sync.Map's.
func (m *Map) Store(k, v interface{}) {
	m.enter()
	defer m.leave()
	m.put(k, v)
}

// Swap is like sync.Map's.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.enter()
	defer m.leave()
	o, ok := m.m[k]
	m.put(k, v)
	return o, ok
}

// LoadOrStore is like sync.Map's.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.enter()
	defer m.leave()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.put(k, v)
	return v, false
}

// LoadAndDelete is like sync.Map's.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.enter()
	defer m.leave()
	o, ok := m.m[k]
	if ok {
		m.drop(k)
	}
	return o, ok
}

// Delete is like sync.Map's.
func (m *Map) Delete(k interface{}) {
	m.enter()
	defer m.leave()
	if _, ok := m.m[k]; ok {
		m.drop(k)
	}
}

// Clear is like sync.Map's.
func (m *Map) Clear() {
	m.enter()
	defer m.leave()
	m.m, m.l = nil, nil
}

// CompareAndSwap is like sync.Map's.
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.enter()
	defer m.leave()
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	m.m[k] = n
	return true
}

// Range is like sync.Map's.
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.enter()
	type ent struct{ k, v interface{} }
	var l []ent
	for _, k := range m.l {
		l = append(l, ent{k, m.m[k]})
	}
	m.leave()
	for _, e := range l {
		if !f(e.k, e.v) {
			return
		}
	}
}

const (
	always = iota
	free
	unwritten
)

type lock struct {
	w    bool
	r    int
	a, b byte // addresses of the orders writers and readers establish
}

//go:norace
func (l *lock) ready(kind int) bool {
	switch kind {
	case free:
		return !l.w && l.r == 0
	case unwritten:
		return !l.w
	}
	return true
}

type thread struct {
	resume, yield chan bool
	done          bool
	kind          int
	l             *lock
	pan           interface{}
}

var (
	cur  *thread
	join byte
)

//go:norace
func point(l *lock, kind int) {
	t := cur
	if t == nil {
		if l != nil && !l.ready(kind) {
			panic("deadlock")
		}
		return
	}
	t.l, t.kind = l, kind
	raceDisable()
	t.yield <- true
	<-t.resume
	raceEnable()
	t.l, t.kind = nil, always
}

// Point is a point where another thread may continue.
//
//go:norace
func Point() { point(nil, always) }

//go:norace
func finish(t *thread) {
	if x := recover(); x != nil {
		t.pan = x
	}
	t.done = true
	raceReleaseMerge(unsafe.Pointer(&join))
	raceDisable()
	t.yield <- true
	raceEnable()
}

//go:norace
func body(t *thread, f func()) {
	raceDisable()
	<-t.resume
	raceEnable()
	defer finish(t)
	f()
}

// Par runs the functions as threads, in every interleaving.
func Par(fs ...func()) { ParN(-1, fs...) }

// ParN runs the functions as threads, in every interleaving in which a thread
// that could continue is left for another one at most limit times.
//
//go:norace
func ParN(limit int, fs ...func()) {
	var prev *thread
	var ts []*thread
	for range fs {
		ts = append(ts, &thread{resume: make(chan bool), yield: make(chan bool)})
	}
	for i, f := range fs {
		go body(ts[i], f)
	}
	for {
		var run []*thread
		left, cont := false, false
		for _, t := range ts {
			if t.done {
				continue
			}
			left = true
			if t.l == nil || t.l.ready(t.kind) {
				run = append(run, t)
				cont = cont || t == prev
			}
		}
		if !left {
			break
		}
		if cont && limit == 0 {
			run = []*thread{prev}
		}
		if len(run) == 0 {
			sym.Assert(false, "deadlock")
		}
		t := run[sym.Choose(len(run))]
		if cont && t != prev && limit > 0 {
			limit--
		}
		prev, cur = t, t
		raceDisable()
		t.resume <- true
		<-t.yield
		raceEnable()
		cur = nil
		if t.pan != nil {
			panic(t.pan)
		}
	}
	raceAcquire(unsafe.Pointer(&join))
}

// Mutex replaces sync.Mutex.
type Mutex struct{ l lock }

//go:norace
func (l *lock) lock() {
	point(l, free)
	l.w = true
	raceAcquire(unsafe.Pointer(&l.a))
	raceAcquire(unsafe.Pointer(&l.b))
}

//go:norace
func (l *lock) tryLock() bool {
	point(l, always)
	if l.w || l.r > 0 {
		return false
	}
	l.w = true
	raceAcquire(unsafe.Pointer(&l.a))
	raceAcquire(unsafe.Pointer(&l.b))
	return true
}

//go:norace
func (l *lock) unlock() {
	if !l.w {
		panic("sync: unlock of unlocked mutex")
	}
	l.w = false
	raceReleaseMerge(unsafe.Pointer(&l.a))
}

//go:norace
func (l *lock) rlock() {
	point(l, unwritten)
	l.r++
	raceAcquire(unsafe.Pointer(&l.a))
}

//go:norace
func (l *lock) tryRLock() bool {
	point(l, always)
	if l.w {
		return false
	}
	l.r++
	raceAcquire(unsafe.Pointer(&l.a))
	return true
}

//go:norace
func (l *lock) runlock() {
	if l.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	l.r--
	raceReleaseMerge(unsafe.Pointer(&l.b))
}

func (m *Mutex) Lock()         { m.l.lock() }
func (m *Mutex) TryLock() bool { return m.l.tryLock() }
func (m *Mutex) Unlock()       { m.l.unlock() }

// RWMutex replaces sync.RWMutex.
type RWMutex struct{ l lock }

func (m *RWMutex) Lock()          { m.l.lock() }
func (m *RWMutex) TryLock() bool  { return m.l.tryLock() }
func (m *RWMutex) Unlock()        { m.l.unlock() }
func (m *RWMutex) RLock()         { m.l.rlock() }
func (m *RWMutex) TryRLock() bool { return m.l.tryRLock() }
func (m *RWMutex) RUnlock()       { m.l.runlock() }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker is RWMutex.RLocker of sync.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once replaces sync.Once.
type Once struct {
	l    lock
	done bool
}

// Do is Once.Do of sync.
//
//go:norace
func (o *Once) Do(f func()) {
	point(&o.l, unwritten)
	if !o.done {
		o.l.w = true
		f()
		o.l.w = false
		o.done = true
		raceReleaseMerge(unsafe.Pointer(&o.l.a))
	}
	raceAcquire(unsafe.Pointer(&o.l.a))
}

func init() { sym.Races = races }
