package main

import (
	"fmt"
	"go/types"
	"reflect"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value of the interpreted program. Scalars are N (O nil)
// or a symbolic term (O *Expr). Every zero value is Value{}; aggregates are
// materialised on demand.
type Value struct {
	N uint64
	O any
}

type Agg struct{ f []Value }     // struct, array, tuple
type SStr struct{ b []Value }    // string with symbolic bytes
type SliceV struct{ a []Value }  // slice
type Iface struct {
	t *RType
	v Value
}
type Closure struct {
	fn  *Fn
	env []Value
	bi  *ssa.Builtin
}
type SymPtr struct {
	cells []Value
	idx   *Expr
}
type DataPtr struct{ a []Value } // unsafe.SliceData / StringData

type MapEnt struct {
	k, v Value
	key  any // nil if symbolic
	dead bool
}
type MapObj struct {
	idx  map[any]*MapEnt
	ents []*MapEnt
	nsym int
	live int
	base bool
	sync bool // a sync.Map's
}
type MapIter struct {
	m     *MapObj
	i     int
	perm  []*MapEnt
	order bool
}
type StrIter struct {
	b []Value
	i int
}

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KFloat
	KString
	KPtr
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
)

type RType struct {
	T       types.Type
	K       Kind
	W       uint8
	Signed  bool
	Elem    *RType
	Key     *RType
	Fields  []*RType
	Len     int
	Size    int64
	HasPtr  bool
	methods map[string]*Fn
	impl    map[types.Type]bool
}

func (r *RType) agg() bool { return r.K == KStruct || r.K == KArray }

func (vm *VM) rtype(t types.Type) *RType {
	if r, ok := vm.rtFast[t]; ok {
		return r
	}
	if x := vm.rtMap.At(t); x != nil {
		r := x.(*RType)
		vm.rtFast[t] = r
		return r
	}
	r := &RType{T: t, methods: map[string]*Fn{}, impl: map[types.Type]bool{}}
	vm.rtMap.Set(t, r)
	vm.rtFast[t] = r
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			r.K = KBool
		case types.Int, types.Int64, types.UntypedInt:
			r.K, r.W, r.Signed = KInt, 64, true
		case types.Int8:
			r.K, r.W, r.Signed = KInt, 8, true
		case types.Int16:
			r.K, r.W, r.Signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			r.K, r.W, r.Signed = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			r.K, r.W = KInt, 64
		case types.Uint8:
			r.K, r.W = KInt, 8
		case types.Uint16:
			r.K, r.W = KInt, 16
		case types.Uint32:
			r.K, r.W = KInt, 32
		case types.Float64, types.UntypedFloat:
			r.K, r.W = KFloat, 64
		case types.Float32:
			r.K, r.W = KFloat, 32
		case types.String, types.UntypedString:
			r.K = KString
			r.HasPtr = true
		case types.UnsafePointer, types.UntypedNil:
			r.K = KPtr
			r.HasPtr = true
		}
	case *types.Pointer:
		r.K = KPtr
		r.HasPtr = true
	case *types.Slice:
		r.K = KSlice
		r.Elem = vm.rtype(u.Elem())
		r.HasPtr = true
	case *types.Map:
		r.K = KMap
		r.Key = vm.rtype(u.Key())
		r.Elem = vm.rtype(u.Elem())
		r.HasPtr = true
	case *types.Chan:
		r.K = KChan
		r.HasPtr = true
	case *types.Signature:
		r.K = KFunc
		r.HasPtr = true
	case *types.Interface:
		r.K = KIface
		r.HasPtr = true
	case *types.Struct:
		r.K = KStruct
		for i := 0; i < u.NumFields(); i++ {
			f := vm.rtype(u.Field(i).Type())
			r.Fields = append(r.Fields, f)
			r.HasPtr = r.HasPtr || f.HasPtr
		}
	case *types.Array:
		r.K = KArray
		r.Elem = vm.rtype(u.Elem())
		r.Len = int(u.Len())
		r.HasPtr = r.Elem.HasPtr
	case *types.Tuple:
		r.K = KTuple
		for i := 0; i < u.Len(); i++ {
			r.Fields = append(r.Fields, vm.rtype(u.At(i).Type()))
		}
		return r
	default:
		return r
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		if t = types.Default(t); t == types.Typ[types.UntypedNil] {
			t = types.Typ[types.UnsafePointer]
		}
	}
	r.Size = vm.sizes.Sizeof(t)
	return r
}

func (vm *VM) newCell() *Value {
	if vm.initing {
		return &vm.slabAlloc(1)[0]
	}
	return new(Value)
}

func (vm *VM) newCells(n int) []Value {
	if vm.initing && n > 0 {
		return vm.slabAlloc(n)
	}
	vm.p.cells += n
	if vm.p.cells > 40_000_000 {
		vm.end(endLimit, "memory limit")
	}
	return make([]Value, n)
}

func (vm *VM) slabAlloc(n int) []Value {
	if vm.slabUsed+n > len(vm.slab) {
		panic(engineErr("init slab exhausted"))
	}
	s := vm.slab[vm.slabUsed : vm.slabUsed+n : vm.slabUsed+n]
	vm.slabUsed += n
	return s
}

func (vm *VM) inBase(p *Value) bool {
	return uintptr(unsafe.Pointer(p))-vm.slabLo < vm.slabSize
}

type undoRec struct {
	p   *Value
	old Value
}

func (vm *VM) setCell(p *Value, v Value) {
	if !vm.initing && vm.inBase(p) {
		vm.undo = append(vm.undo, undoRec{p, *p})
	}
	*p = v
}

// aggOf returns the aggregate stored in a cell of aggregate type,
// materialising the zero value.
func (vm *VM) aggOf(p *Value, rt *RType) *Agg {
	if p.O == nil {
		n := rt.Len
		if rt.K == KStruct {
			n = len(rt.Fields)
		}
		vm.setCell(p, Value{O: &Agg{f: vm.newCells(n)}})
		if vm.sched != nil {
			vm.split(p, p.O.(*Agg).f)
		}
	}
	return p.O.(*Agg)
}

func (vm *VM) copyVal(v Value) Value {
	a, ok := v.O.(*Agg)
	if !ok {
		return v
	}
	f := vm.newCells(len(a.f))
	for i := range a.f {
		x := a.f[i]
		if x.O != nil {
			x = vm.copyVal(x)
		}
		f[i] = x
	}
	return Value{O: &Agg{f: f}}
}

// storeVal writes v into the cell; aggregates are copied element-wise so that
// pointers into the destination stay valid.
func (vm *VM) storeVal(p *Value, v Value) {
	da, dok := p.O.(*Agg)
	sa, sok := v.O.(*Agg)
	switch {
	case dok && sok:
		for i := range da.f {
			vm.storeVal(&da.f[i], sa.f[i])
		}
	case dok: // zero
		for i := range da.f {
			vm.storeVal(&da.f[i], Value{})
		}
	case sok:
		vm.setCell(p, vm.copyVal(v))
	default:
		vm.setCell(p, v)
	}
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.O.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(engineErr(fmt.Sprintf("strLen %T", v.O)))
}

func strBytes(v Value) []Value {
	switch s := v.O.(type) {
	case nil:
		return nil
	case string:
		b := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			b[i].N = uint64(s[i])
		}
		return b
	case *SStr:
		return s.b
	}
	panic(engineErr(fmt.Sprintf("strBytes %T", v.O)))
}

func mkStr(b []Value) Value {
	for i := range b {
		if b[i].O != nil {
			c := make([]Value, len(b))
			copy(c, b)
			return Value{O: &SStr{c}}
		}
	}
	if len(b) == 0 {
		return Value{}
	}
	s := make([]byte, len(b))
	for i := range b {
		s[i] = byte(b[i].N)
	}
	return Value{O: string(s)}
}

func strConst(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{O: s}
}

func strSlice(v Value, lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	switch s := v.O.(type) {
	case string:
		return Value{O: s[lo:hi]}
	case *SStr:
		return mkStr(s.b[lo:hi])
	}
	return Value{}
}

func strConcat(a, b Value) Value {
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	x, ok1 := a.O.(string)
	y, ok2 := b.O.(string)
	if ok1 && ok2 {
		return Value{O: x + y}
	}
	xb, yb := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(xb)+len(yb))
	r = append(append(r, xb...), yb...)
	return Value{O: &SStr{r}}
}

// concrete string or ok=false
func strConcrete(v Value) (string, bool) {
	switch s := v.O.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

// ---- scalars ----

func (vm *VM) expr(v Value, w uint8) *Expr {
	if e, ok := v.O.(*Expr); ok {
		return e
	}
	if v.O != nil {
		panic(engineErr(fmt.Sprintf("expr of %T", v.O)))
	}
	if w == 0 {
		return vm.ctx.Bool(v.N != 0)
	}
	return vm.ctx.Const(v.N, w)
}

func val(e *Expr) Value {
	if e.Op == OConst {
		return Value{N: e.V}
	}
	return Value{O: e}
}

func bval(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}

// eqVal compares two values of the same type; the result is a boolean value.
func (vm *VM) eqVal(rt *RType, a, b Value) Value {
	switch rt.K {
	case KBool, KInt:
		if a.O == nil && b.O == nil {
			return bval(a.N == b.N)
		}
		return val(vm.ctx.Eq(vm.expr(a, rt.W), vm.expr(b, rt.W)))
	case KFloat:
		return bval(f64(a, rt) == f64(b, rt))
	case KString:
		x, ok1 := strConcrete(a)
		y, ok2 := strConcrete(b)
		if ok1 && ok2 {
			return bval(x == y)
		}
		if strLen(a) != strLen(b) {
			return Value{}
		}
		xb, yb := strBytes(a), strBytes(b)
		r := vm.ctx.True
		for i := range xb {
			r = vm.ctx.And(r, vm.ctx.Eq(vm.expr(xb[i], 8), vm.expr(yb[i], 8)))
		}
		return val(r)
	case KPtr, KMap, KChan:
		return bval(a.O == b.O)
	case KFunc, KSlice:
		return bval(a.O == nil && b.O == nil)
	case KIface:
		x, _ := a.O.(*Iface)
		y, _ := b.O.(*Iface)
		if x == nil || y == nil {
			return bval(x == nil && y == nil)
		}
		if x.t != y.t {
			return Value{}
		}
		switch x.t.K {
		case KSlice, KMap, KFunc:
			vm.rtPanic("comparing uncomparable type " + x.t.T.String())
		}
		return vm.eqVal(x.t, x.v, y.v)
	case KStruct, KArray:
		x, _ := a.O.(*Agg)
		y, _ := b.O.(*Agg)
		if x == nil && y == nil {
			return Value{N: 1}
		}
		n := rt.Len
		if rt.K == KStruct {
			n = len(rt.Fields)
		}
		r := vm.ctx.True
		for i := 0; i < n; i++ {
			ft := rt.Elem
			if rt.K == KStruct {
				ft = rt.Fields[i]
			}
			var p, q Value
			if x != nil {
				p = x.f[i]
			}
			if y != nil {
				q = y.f[i]
			}
			e := vm.eqVal(ft, p, q)
			r = vm.ctx.And(r, vm.expr(e, 0))
			if r.Op == OConst && r.V == 0 {
				break
			}
		}
		return val(r)
	}
	panic(engineErr("eqVal " + rt.T.String()))
}

// ---- maps ----

type ifaceKey struct {
	t *RType
	k any
}

// mapKey encodes a concrete key; ok is false if it has symbolic parts.
func (vm *VM) mapKey(rt *RType, v Value) (any, bool) {
	switch rt.K {
	case KBool, KInt, KFloat:
		if v.O != nil {
			return nil, false
		}
		return v.N, true
	case KString:
		s, ok := strConcrete(v)
		return s, ok
	case KPtr, KChan:
		return v.O, true
	case KIface:
		x, _ := v.O.(*Iface)
		if x == nil {
			return ifaceKey{}, true
		}
		switch x.t.K {
		case KSlice, KMap, KFunc:
			vm.rtPanic("hash of unhashable type " + x.t.T.String())
		}
		k, ok := vm.mapKey(x.t, x.v)
		return ifaceKey{x.t, k}, ok
	case KStruct, KArray:
		n := rt.Len
		if rt.K == KStruct {
			n = len(rt.Fields)
		}
		a, _ := v.O.(*Agg)
		arr := reflect.New(reflect.ArrayOf(n, reflect.TypeOf((*any)(nil)).Elem())).Elem()
		for i := 0; i < n; i++ {
			ft := rt.Elem
			if rt.K == KStruct {
				ft = rt.Fields[i]
			}
			var x Value
			if a != nil {
				x = a.f[i]
			}
			k, ok := vm.mapKey(ft, x)
			if !ok {
				return nil, false
			}
			if k != nil {
				arr.Index(i).Set(reflect.ValueOf(k))
			}
		}
		return arr.Interface(), true
	}
	panic(engineErr("mapKey " + rt.T.String()))
}

func newMap(base bool) *MapObj { return &MapObj{idx: map[any]*MapEnt{}, base: base} }

func (vm *VM) mapFind(m *MapObj, kt *RType, k Value) *MapEnt {
	key, ok := vm.mapKey(kt, k)
	vm.touchMap(m, false)
	if ok && m.nsym == 0 {
		return m.idx[key]
	}
	if ok {
		if e := m.idx[key]; e != nil {
			return e
		}
	}
	for _, e := range m.ents {
		if e.dead || (ok && e.key != nil) {
			continue
		}
		c := vm.eqVal(kt, e.k, k)
		if vm.decideV(c) {
			return e
		}
	}
	return nil
}

func (vm *VM) mapTouch(m *MapObj) {
	vm.touchMap(m, true)
	if m.base && !vm.initing {
		c := &MapObj{idx: map[any]*MapEnt{}, nsym: m.nsym, live: m.live, base: true, sync: m.sync}
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			ne := &MapEnt{k: e.k, v: e.v, key: e.key}
			c.ents = append(c.ents, ne)
			if e.key != nil {
				c.idx[e.key] = ne
			}
		}
		vm.undoMaps = append(vm.undoMaps, undoMap{m, *m})
		c.base = false
		*m = *c
	}
}

type undoMap struct {
	m   *MapObj
	old MapObj
}

func (vm *VM) mapSet(m *MapObj, kt *RType, k, v Value) {
	vm.mapTouch(m)
	if e := vm.mapFind(m, kt, k); e != nil {
		e.v = v
		return
	}
	key, ok := vm.mapKey(kt, k)
	e := &MapEnt{k: k, v: v}
	if ok {
		e.key = key
		m.idx[key] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.live++
}

func (vm *VM) mapDelete(m *MapObj, kt *RType, k Value) {
	vm.mapTouch(m)
	e := vm.mapFind(m, kt, k)
	if e == nil {
		return
	}
	e.dead = true
	m.live--
	if e.key != nil {
		delete(m.idx, e.key)
	} else {
		m.nsym--
	}
	if len(m.ents) > 32 && m.live*2 < len(m.ents) {
		var ne []*MapEnt
		for _, x := range m.ents {
			if !x.dead {
				ne = append(ne, x)
			}
		}
		m.ents = ne
	}
}
