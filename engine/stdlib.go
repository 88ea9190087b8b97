package main

import (
	"go/types"
	"math"
	"strings"
)

// Models of the parts of the standard library that need reflection or
// assembly.

func (vm *VM) anyType() *RType { return vm.rtype(types.NewInterfaceType(nil, nil)) }

// sliceArg is the slice in an argument of type any.
func (vm *VM) sliceArg(v Value) []Value {
	i, _ := v.O.(*Iface)
	if i == nil || i.t.K != KSlice {
		panic(engineErr("not a slice"))
	}
	if s, _ := i.v.O.(*SliceV); s != nil {
		return s.a
	}
	return nil
}

func (vm *VM) swapCells(a, b *Value) {
	vm.touched(a)
	vm.touched(b)
	x, y := vm.copyVal(*a), vm.copyVal(*b)
	vm.storeVal(a, y)
	vm.storeVal(b, x)
}

func sortSlice(vm *VM, fn *Fn, args []Value) Value {
	a := vm.sliceArg(args[0])
	for i := 1; i < len(a); i++ {
		for j := i; j > 0; j-- {
			if !vm.decideV(vm.callClosure(args[1], Value{N: uint64(j)}, Value{N: uint64(j - 1)})) {
				break
			}
			vm.swapCells(&a[j], &a[j-1])
		}
	}
	return Value{}
}

// method calls the method of an interface value without parameters.
func (vm *VM) unwrap(v Value) (Value, bool) {
	i, _ := v.O.(*Iface)
	if i == nil {
		return Value{}, false
	}
	sel := vm.eng.prog.MethodSets.MethodSet(i.t.T).Lookup(nil, "Unwrap")
	if sel == nil {
		return Value{}, false
	}
	sig := sel.Type().(*types.Signature)
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return Value{}, false
	}
	return vm.call(vm.fnOf(vm.eng.prog.MethodValue(sel)), []Value{i.v}, nil), true
}

// walkErrors calls f for the errors of a tree until it says true.
func (vm *VM) walkErrors(v Value, f func(i *Iface) bool) bool {
	for {
		i, _ := v.O.(*Iface)
		if i == nil {
			return false
		}
		if f(i) {
			return true
		}
		u, ok := vm.unwrap(v)
		if !ok {
			return false
		}
		if s, ok := u.O.(*SliceV); ok {
			for _, x := range s.a {
				if vm.walkErrors(x, f) {
					return true
				}
			}
			return false
		}
		v = u
	}
}

func (vm *VM) comparable(i *Iface) bool { return types.Comparable(i.t.T) }

// boolMethod calls a method of one parameter that answers a bool, if there is
// one.
func (vm *VM) boolMethod(i *Iface, name string, arg Value) bool {
	sel := vm.eng.prog.MethodSets.MethodSet(i.t.T).Lookup(nil, name)
	if sel == nil {
		return false
	}
	sig := sel.Type().(*types.Signature)
	if sig.Params().Len() != 1 || sig.Results().Len() != 1 {
		return false
	}
	return vm.decideV(vm.call(vm.fnOf(vm.eng.prog.MethodValue(sel)), []Value{i.v, arg}, nil))
}

func float1(f func(float64) float64) intrinsic {
	return func(vm *VM, fn *Fn, args []Value) Value {
		rt := vm.rtype(types.Typ[types.Float64])
		return fval(f(f64(args[0], rt)), rt)
	}
}

func (vm *VM) syncMap(v Value, fn *Fn) *MapObj {
	p := cellOf(vm, v)
	vm.atomicPoint(p)
	a := vm.aggOf(p, vm.rtype(deref(fn.ssa.Params[0].Type())))
	m, _ := a.f[0].O.(*MapObj)
	if m == nil {
		m = newMap(vm.initing)
		m.sync = true
		vm.setCell(&a.f[0], Value{O: m})
	}
	return m
}

func pair(a, b Value) Value { return Value{O: &Agg{[]Value{a, b}}} }

func init() {
	intrinsics["sort.Slice"] = sortSlice
	intrinsics["sort.SliceStable"] = sortSlice
	intrinsics["sort.SliceIsSorted"] = func(vm *VM, fn *Fn, args []Value) Value {
		for i := len(vm.sliceArg(args[0])) - 1; i > 0; i-- {
			if vm.decideV(vm.callClosure(args[1], Value{N: uint64(i)}, Value{N: uint64(i - 1)})) {
				return Value{}
			}
		}
		return bval(true)
	}

	intrinsics["errors.Is"] = func(vm *VM, fn *Fn, args []Value) Value {
		t, _ := args[1].O.(*Iface)
		if t == nil {
			return bval(args[0].O == nil)
		}
		return bval(vm.walkErrors(args[0], func(i *Iface) bool {
			if i.t == t.t && vm.comparable(t) && vm.decideV(vm.eqVal(t.t, i.v, t.v)) {
				return true
			}
			return vm.boolMethod(i, "Is", args[1])
		}))
	}
	intrinsics["errors.As"] = func(vm *VM, fn *Fn, args []Value) Value {
		t, _ := args[1].O.(*Iface)
		if t == nil || t.t.K != KPtr {
			vm.rtPanic("errors: target must be a non-nil pointer")
		}
		p := cellOf(vm, t.v)
		el := vm.rtype(deref(t.t.T))
		return bval(vm.walkErrors(args[0], func(i *Iface) bool {
			if el.K == KIface && vm.implements(i.t, el.T) {
				vm.touched(p)
				vm.storeVal(p, Value{O: i})
				return true
			}
			if el.K != KIface && i.t == el {
				vm.touched(p)
				vm.storeVal(p, i.v)
				return true
			}
			return vm.boolMethod(i, "As", args[1])
		}))
	}
	intrinsics["maps.clone"] = func(vm *VM, fn *Fn, args []Value) Value {
		i, _ := args[0].O.(*Iface)
		m, _ := i.v.O.(*MapObj)
		if m == nil {
			return args[0]
		}
		vm.touchMap(m, false)
		c := newMap(vm.initing)
		for _, e := range m.ents {
			if !e.dead {
				vm.mapSet(c, i.t.Key, vm.copyVal(e.k), vm.copyVal(e.v))
			}
		}
		return Value{O: &Iface{i.t, Value{O: c}}}
	}

	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc,
		"Sqrt": math.Sqrt, "Abs": math.Abs, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp, "Round": math.Round} {
		intrinsics["math."+n] = float1(f)
	}

	// errors that wrap others
	errorf := intrinsics["fmt.Errorf"]
	intrinsics["fmt.Errorf"] = func(vm *VM, fn *Fn, args []Value) Value {
		f, ok := strConcrete(args[0])
		if s, _ := args[1].O.(*SliceV); ok && s != nil && strings.Contains(f, "%w") {
			msg := vm.sprintf(args[0], args[1])
			n := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
					i++
				}
				if i < len(f) && f[i] == '%' {
					continue
				}
				if i < len(f) && f[i] == 'w' && n < len(s.a) {
					return vm.call(vm.fnOf(vm.eng.fn(symPkg, "WrapError")), []Value{msg, s.a[n]}, nil)
				}
				n++
			}
		}
		return errorf(vm, fn, args)
	}
	intrinsics["fmt.Sprintln"] = func(vm *VM, fn *Fn, args []Value) Value {
		var r Value
		if s, ok := args[0].O.(*SliceV); ok {
			for i, a := range s.a {
				if i > 0 {
					r = strConcat(r, strConst(" "))
				}
				r = strConcat(r, vm.format(a, 'v'))
			}
		}
		return strConcat(r, strConst("\n"))
	}
	fprint := func(text func(vm *VM, fn *Fn, args []Value) Value) intrinsic {
		return func(vm *VM, fn *Fn, args []Value) Value {
			s := text(vm, fn, args[1:])
			w, _ := args[0].O.(*Iface)
			if w == nil {
				vm.rtPanic("invalid memory address or nil pointer dereference")
			}
			sel := vm.eng.prog.MethodSets.MethodSet(w.t.T).Lookup(nil, "Write")
			c := vm.newCells(strLen(s))
			copy(c, strBytes(s))
			return vm.call(vm.fnOf(vm.eng.prog.MethodValue(sel)), []Value{w.v, {O: &SliceV{c}}}, nil)
		}
	}
	intrinsics["fmt.Fprintf"] = fprint(intrinsics["fmt.Sprintf"])
	intrinsics["fmt.Fprint"] = fprint(intrinsics["fmt.Sprint"])
	intrinsics["fmt.Fprintln"] = fprint(intrinsics["fmt.Sprintln"])

	const sm = "(*sync.Map)."
	get := func(vm *VM, m *MapObj, k Value) (Value, bool) {
		if e := vm.mapFind(m, vm.anyType(), k); e != nil {
			return e.v, true
		}
		return Value{}, false
	}
	intrinsics[sm+"Load"] = func(vm *VM, fn *Fn, args []Value) Value {
		v, ok := get(vm, vm.syncMap(args[0], fn), args[1])
		return pair(v, bval(ok))
	}
	intrinsics[sm+"Store"] = func(vm *VM, fn *Fn, args []Value) Value {
		vm.mapSet(vm.syncMap(args[0], fn), vm.anyType(), args[1], args[2])
		return Value{}
	}
	intrinsics[sm+"Swap"] = func(vm *VM, fn *Fn, args []Value) Value {
		m := vm.syncMap(args[0], fn)
		v, ok := get(vm, m, args[1])
		vm.mapSet(m, vm.anyType(), args[1], args[2])
		return pair(v, bval(ok))
	}
	intrinsics[sm+"LoadOrStore"] = func(vm *VM, fn *Fn, args []Value) Value {
		m := vm.syncMap(args[0], fn)
		if v, ok := get(vm, m, args[1]); ok {
			return pair(v, bval(true))
		}
		vm.mapSet(m, vm.anyType(), args[1], args[2])
		return pair(args[2], bval(false))
	}
	intrinsics[sm+"LoadAndDelete"] = func(vm *VM, fn *Fn, args []Value) Value {
		m := vm.syncMap(args[0], fn)
		v, ok := get(vm, m, args[1])
		if ok {
			vm.mapDelete(m, vm.anyType(), args[1])
		}
		return pair(v, bval(ok))
	}
	intrinsics[sm+"Delete"] = func(vm *VM, fn *Fn, args []Value) Value {
		vm.mapDelete(vm.syncMap(args[0], fn), vm.anyType(), args[1])
		return Value{}
	}
	intrinsics[sm+"Clear"] = func(vm *VM, fn *Fn, args []Value) Value {
		m := vm.syncMap(args[0], fn)
		vm.mapTouch(m)
		*m = MapObj{idx: map[any]*MapEnt{}, sync: true}
		return Value{}
	}
	intrinsics[sm+"CompareAndSwap"] = func(vm *VM, fn *Fn, args []Value) Value {
		m := vm.syncMap(args[0], fn)
		v, ok := get(vm, m, args[1])
		if !ok || !vm.decideV(vm.eqVal(vm.anyType(), v, args[2])) {
			return Value{}
		}
		vm.mapSet(m, vm.anyType(), args[1], args[3])
		return bval(true)
	}
	intrinsics[sm+"Range"] = func(vm *VM, fn *Fn, args []Value) Value {
		m := vm.syncMap(args[0], fn)
		var l []MapEnt
		for _, e := range m.ents {
			if !e.dead {
				l = append(l, *e)
			}
		}
		for _, e := range l {
			if !vm.decideV(vm.callClosure(args[1], e.k, e.v)) {
				break
			}
		}
		return Value{}
	}
}

func (vm *VM) touched(p *Value) {
	if vm.sched != nil {
		vm.touch(p, true)
	}
}
