package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type engineErr string

type targetPanic struct {
	v   Value // interface value
	msg string
}

type endKind uint8

const (
	endOK endKind = iota
	endAssume
	endPanic
	endLimit
	endHang
	endStack
	endViolated
	endUnsupported
)

type pathEnd struct {
	k   endKind
	msg string
}

type frame struct {
	fn        *Fn
	regs      []Value
	defers    []deferred
	panicking *targetPanic
	recovered bool
	caller    *frame
	pos       token.Pos
}

type deferred struct {
	ci   *callInfo
	fv   Value
	args []Value
}

type VM struct {
	eng      *Engine
	ctx      *Ctx
	sol      *Solver
	fns      map[*ssa.Function]*Fn
	globals  map[*ssa.Global]*Value
	rtMap    typeutil.Map
	rtFast   map[types.Type]*RType
	sizes    types.Sizes
	slab     []Value
	slabUsed int
	slabLo   uintptr
	slabSize uintptr
	initing  bool
	undo     []undoRec
	undoMaps []undoMap
	stack    []Value
	sp       int
	depth    int
	top      *frame
	p        *Path
	unit     *Unit
	errStr   *RType
	growC    map[[4]int]int
	id       int
	sched    *sched
	gobNames map[string]string
	gobTypes map[string]*RType
}

var slabN = 3 << 19

func newVM(eng *Engine, id int) *VM {
	vm := &VM{
		eng: eng, ctx: newCtx(), fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]*Value{},
		rtFast: map[types.Type]*RType{}, sizes: types.SizesFor("gc", "amd64"), growC: map[[4]int]int{}, id: id,
	}
	vm.slab = make([]Value, slabN)
	vm.slabLo = uintptr(unsafe.Pointer(&vm.slab[0]))
	vm.slabSize = uintptr(slabN) * unsafe.Sizeof(Value{})
	vm.stack = make([]Value, 1<<16)
	return vm
}

func (vm *VM) end(k endKind, msg string) { panic(pathEnd{k, msg}) }

func (vm *VM) rtPanic(msg string) {
	panic(&targetPanic{v: Value{O: &Iface{vm.errStr, strConst("runtime error: " + msg)}}, msg: "runtime error: " + msg})
}

func fval(f float64, rt *RType) Value {
	if rt.W == 32 {
		return Value{N: uint64(math.Float32bits(float32(f)))}
	}
	return Value{N: math.Float64bits(f)}
}

func f64(v Value, rt *RType) float64 {
	if v.O != nil {
		panic(engineErr("symbolic float"))
	}
	if rt.W == 32 {
		return float64(math.Float32frombits(uint32(v.N)))
	}
	return math.Float64frombits(v.N)
}

func (vm *VM) get(fr *frame, o int32) Value {
	if o >= 0 {
		return fr.regs[o]
	}
	return fr.fn.consts[^o]
}

const (
	maxDepth  = 3000  // frames in a unit that allows the usual number of steps
	maxDepthL = 50000 // in one that has asked for many steps
)

// call runs fn with args.
func (vm *VM) call(fn *Fn, args []Value, env []Value) Value {
	if vm.initing && vm.top != nil && isInit(vm.top.fn) && !isInit(fn) {
		return vm.softCall(fn, args, env)
	}
	return vm.callFn(fn, args, env)
}

func isInit(fn *Fn) bool {
	return fn.ssa.Signature.Recv() == nil && fn.ssa.Parent() == nil && (fn.ssa.Name() == "init" || strings.HasPrefix(fn.ssa.Name(), "init#"))
}

// softCall is a call from a package's initialiser: what the engine cannot run
// leaves the zero value, so that what does not depend on it is still checked.
func (vm *VM) softCall(fn *Fn, args []Value, env []Value) (res Value) {
	top, depth, sp := vm.top, vm.depth, vm.sp
	defer func() {
		if x := recover(); x != nil {
			vm.top, vm.depth, vm.sp = top, depth, sp
			vm.eng.initSkips.Store(fmt.Sprint(fn.name, ": ", x), true)
			res = Value{}
			if t := fn.ssa.Signature.Results(); t.Len() > 1 {
				res = Value{O: &Agg{make([]Value, t.Len())}}
			}
		}
	}()
	return vm.callFn(fn, args, env)
}

func (vm *VM) callFn(fn *Fn, args []Value, env []Value) Value {
	if fn.intr != nil {
		return fn.intr(vm, fn, args)
	}
	if !fn.ready {
		if fn.skip {
			return Value{}
		}
		if fn.ssa.Name() == "init" && fn.ssa.Pkg != nil && fn.ssa.Synthetic != "" && !vm.eng.initAllowed(fn.ssa.Pkg.Pkg.Path()) {
			fn.skip = true
			return Value{}
		}
		vm.prepare(fn)
	}
	fn.calls++
	if vm.depth >= maxDepth && (vm.depth >= maxDepthL || vm.p.maxSteps < 10_000_000) {
		vm.end(endStack, "recursion deeper than "+fmt.Sprint(vm.depth)+" frames in "+fn.name)
	}
	vm.depth++
	base := vm.sp
	need := base + fn.nregs
	var regs []Value
	if need > len(vm.stack) {
		regs = make([]Value, fn.nregs)
	} else {
		regs = vm.stack[base:need:need]
		vm.sp = need
	}
	copy(regs, args)
	copy(regs[fn.nparams:], env)
	fr := frame{fn: fn, regs: regs, caller: vm.top}
	vm.top = &fr
	var res Value
	if fn.defers {
		res = vm.runDefer(&fr)
	} else {
		res = vm.run(&fr, 0)
	}
	vm.top = fr.caller
	vm.depth--
	vm.sp = base
	return res
}

func (vm *VM) runDefer(fr *frame) (res Value) {
	sp, depth := vm.sp, vm.depth
	func() {
		defer func() {
			if x := recover(); x != nil {
				tp, ok := x.(*targetPanic)
				if !ok {
					panic(x)
				}
				vm.sp, vm.depth, vm.top = sp, depth, fr
				fr.panicking = tp
			}
		}()
		res = vm.run(fr, 0)
	}()
	if fr.panicking == nil {
		return res
	}
	vm.runDefers(fr)
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	if fr.fn.recover >= 0 {
		return vm.run(fr, fr.fn.recover)
	}
	return Value{}
}

func (vm *VM) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		sp, depth := vm.sp, vm.depth
		func() {
			defer func() {
				if x := recover(); x != nil {
					tp, ok := x.(*targetPanic)
					if !ok {
						panic(x)
					}
					vm.sp, vm.depth, vm.top = sp, depth, fr
					fr.panicking = tp
				}
			}()
			vm.doCall(fr, d.ci, d.fv, d.args)
		}()
	}
}

func (vm *VM) takeEdge(fr *frame, e *edge) {
	if len(e.moves) == 0 {
		return
	}
	if !e.par {
		for _, m := range e.moves {
			fr.regs[m.dst] = vm.get(fr, m.src)
		}
		return
	}
	var tmp [16]Value
	t := tmp[:0]
	for _, m := range e.moves {
		t = append(t, vm.get(fr, m.src))
	}
	for i, m := range e.moves {
		fr.regs[m.dst] = t[i]
	}
}

func (vm *VM) run(fr *frame, bi int) Value {
	fn := fr.fn
	regs := fr.regs
	for {
		b := &fn.blocks[bi]
		vm.p.steps += b.cnt
		if vm.p.steps > vm.p.maxSteps {
			vm.end(endHang, "more than "+fmt.Sprint(vm.p.maxSteps)+" instructions, in "+fn.name)
		}
		ins := b.ins
		next := -1
		for k := range ins {
			in := &ins[k]
			switch in.op {
			case iMove:
				regs[in.dst] = vm.get(fr, in.a)
			case iAlloc:
				regs[in.dst] = Value{O: vm.newCell()}
			case iBin:
				regs[in.dst] = vm.binop(in, vm.get(fr, in.a), vm.get(fr, in.b))
			case iLoad:
				pv := vm.get(fr, in.a)
				switch p := pv.O.(type) {
				case *Value:
					if vm.sched != nil {
						vm.touch(p, false)
					}
					if in.flag {
						regs[in.dst] = vm.copyVal(*p)
					} else {
						regs[in.dst] = *p
					}
				case nil:
					vm.rtPanic("invalid memory address or nil pointer dereference")
				case *SymPtr:
					regs[in.dst] = vm.symLoad(p, in.rt)
				case *DataPtr:
					regs[in.dst] = p.a[0]
				default:
					panic(engineErr(fmt.Sprintf("load %T", pv.O)))
				}
			case iStore:
				pv := vm.get(fr, in.a)
				v := vm.get(fr, in.b)
				switch p := pv.O.(type) {
				case *Value:
					if vm.sched != nil {
						vm.touch(p, true)
					}
					if in.flag {
						vm.storeVal(p, v)
						if vm.sched != nil {
							vm.touch(p, true)
						}
					} else {
						vm.setCell(p, v)
					}
				case nil:
					vm.rtPanic("invalid memory address or nil pointer dereference")
				case *SymPtr:
					vm.symStore(p, in.rt, v)
				default:
					panic(engineErr(fmt.Sprintf("store %T", pv.O)))
				}
			case iFieldAddr:
				pv := vm.get(fr, in.a)
				switch p := pv.O.(type) {
				case *Value:
					regs[in.dst] = Value{O: &vm.aggOf(p, in.rt).f[in.n]}
				case nil:
					vm.rtPanic("invalid memory address or nil pointer dereference")
				case *SymPtr:
					i := vm.concretize(p.idx)
					regs[in.dst] = Value{O: &vm.aggOf(&p.cells[i], in.rt).f[in.n]}
				default:
					panic(engineErr(fmt.Sprintf("fieldaddr %T", pv.O)))
				}
			case iField:
				v := vm.get(fr, in.a)
				if a, ok := v.O.(*Agg); ok {
					regs[in.dst] = vm.copyVal(a.f[in.n])
				} else {
					regs[in.dst] = Value{}
				}
			case iExtract:
				a := vm.get(fr, in.a).O.(*Agg)
				regs[in.dst] = a.f[in.n]
			case iIndexAddr:
				regs[in.dst] = vm.indexAddr(in, vm.get(fr, in.a), vm.get(fr, in.b))
			case iIndex:
				regs[in.dst] = vm.index(in, vm.get(fr, in.a), vm.get(fr, in.b))
			case iLookup:
				regs[in.dst] = vm.lookup(in, vm.get(fr, in.a), vm.get(fr, in.b))
			case iNot:
				v := vm.get(fr, in.a)
				if v.O == nil {
					regs[in.dst] = Value{N: 1 - v.N}
				} else {
					regs[in.dst] = val(vm.ctx.Not(v.O.(*Expr)))
				}
			case iNeg:
				v := vm.get(fr, in.a)
				if in.rt.K == KFloat {
					regs[in.dst] = fval(-f64(v, in.rt), in.rt)
				} else if v.O == nil {
					regs[in.dst] = Value{N: -v.N & maskW(in.rt.W)}
				} else {
					regs[in.dst] = val(vm.ctx.Neg(v.O.(*Expr)))
				}
			case iCompl:
				v := vm.get(fr, in.a)
				if v.O == nil {
					regs[in.dst] = Value{N: ^v.N & maskW(in.rt.W)}
				} else {
					regs[in.dst] = val(vm.ctx.BNot(v.O.(*Expr)))
				}
			case iConvert:
				regs[in.dst] = vm.convert(in.rt, in.rt2, vm.get(fr, in.a))
			case iMkIface:
				v := vm.get(fr, in.a)
				regs[in.dst] = Value{O: &Iface{in.rt, v}}
			case iTypeAssert:
				regs[in.dst] = vm.typeAssert(in, vm.get(fr, in.a))
			case iMkClosure:
				env := make([]Value, len(in.args))
				for i, a := range in.args {
					env[i] = vm.get(fr, a)
				}
				regs[in.dst] = Value{O: &Closure{fn: in.call.fn, env: env}}
			case iMkMap:
				regs[in.dst] = Value{O: newMap(vm.initing)}
			case iMkSlice:
				n := vm.toInt(vm.get(fr, in.a), in.rt2)
				c := vm.toInt(vm.get(fr, in.b), in.rt2)
				if n < 0 || n > 1<<40 {
					vm.rtPanic("makeslice: len out of range")
				}
				if c < n {
					vm.rtPanic("makeslice: cap out of range")
				}
				if c > 1<<24 {
					vm.end(endLimit, "slice too large")
				}
				regs[in.dst] = Value{O: &SliceV{vm.newCells(int(c))[:n]}}
			case iSlice:
				regs[in.dst] = vm.slice(fr, in)
			case iSliceToArrPtr:
				panic(engineErr("slice to array pointer"))
			case iRange:
				regs[in.dst] = vm.rangeIter(in, vm.get(fr, in.a))
			case iNext:
				regs[in.dst] = vm.next(in, vm.get(fr, in.a))
			case iMapUpdate:
				m, _ := vm.get(fr, in.a).O.(*MapObj)
				if m == nil {
					panic(&targetPanic{v: Value{O: &Iface{vm.errStr, strConst("assignment to entry in nil map")}}, msg: "assignment to entry in nil map"})
				}
				vm.mapSet(m, in.rt.Key, vm.get(fr, in.b), vm.copyVal(vm.get(fr, in.c)))
			case iCall:
				fr.pos = in.pos
				ci := in.call
				if ci.fn != nil {
					var buf [8]Value
					args := buf[:0]
					for _, a := range ci.args {
						args = append(args, vm.get(fr, a))
					}
					regs[in.dst] = vm.call(ci.fn, args, nil)
				} else {
					args := make([]Value, len(ci.args), len(ci.args)+1)
					for i, a := range ci.args {
						args[i] = vm.get(fr, a)
					}
					var fv Value
					if ci.fv != noOp {
						fv = vm.get(fr, ci.fv)
					}
					regs[in.dst] = vm.doCall(fr, ci, fv, args)
				}
			case iGo:
				ci := in.call
				args := make([]Value, len(ci.args), len(ci.args)+1)
				for i, a := range ci.args {
					args[i] = vm.get(fr, a)
				}
				var fv Value
				if ci.fv != noOp {
					fv = vm.get(fr, ci.fv)
				}
				vm.doCall(fr, ci, fv, args)
			case iDefer:
				ci := in.call
				args := make([]Value, len(ci.args))
				for i, a := range ci.args {
					args[i] = vm.get(fr, a)
				}
				var fv Value
				if ci.fv != noOp {
					fv = vm.get(fr, ci.fv)
				}
				fr.defers = append(fr.defers, deferred{ci, fv, args})
			case iRunDefers:
				vm.runDefers(fr)
				if fr.panicking != nil {
					tp := fr.panicking
					panic(tp)
				}
			case iIf:
				v := vm.get(fr, in.a)
				var t bool
				if v.O == nil {
					t = v.N != 0
				} else {
					t = vm.decide(v.O.(*Expr))
				}
				e := &in.edges[1]
				if t {
					e = &in.edges[0]
				}
				vm.takeEdge(fr, e)
				next = e.to
			case iJump:
				vm.takeEdge(fr, &in.edges[0])
				next = in.edges[0].to
			case iReturn:
				switch len(in.args) {
				case 0:
					return Value{}
				case 1:
					return vm.get(fr, in.args[0])
				}
				f := make([]Value, len(in.args))
				for i, a := range in.args {
					f[i] = vm.get(fr, a)
				}
				return Value{O: &Agg{f}}
			case iPanic:
				v := vm.get(fr, in.a)
				panic(&targetPanic{v: v, msg: vm.panicText(v)})
			default:
				if vm.initing && in.op == iUnsupported && isInit(fn) {
					vm.eng.initSkips.Store(fn.name+": "+in.str, true)
					if in.flag {
						regs[in.dst] = Value{}
					}
					continue
				}
				panic(engineErr("unsupported instruction " + in.str + " in " + fn.name))
			}
		}
		if next < 0 {
			panic(engineErr("block without terminator in " + fn.name))
		}
		bi = next
	}
}

func (vm *VM) panicText(v Value) string {
	i, _ := v.O.(*Iface)
	if i == nil {
		return "nil"
	}
	if s, ok := i.v.O.(string); ok {
		return s
	}
	if i.t.K == KString {
		return "<string>"
	}
	return i.t.T.String()
}

func (vm *VM) doCall(fr *frame, ci *callInfo, fv Value, args []Value) Value {
	if ci.fn != nil {
		return vm.call(ci.fn, args, nil)
	}
	if ci.bi != nil {
		return vm.builtin(fr, ci.bi.Name(), ci, args)
	}
	if ci.method != nil {
		i, _ := fv.O.(*Iface)
		if i == nil {
			vm.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := i.t.methods[ci.mname]
		if fn == nil {
			m := vm.eng.lookupMethod(i.t.T, ci.method)
			if m == nil {
				panic(engineErr("no method " + ci.mname + " on " + i.t.T.String()))
			}
			fn = vm.fnOf(m)
			i.t.methods[ci.mname] = fn
		}
		a := make([]Value, 0, len(args)+1)
		a = append(a, i.v)
		a = append(a, args...)
		return vm.call(fn, a, nil)
	}
	cl, _ := fv.O.(*Closure)
	if cl == nil {
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	if cl.bi != nil {
		return vm.builtin(fr, cl.bi.Name(), ci, args)
	}
	return vm.call(cl.fn, args, cl.env)
}

// callClosure calls a func value.
func (vm *VM) callClosure(fv Value, args ...Value) Value {
	cl, _ := fv.O.(*Closure)
	if cl == nil {
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	return vm.call(cl.fn, args, cl.env)
}

// toInt concretizes an integer value.
func (vm *VM) toInt(v Value, rt *RType) int64 {
	if v.O != nil {
		v = Value{N: vm.concretize(v.O.(*Expr))}
	}
	if rt != nil && rt.Signed {
		return signExt(v.N, rt.W)
	}
	return int64(v.N)
}

func (vm *VM) binop(in *instr, x, y Value) Value {
	rt := in.rt
	switch rt.K {
	case KInt:
		if x.O == nil && y.O == nil {
			return vm.intOp(in, x.N, y.N)
		}
		return vm.symIntOp(in, x, y)
	case KBool:
		if x.O == nil && y.O == nil {
			switch in.tok {
			case token.EQL:
				return bval(x.N == y.N)
			case token.NEQ:
				return bval(x.N != y.N)
			case token.AND:
				return Value{N: x.N & y.N}
			case token.OR:
				return Value{N: x.N | y.N}
			}
		}
		a, b := vm.expr(x, 0), vm.expr(y, 0)
		switch in.tok {
		case token.EQL:
			return val(vm.ctx.Eq(a, b))
		case token.NEQ:
			return val(vm.ctx.Not(vm.ctx.Eq(a, b)))
		case token.AND:
			return val(vm.ctx.And(a, b))
		case token.OR:
			return val(vm.ctx.Or(a, b))
		}
	case KString:
		switch in.tok {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			c := vm.strCmp(x, y)
			switch in.tok {
			case token.LSS:
				return bval(c < 0)
			case token.GTR:
				return bval(c > 0)
			case token.LEQ:
				return bval(c <= 0)
			default:
				return bval(c >= 0)
			}
		}
	case KFloat:
		a, b := f64(x, rt), f64(y, rt)
		switch in.tok {
		case token.ADD:
			return fval(a+b, rt)
		case token.SUB:
			return fval(a-b, rt)
		case token.MUL:
			return fval(a*b, rt)
		case token.QUO:
			return fval(a/b, rt)
		case token.EQL:
			return bval(a == b)
		case token.NEQ:
			return bval(a != b)
		case token.LSS:
			return bval(a < b)
		case token.LEQ:
			return bval(a <= b)
		case token.GTR:
			return bval(a > b)
		case token.GEQ:
			return bval(a >= b)
		}
	}
	switch in.tok {
	case token.EQL, token.NEQ:
		var e Value
		switch {
		case rt.K == KIface && in.rt2.K != KIface && !(y.O == nil && in.rt2.K == KPtr):
			// mixed comparison interface/concrete
			e = vm.eqVal(rt, x, Value{O: &Iface{in.rt2, y}})
		case in.rt2.K == KIface && rt.K != KIface && !(x.O == nil && rt.K == KPtr):
			e = vm.eqVal(in.rt2, Value{O: &Iface{rt, x}}, y)
		default:
			e = vm.eqVal(rt, x, y)
		}
		if in.tok == token.NEQ {
			if e.O == nil {
				return Value{N: 1 - e.N}
			}
			return val(vm.ctx.Not(e.O.(*Expr)))
		}
		return e
	}
	panic(engineErr("binop " + in.tok.String() + " on " + rt.T.String()))
}

func (vm *VM) strCmp(x, y Value) int {
	a, ok1 := strConcrete(x)
	b, ok2 := strConcrete(y)
	if ok1 && ok2 {
		return strings.Compare(a, b)
	}
	xb, yb := strBytes(x), strBytes(y)
	for i := 0; i < len(xb) && i < len(yb); i++ {
		p, q := vm.expr(xb[i], 8), vm.expr(yb[i], 8)
		if vm.decide(vm.ctx.Eq(p, q)) {
			continue
		}
		if vm.decide(vm.ctx.Ult(p, q)) {
			return -1
		}
		return 1
	}
	return len(xb) - len(yb)
}

func (vm *VM) intOp(in *instr, x, y uint64) Value {
	rt := in.rt
	m := maskW(rt.W)
	switch in.tok {
	case token.ADD:
		return Value{N: (x + y) & m}
	case token.SUB:
		return Value{N: (x - y) & m}
	case token.MUL:
		return Value{N: (x * y) & m}
	case token.EQL:
		return bval(x == y)
	case token.NEQ:
		return bval(x != y)
	case token.AND:
		return Value{N: x & y}
	case token.OR:
		return Value{N: x | y}
	case token.XOR:
		return Value{N: x ^ y}
	case token.AND_NOT:
		return Value{N: x &^ y}
	case token.SHL, token.SHR:
		c := y
		if in.rt2.Signed {
			s := signExt(y, in.rt2.W)
			if s < 0 {
				vm.rtPanic("negative shift amount")
			}
			c = uint64(s)
		}
		if in.tok == token.SHL {
			if c >= uint64(rt.W) {
				return Value{}
			}
			return Value{N: (x << c) & m}
		}
		if rt.Signed {
			if c > 63 {
				c = 63
			}
			return Value{N: uint64(signExt(x, rt.W)>>c) & m}
		}
		if c >= uint64(rt.W) {
			return Value{}
		}
		return Value{N: x >> c}
	}
	if rt.Signed {
		a, b := signExt(x, rt.W), signExt(y, rt.W)
		switch in.tok {
		case token.QUO, token.REM:
			if b == 0 {
				vm.rtPanic("integer divide by zero")
			}
			if b == -1 {
				if in.tok == token.QUO {
					return Value{N: uint64(-a) & m}
				}
				return Value{}
			}
			if in.tok == token.QUO {
				return Value{N: uint64(a/b) & m}
			}
			return Value{N: uint64(a%b) & m}
		case token.LSS:
			return bval(a < b)
		case token.LEQ:
			return bval(a <= b)
		case token.GTR:
			return bval(a > b)
		case token.GEQ:
			return bval(a >= b)
		}
	}
	switch in.tok {
	case token.QUO, token.REM:
		if y == 0 {
			vm.rtPanic("integer divide by zero")
		}
		if in.tok == token.QUO {
			return Value{N: x / y}
		}
		return Value{N: x % y}
	case token.LSS:
		return bval(x < y)
	case token.LEQ:
		return bval(x <= y)
	case token.GTR:
		return bval(x > y)
	case token.GEQ:
		return bval(x >= y)
	}
	panic(engineErr("intOp " + in.tok.String()))
}

func (vm *VM) symIntOp(in *instr, x, y Value) Value {
	rt := in.rt
	c := vm.ctx
	a := vm.expr(x, rt.W)
	switch in.tok {
	case token.SHL, token.SHR:
		cw := in.rt2.W
		s := vm.expr(y, cw)
		if in.rt2.Signed && s.Op != OConst {
			if vm.decide(c.Slt(s, c.Const(0, cw))) {
				vm.rtPanic("negative shift amount")
			}
		}
		op := OShl
		if in.tok == token.SHR {
			op = OLShr
			if rt.Signed {
				op = OAShr
			}
		}
		if cw <= rt.W {
			return val(c.Bin(op, a, c.Resize(s, rt.W, false)))
		}
		t := c.Resize(s, rt.W, false)
		big := c.Ule(c.Const(uint64(rt.W), cw), s)
		var ov *Expr
		if op == OAShr {
			ov = c.Bin(OAShr, a, c.Const(uint64(rt.W)-1, rt.W))
		} else {
			ov = c.Const(0, rt.W)
		}
		return val(c.Ite(big, ov, c.Bin(op, a, t)))
	}
	b := vm.expr(y, rt.W)
	switch in.tok {
	case token.ADD:
		return val(c.Add(a, b))
	case token.SUB:
		return val(c.Bin(OSub, a, b))
	case token.MUL:
		return val(c.Bin(OMul, a, b))
	case token.AND:
		return val(c.Bin(OBAnd, a, b))
	case token.OR:
		return val(c.Bin(OBOr, a, b))
	case token.XOR:
		return val(c.Bin(OBXor, a, b))
	case token.AND_NOT:
		return val(c.Bin(OBAnd, a, c.BNot(b)))
	case token.EQL:
		return val(c.Eq(a, b))
	case token.NEQ:
		return val(c.Not(c.Eq(a, b)))
	case token.QUO, token.REM:
		if vm.decide(c.Eq(b, c.Const(0, rt.W))) {
			vm.rtPanic("integer divide by zero")
		}
		switch {
		case in.tok == token.QUO && rt.Signed:
			return val(c.Bin(OSDiv, a, b))
		case in.tok == token.QUO:
			return val(c.Bin(OUDiv, a, b))
		case rt.Signed:
			return val(c.Bin(OSRem, a, b))
		default:
			return val(c.Bin(OURem, a, b))
		}
	}
	lt, le := c.Ult, c.Ule
	if rt.Signed {
		lt, le = c.Slt, c.Sle
	}
	switch in.tok {
	case token.LSS:
		return val(lt(a, b))
	case token.LEQ:
		return val(le(a, b))
	case token.GTR:
		return val(lt(b, a))
	case token.GEQ:
		return val(le(b, a))
	}
	panic(engineErr("symIntOp " + in.tok.String()))
}

// boundsIdx checks idx against n and returns a concrete index, or -1 with the
// symbolic index still in range.
func (vm *VM) boundsIdx(v Value, rt *RType, n int) (int, *Expr) {
	if v.O == nil {
		i := int64(v.N)
		if rt.Signed {
			i = signExt(v.N, rt.W)
		}
		if i < 0 || i >= int64(n) {
			vm.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	e := v.O.(*Expr)
	c := vm.ctx
	w := rt.W
	var ok *Expr
	if uint64(n) > maskW(w) {
		ok = c.True
	} else if rt.Signed {
		ok = c.And(c.Sle(c.Const(0, w), e), c.Slt(e, c.Const(uint64(n), w)))
	} else {
		ok = c.Ult(e, c.Const(uint64(n), w))
	}
	if rt.Signed && uint64(n) > maskW(w)>>1 {
		ok = c.Sle(c.Const(0, w), e)
	}
	if !vm.decide(ok) {
		vm.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return -1, e
}

func (vm *VM) indexAddr(in *instr, x, idx Value) Value {
	var cells []Value
	if in.flag { // pointer to array
		p, ok := x.O.(*Value)
		if !ok {
			if x.O == nil {
				vm.rtPanic("invalid memory address or nil pointer dereference")
			}
			panic(engineErr(fmt.Sprintf("indexaddr %T", x.O)))
		}
		cells = vm.aggOf(p, in.rt).f
	} else if s, ok := x.O.(*SliceV); ok {
		cells = s.a
	}
	i, e := vm.boundsIdx(idx, in.rt2, len(cells))
	if e == nil {
		return Value{O: &cells[i]}
	}
	if len(cells) == 1 {
		return Value{O: &cells[0]}
	}
	if len(cells) <= 300 && (in.rt.Elem.K == KInt || in.rt.Elem.K == KBool) {
		return Value{O: &SymPtr{cells, e}}
	}
	return Value{O: &cells[vm.concretize(e)]}
}

func (vm *VM) symLoad(p *SymPtr, rt *RType) Value {
	c := vm.ctx
	vm.touchAll(p.cells, false)
	n := len(p.cells)
	var r *Expr
	for i := n - 1; i >= 0; i-- {
		e := vm.expr(p.cells[i], rt.W)
		if r == nil {
			r = e
			continue
		}
		if uint64(i) > maskW(p.idx.W) {
			continue
		}
		r = c.Ite(c.Eq(p.idx, c.Const(uint64(i), p.idx.W)), e, r)
	}
	return val(r)
}

func (vm *VM) symStore(p *SymPtr, rt *RType, v Value) {
	c := vm.ctx
	nv := vm.expr(v, rt.W)
	vm.touchAll(p.cells, true)
	for i := range p.cells {
		if uint64(i) > maskW(p.idx.W) {
			break
		}
		old := vm.expr(p.cells[i], rt.W)
		vm.setCell(&p.cells[i], val(c.Ite(c.Eq(p.idx, c.Const(uint64(i), p.idx.W)), nv, old)))
	}
}

func (vm *VM) index(in *instr, x, idx Value) Value {
	var cells []Value
	if in.rt.K == KString {
		if s, ok := x.O.(string); ok && idx.O == nil {
			i, _ := vm.boundsIdx(idx, in.rt2, len(s))
			return Value{N: uint64(s[i])}
		}
		cells = strBytes(x)
	} else if a, ok := x.O.(*Agg); ok {
		cells = a.f
	} else {
		cells = make([]Value, in.rt.Len)
	}
	i, e := vm.boundsIdx(idx, in.rt2, len(cells))
	if e == nil {
		return vm.copyVal(cells[i])
	}
	el := vm.rtype(types.Typ[types.Uint8])
	if in.rt.K != KString {
		el = in.rt.Elem
	}
	if el.K == KInt || el.K == KBool {
		return vm.symLoad(&SymPtr{cells, e}, el)
	}
	return vm.copyVal(cells[vm.concretize(e)])
}

func (vm *VM) lookup(in *instr, x, k Value) Value {
	if in.rt.K == KString {
		return vm.index(in, x, k)
	}
	m, _ := x.O.(*MapObj)
	var v Value
	ok := false
	if m != nil {
		if e := vm.mapFind(m, in.rt.Key, k); e != nil {
			v, ok = vm.copyVal(e.v), true
		}
	}
	if in.flag {
		return Value{O: &Agg{[]Value{v, bval(ok)}}}
	}
	return v
}

func (vm *VM) convert(dst, src *RType, v Value) Value {
	switch {
	case dst.K == KInt && src.K == KInt:
		if v.O == nil {
			n := v.N
			if src.Signed {
				n = uint64(signExt(n, src.W))
			}
			return Value{N: n & maskW(dst.W)}
		}
		return val(vm.ctx.Resize(v.O.(*Expr), dst.W, src.Signed))
	case dst.K == KFloat && src.K == KInt:
		i := vm.toInt(v, src)
		if src.Signed {
			return fval(float64(i), dst)
		}
		return fval(float64(uint64(i)), dst)
	case dst.K == KInt && src.K == KFloat:
		f := f64(v, src)
		if dst.Signed {
			return Value{N: uint64(int64(f)) & maskW(dst.W)}
		}
		return Value{N: uint64(f) & maskW(dst.W)}
	case dst.K == KFloat && src.K == KFloat:
		return fval(f64(v, src), dst)
	case dst.K == KString && src.K == KString:
		return v
	case dst.K == KString && src.K == KInt:
		r := vm.toInt(v, src)
		return strConst(string(rune(r)))
	case dst.K == KString && src.K == KSlice:
		s, _ := v.O.(*SliceV)
		if s == nil {
			return Value{}
		}
		vm.touchAll(s.a, false)
		if src.Elem.W == 8 {
			return mkStr(s.a)
		}
		var out []Value
		for _, r := range s.a {
			x := vm.toInt(r, src.Elem)
			out = append(out, strBytes(strConst(string(rune(x))))...)
		}
		return mkStr(out)
	case dst.K == KSlice && src.K == KString:
		if dst.Elem.W == 8 {
			b := strBytes(v)
			n := len(b)
			cp := roundCap(n)
			c := vm.newCells(cp)[:n]
			copy(c, b)
			return Value{O: &SliceV{c}}
		}
		it := &StrIter{b: strBytes(v)}
		var out []Value
		for it.i < len(it.b) {
			r, w := vm.decodeRune(it.b[it.i:])
			it.i += w
			out = append(out, r)
		}
		c := vm.newCells(len(out))
		copy(c, out)
		return Value{O: &SliceV{c}}
	case dst.K == src.K, dst.K == KPtr, src.K == KPtr:
		return v
	}
	panic(engineErr("convert " + src.T.String() + " to " + dst.T.String()))
}

// roundCap mirrors the capacity Go gives to []byte(string).
func roundCap(n int) int {
	if n == 0 {
		return 0
	}
	return cap(append([]byte(nil), make([]byte, n)...))
}

// decodeRune decodes the first rune of b, forking on symbolic bytes.
func (vm *VM) decodeRune(b []Value) (Value, int) {
	if b[0].O == nil && b[0].N < 0x80 {
		return Value{N: b[0].N}, 1
	}
	if e, ok := b[0].O.(*Expr); ok {
		if vm.decide(vm.ctx.Ult(e, vm.ctx.Const(0x80, 8))) {
			return val(vm.ctx.Resize(e, 32, false)), 1
		}
	}
	n := len(b)
	if n > 4 {
		n = 4
	}
	s := mkStr(b[:n])
	fn := vm.eng.fn("unicode/utf8", "DecodeRuneInString")
	r := vm.call(vm.fnOf(fn), []Value{s}, nil).O.(*Agg)
	return r.f[0], int(vm.toInt(r.f[1], nil))
}

func (vm *VM) implements(rt *RType, iface types.Type) bool {
	if ok, hit := rt.impl[iface]; hit {
		return ok
	}
	ok := types.Implements(rt.T, iface.Underlying().(*types.Interface))
	rt.impl[iface] = ok
	return ok
}

func (vm *VM) typeAssert(in *instr, x Value) Value {
	i, _ := x.O.(*Iface)
	var v Value
	ok := false
	if i != nil {
		if in.rt.K == KIface {
			if vm.implements(i.t, in.rt.T) {
				v, ok = x, true
			}
		} else if i.t == in.rt {
			v, ok = vm.copyVal(i.v), true
		}
	}
	if in.flag {
		return Value{O: &Agg{[]Value{v, bval(ok)}}}
	}
	if !ok {
		d := "nil"
		if i != nil {
			d = i.t.T.String()
		}
		msg := "interface conversion: interface is " + d + ", not " + in.rt.T.String()
		panic(&targetPanic{v: Value{O: &Iface{vm.errStr, strConst(msg)}}, msg: msg})
	}
	return v
}

func (vm *VM) slice(fr *frame, in *instr) Value {
	x := vm.get(fr, in.a)
	bound := func(o int32, def, limit int) int {
		if o == noOp {
			return def
		}
		v := vm.get(fr, o)
		if v.O == nil {
			return int(int64(v.N))
		}
		e := v.O.(*Expr)
		c := vm.ctx
		// all out-of-range values behave alike (the slice expression panics)
		if e.W >= 32 {
			in := c.And(c.Sle(c.Const(0, e.W), e), c.Sle(e, c.Const(uint64(limit), e.W)))
			if !vm.decide(in) {
				return -1
			}
		}
		return int(vm.concretize(e))
	}
	if in.rt.K == KString {
		n := strLen(x)
		lo := bound(in.b, 0, n)
		hi := bound(in.c, n, n)
		if hi < 0 || hi > n {
			vm.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			vm.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return strSlice(x, lo, hi)
	}
	var cells []Value
	if in.flag {
		p, ok := x.O.(*Value)
		if !ok {
			vm.rtPanic("invalid memory address or nil pointer dereference")
		}
		cells = vm.aggOf(p, in.rt).f
	} else if s, ok := x.O.(*SliceV); ok {
		cells = s.a
	}
	c := cap(cells)
	lo := bound(in.b, 0, c)
	hi := bound(in.c, len(cells), c)
	mx := bound(in.d, c, c)
	if mx < 0 || mx > c {
		vm.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, c))
	}
	if hi < 0 || hi > mx {
		vm.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, c))
	}
	if lo < 0 || lo > hi {
		vm.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
	}
	if !in.flag && x.O == nil {
		return Value{}
	}
	return Value{O: &SliceV{cells[lo:hi:mx]}}
}

func (vm *VM) rangeIter(in *instr, x Value) Value {
	if in.rt.K == KString {
		return Value{O: &StrIter{b: strBytes(x)}}
	}
	m, _ := x.O.(*MapObj)
	it := &MapIter{m: m}
	if m != nil {
		vm.touchMap(m, false)
		for _, e := range m.ents {
			if !e.dead {
				it.perm = append(it.perm, e)
			}
		}
		it.order = vm.p != nil && vm.p.mapOrder > 1 && len(it.perm) > 1 && len(it.perm) <= vm.p.mapOrder
		if n := len(it.perm); vm.p != nil && n > 1 && n <= -vm.p.mapOrder {
			vm.sameOrder(it.perm)
		}
	}
	return Value{O: it}
}

// sameOrder permutes the entries of a map with concrete string keys by the one
// permutation of the sorted keys this path has chosen for this many entries.
func (vm *VM) sameOrder(l []*MapEnt) {
	for _, e := range l {
		if _, ok := e.key.(string); !ok {
			return
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].key.(string) < l[j].key.(string) })
	p := vm.p
	if p.orders == nil {
		p.orders = map[int][]int{}
	}
	o := p.orders[len(l)]
	if o == nil {
		for i := 0; i < len(l)-1; i++ {
			o = append(o, vm.orderChoice(len(l)-i))
		}
		p.orders[len(l)] = o
	}
	for i, j := range o {
		l[i], l[i+j] = l[i+j], l[i]
	}
}

func (vm *VM) next(in *instr, x Value) Value {
	switch it := x.O.(type) {
	case *StrIter:
		if it.i >= len(it.b) {
			return Value{O: &Agg{[]Value{{}, {}, {}}}}
		}
		k := it.i
		r, w := vm.decodeRune(it.b[it.i:])
		it.i += w
		return Value{O: &Agg{[]Value{{N: 1}, {N: uint64(k)}, r}}}
	case *MapIter:
		for it.i < len(it.perm) {
			if it.order && len(it.perm)-it.i > 1 {
				j := vm.orderChoice(len(it.perm) - it.i)
				it.perm[it.i], it.perm[it.i+j] = it.perm[it.i+j], it.perm[it.i]
			}
			e := it.perm[it.i]
			it.i++
			if e.key != nil {
				cur := it.m.idx[e.key]
				if cur == nil {
					continue
				}
				e = cur
			} else if e.dead {
				continue
			}
			return Value{O: &Agg{[]Value{{N: 1}, vm.copyVal(e.k), vm.copyVal(e.v)}}}
		}
		return Value{O: &Agg{[]Value{{}, {}, {}}}}
	}
	panic(engineErr("next"))
}

func (vm *VM) builtin(fr *frame, name string, ci *callInfo, args []Value) Value {
	switch name {
	case "len":
		switch x := args[0].O.(type) {
		case nil:
			if ci.argts[0].K == KArray {
				return Value{N: uint64(ci.argts[0].Len)}
			}
			return Value{}
		case string:
			return Value{N: uint64(len(x))}
		case *SStr:
			return Value{N: uint64(len(x.b))}
		case *SliceV:
			return Value{N: uint64(len(x.a))}
		case *MapObj:
			return Value{N: uint64(x.live)}
		case *Agg:
			return Value{N: uint64(len(x.f))}
		case *Value:
			return Value{N: uint64(vm.rtype(deref(ci.argts[0].T)).Len)}
		}
	case "cap":
		switch x := args[0].O.(type) {
		case nil:
			return Value{}
		case *SliceV:
			return Value{N: uint64(cap(x.a))}
		case *Agg:
			return Value{N: uint64(len(x.f))}
		}
	case "append":
		return vm.append(args[0], args[1], ci.argts[0])
	case "copy":
		d, _ := args[0].O.(*SliceV)
		if d == nil {
			return Value{}
		}
		var src []Value
		if s, ok := args[1].O.(*SliceV); ok {
			src = s.a
		} else if ci.argts[1].K == KString {
			src = strBytes(args[1])
		}
		n := len(src)
		if len(d.a) < n {
			n = len(d.a)
		}
		if n == 0 {
			return Value{}
		}
		vm.p.steps += n / 8
		vm.touchAll(src[:n], false)
		vm.touchAll(d.a[:n], true)
		if ci.argts[0].Elem.agg() {
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = vm.copyVal(src[i])
			}
			for i := range tmp {
				vm.storeVal(&d.a[i], tmp[i])
			}
		} else if vm.initing || !vm.inBase(&d.a[0]) {
			copy(d.a, src[:n])
		} else {
			tmp := append([]Value(nil), src[:n]...)
			for i := range tmp {
				vm.setCell(&d.a[i], tmp[i])
			}
		}
		return Value{N: uint64(n)}
	case "delete":
		if m, _ := args[0].O.(*MapObj); m != nil {
			vm.mapDelete(m, ci.argts[0].Key, args[1])
		}
		return Value{}
	case "clear":
		switch x := args[0].O.(type) {
		case *MapObj:
			vm.mapTouch(x)
			x.idx, x.ents, x.nsym, x.live = map[any]*MapEnt{}, nil, 0, 0
		case *SliceV:
			vm.touchAll(x.a, true)
			for i := range x.a {
				vm.storeVal(&x.a[i], Value{})
			}
		}
		return Value{}
	case "min", "max":
		r := args[0]
		rt := ci.argts[0]
		for _, a := range args[1:] {
			in := &instr{tok: token.LSS, rt: rt, rt2: rt}
			if rt.K == KInt && (a.O != nil || r.O != nil) {
				lt := vm.symIntOp(in, a, r)
				k := vm.expr(lt, 0)
				x, y := vm.expr(a, rt.W), vm.expr(r, rt.W)
				if name == "max" {
					x, y = y, x
				}
				r = val(vm.ctx.Ite(k, x, y))
				continue
			}
			lt := vm.binop(in, a, r).N != 0
			if lt == (name == "min") {
				r = a
			}
		}
		return r
	case "panic":
		panic(&targetPanic{v: args[0], msg: vm.panicText(args[0])})
	case "recover":
		// valid only when called by a deferred function of a panicking frame
		f := fr.caller
		if f != nil && f.panicking != nil && !f.recovered {
			v := f.panicking.v
			f.panicking = nil
			return v
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].O == nil {
			vm.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		if s, ok := args[0].O.(*SliceV); ok {
			return Value{O: &DataPtr{s.a[:cap(s.a)]}}
		}
		return Value{}
	case "StringData":
		return Value{O: &DataPtr{strBytes(args[0])}}
	case "String":
		n := vm.toInt(args[1], nil)
		if n == 0 {
			return Value{}
		}
		switch d := args[0].O.(type) {
		case *DataPtr:
			return mkStr(d.a[:n])
		case *Value:
			if n == 1 {
				return mkStr([]Value{*d})
			}
		}
	case "Slice":
		n := vm.toInt(args[1], nil)
		if d, ok := args[0].O.(*DataPtr); ok {
			return Value{O: &SliceV{d.a[:n:n]}}
		}
		if n == 0 {
			return Value{}
		}
	}
	panic(engineErr("builtin " + name + fmt.Sprintf(" %T", args[0].O)))
}

func (vm *VM) append(s, t Value, rt *RType) Value {
	var a, b []Value
	sv, _ := s.O.(*SliceV)
	if sv != nil {
		a = sv.a
	}
	switch x := t.O.(type) {
	case nil:
	case *SliceV:
		b = x.a
	default:
		b = strBytes(t)
	}
	if len(b) == 0 {
		return s
	}
	vm.p.steps += len(b) / 8
	n := len(a) + len(b)
	el := rt.Elem
	var d []Value
	vm.touchAll(b, false)
	if n <= cap(a) {
		d = a[:n]
		vm.touchAll(d[len(a):], true)
	} else {
		vm.touchAll(a, false)
		c := vm.growCap(el, cap(a), len(a), n)
		d = vm.newCells(c)[:n]
		vm.p.steps += len(a) / 8
		if el.agg() {
			for i := range a {
				d[i] = vm.copyVal(a[i])
			}
		} else {
			copy(d, a)
		}
		if el.agg() {
			for i := range b {
				d[len(a)+i] = vm.copyVal(b[i])
			}
		} else {
			copy(d[len(a):], b)
		}
		return Value{O: &SliceV{d}}
	}
	if el.agg() {
		tmp := make([]Value, len(b))
		for i := range b {
			tmp[i] = vm.copyVal(b[i])
		}
		for i := range tmp {
			vm.storeVal(&d[len(a)+i], tmp[i])
		}
	} else if vm.initing || !vm.inBase(&d[0]) {
		copy(d[len(a):], b)
	} else {
		tmp := append([]Value(nil), b...)
		for i := range tmp {
			vm.setCell(&d[len(a)+i], tmp[i])
		}
	}
	return Value{O: &SliceV{d}}
}

// growCap asks the Go runtime itself what capacity append would choose.
func (vm *VM) growCap(el *RType, oldCap, oldLen, n int) int {
	k := [4]int{int(el.Size), 0, oldCap, n}
	if el.HasPtr {
		k[1] = 1
	}
	if c, ok := vm.growC[k]; ok {
		return c
	}
	var t reflect.Type
	if el.HasPtr && el.Size >= 8 {
		t = reflect.ArrayOf(int(el.Size/8), reflect.TypeOf((*byte)(nil)))
	} else {
		t = reflect.ArrayOf(int(el.Size), reflect.TypeOf(byte(0)))
	}
	if el.Size == 0 {
		return n
	}
	st := reflect.SliceOf(t)
	old := reflect.MakeSlice(st, oldLen, oldCap)
	if oldCap == 0 {
		old = reflect.Zero(st)
	}
	add := reflect.MakeSlice(st, n-oldLen, n-oldLen)
	c := reflect.AppendSlice(old, add).Cap()
	if c < n {
		c = n
	}
	vm.growC[k] = c
	return c
}
