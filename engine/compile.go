package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type opc uint8

const (
	iAlloc opc = iota
	iBin
	iLoad
	iNot
	iNeg
	iCompl
	iCall
	iMove
	iConvert
	iMkIface
	iExtract
	iField
	iFieldAddr
	iIndex
	iIndexAddr
	iLookup
	iMkClosure
	iMkMap
	iMkSlice
	iSliceToArrPtr
	iSlice
	iTypeAssert
	iRange
	iNext
	iStore
	iMapUpdate
	iIf
	iJump
	iReturn
	iPanic
	iRunDefers
	iDefer
	iGo
	iMultiRet
	iUnsupported
)

const noOp = int32(math.MinInt32)

type move struct{ dst, src int32 }

type edge struct {
	to    int
	moves []move
	par   bool // needs a parallel copy
}

type instr struct {
	op         opc
	tok        token.Token
	flag       bool // commaOk, agg, string...
	dst        int32
	a, b, c, d int32
	args       []int32
	rt, rt2    *RType
	n          int
	edges      [2]edge
	call       *callInfo
	pos        token.Pos
	str        string
	rts        []*RType
}

type callInfo struct {
	fn     *Fn // static
	bi     *ssa.Builtin
	method *types.Func // invoke
	mname  string
	fv     int32 // dynamic function or interface receiver
	args   []int32
	argts  []*RType
	retagg bool
}

type block struct {
	ins []instr
	cnt int
}

type Fn struct {
	ssa     *ssa.Function
	name    string
	blocks  []block
	nregs   int
	nparams int
	nfree   int
	consts  []Value
	ready   bool
	intr    intrinsic
	recover int // block index or -1
	gpeg    bool
	defers  bool
	skip    bool
	calls   int64
}

func (vm *VM) fnOf(f *ssa.Function) *Fn {
	if x, ok := vm.fns[f]; ok {
		return x
	}
	x := &Fn{ssa: f, name: f.String(), recover: -1}
	vm.fns[f] = x
	name := x.name
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if rep, ok := vm.eng.models[name]; ok {
		y := vm.fnOf(rep)
		*x = *y
		return x
	}
	if in, ok := intrinsics[name]; ok {
		x.intr = in
	}
	if f.Pkg != nil && isSubject(f.Pkg.Pkg.Path()) {
		x.gpeg = true
	}
	return x
}

func (vm *VM) prepare(x *Fn) {
	f := x.ssa
	if len(f.Blocks) == 0 {
		panic(engineErr("no body: " + x.name))
	}
	if f.Pkg != nil && !vm.eng.allowed(f.Pkg.Pkg.Path()) {
		panic(engineErr("call into unmodelled package: " + x.name))
	}
	x.ready = true
	c := &fcomp{vm: vm, f: f, x: x, regs: map[ssa.Value]int32{}}
	for _, p := range f.Params {
		c.newReg(p)
	}
	x.nparams = len(f.Params)
	for _, p := range f.FreeVars {
		c.newReg(p)
	}
	x.nfree = len(f.FreeVars)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.newReg(v)
			}
		}
	}
	x.blocks = make([]block, len(f.Blocks))
	for i, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Defer:
				x.defers = true
				_ = t
			}
			x.blocks[i].ins = append(x.blocks[i].ins, c.instr(in))
		}
		x.blocks[i].cnt = len(x.blocks[i].ins)
	}
	if f.Recover != nil {
		x.recover = f.Recover.Index
	}
	x.nregs = int(c.n)
}

type fcomp struct {
	vm   *VM
	f    *ssa.Function
	x    *Fn
	regs map[ssa.Value]int32
	n    int32
	cidx map[ssa.Value]int32
}

func (c *fcomp) newReg(v ssa.Value) {
	c.regs[v] = c.n
	c.n++
}

func (c *fcomp) op(v ssa.Value) int32 {
	if v == nil {
		return noOp
	}
	if r, ok := c.regs[v]; ok {
		return r
	}
	if c.cidx == nil {
		c.cidx = map[ssa.Value]int32{}
	}
	if r, ok := c.cidx[v]; ok {
		return r
	}
	var x Value
	switch t := v.(type) {
	case *ssa.Const:
		x = c.vm.constVal(t)
	case *ssa.Global:
		x = Value{O: c.vm.global(t)}
	case *ssa.Function:
		x = Value{O: &Closure{fn: c.vm.fnOf(t)}}
	case *ssa.Builtin:
		x = Value{O: &Closure{bi: t}}
	default:
		panic(engineErr(fmt.Sprintf("operand %T", v)))
	}
	c.x.consts = append(c.x.consts, x)
	r := ^int32(len(c.x.consts) - 1)
	c.cidx[v] = r
	return r
}

func (vm *VM) global(g *ssa.Global) *Value {
	if p, ok := vm.globals[g]; ok {
		return p
	}
	p := &vm.slabAlloc(1)[0]
	vm.globals[g] = p
	return p
}

func (vm *VM) constVal(k *ssa.Const) Value {
	if k.Value == nil {
		return Value{}
	}
	rt := vm.rtype(k.Type())
	switch rt.K {
	case KBool:
		return bval(constant.BoolVal(k.Value))
	case KInt:
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(i) & maskW(rt.W)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{N: u & maskW(rt.W)}
	case KFloat:
		f, _ := constant.Float64Val(k.Value)
		return fval(f, rt)
	case KString:
		if k.Value.Kind() == constant.String {
			return strConst(constant.StringVal(k.Value))
		}
		i, _ := constant.Int64Val(k.Value)
		return strConst(string(rune(i)))
	}
	panic(engineErr("const " + k.String()))
}

func (c *fcomp) edgeTo(from *ssa.BasicBlock, to *ssa.BasicBlock) edge {
	e := edge{to: to.Index}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	dsts := map[int32]bool{}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		m := move{c.regs[phi], c.op(phi.Edges[pi])}
		if m.dst == m.src {
			continue
		}
		if dsts[m.src] {
			e.par = true
		}
		dsts[m.dst] = true
		e.moves = append(e.moves, m)
	}
	return e
}

func (c *fcomp) ops(vs []ssa.Value) []int32 {
	r := make([]int32, len(vs))
	for i, v := range vs {
		r[i] = c.op(v)
	}
	return r
}

func (c *fcomp) rt(v ssa.Value) *RType { return c.vm.rtype(v.Type()) }

func (c *fcomp) callInfo(cc *ssa.CallCommon) *callInfo {
	ci := &callInfo{args: c.ops(cc.Args), fv: noOp}
	for _, a := range cc.Args {
		ci.argts = append(ci.argts, c.rt(a))
	}
	if cc.IsInvoke() {
		ci.method = cc.Method
		ci.mname = cc.Method.Id()
		ci.fv = c.op(cc.Value)
		return ci
	}
	switch t := cc.Value.(type) {
	case *ssa.Function:
		ci.fn = c.vm.fnOf(t)
	case *ssa.Builtin:
		ci.bi = t
	default:
		ci.fv = c.op(cc.Value)
	}
	return ci
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (c *fcomp) instr(in ssa.Instruction) instr {
	r := instr{dst: noOp, pos: in.Pos()}
	if v, ok := in.(ssa.Value); ok {
		r.dst = c.regs[v]
	}
	switch t := in.(type) {
	case *ssa.Alloc:
		r.op = iAlloc
		r.rt = c.vm.rtype(deref(t.Type()))
	case *ssa.BinOp:
		r.op = iBin
		r.tok = t.Op
		r.a, r.b = c.op(t.X), c.op(t.Y)
		r.rt, r.rt2 = c.rt(t.X), c.rt(t.Y)
		// comparison with an untyped nil takes the other operand's type
		if k, ok := t.X.(*ssa.Const); ok && k.Value == nil {
			r.rt = r.rt2
		}
	case *ssa.UnOp:
		r.a = c.op(t.X)
		r.rt = c.rt(t)
		r.rt2 = c.rt(t.X)
		switch t.Op {
		case token.MUL:
			r.op = iLoad
			r.flag = r.rt.agg()
		case token.NOT:
			r.op = iNot
		case token.SUB:
			r.op = iNeg
		case token.XOR:
			r.op = iCompl
		default:
			r.op = iUnsupported
			r.flag = true
			r.str = t.String()
		}
	case *ssa.Call:
		r.op = iCall
		r.call = c.callInfo(&t.Call)
		r.rt = c.rt(t)
	case *ssa.ChangeInterface:
		r.op = iMove
		r.a = c.op(t.X)
	case *ssa.ChangeType:
		r.op = iMove
		r.a = c.op(t.X)
	case *ssa.Convert:
		r.op = iConvert
		r.a = c.op(t.X)
		r.rt, r.rt2 = c.rt(t), c.rt(t.X)
	case *ssa.MultiConvert:
		r.op = iConvert
		r.a = c.op(t.X)
		r.rt, r.rt2 = c.rt(t), c.rt(t.X)
	case *ssa.MakeInterface:
		r.op = iMkIface
		r.a = c.op(t.X)
		r.rt = c.rt(t.X)
	case *ssa.Extract:
		r.op = iExtract
		r.a = c.op(t.Tuple)
		r.n = t.Index
	case *ssa.Field:
		r.op = iField
		r.a = c.op(t.X)
		r.n = t.Field
	case *ssa.FieldAddr:
		r.op = iFieldAddr
		r.a = c.op(t.X)
		r.n = t.Field
		r.rt = c.vm.rtype(deref(t.X.Type()))
	case *ssa.Index:
		r.op = iIndex
		r.a, r.b = c.op(t.X), c.op(t.Index)
		r.rt, r.rt2 = c.rt(t.X), c.rt(t.Index)
	case *ssa.IndexAddr:
		r.op = iIndexAddr
		r.a, r.b = c.op(t.X), c.op(t.Index)
		r.rt, r.rt2 = c.rt(t.X), c.rt(t.Index)
		if r.rt.K == KPtr {
			r.flag = true // pointer to array
			r.rt = c.vm.rtype(deref(t.X.Type()))
		}
	case *ssa.Lookup:
		r.op = iLookup
		r.a, r.b = c.op(t.X), c.op(t.Index)
		r.rt, r.rt2 = c.rt(t.X), c.rt(t.Index)
		r.flag = t.CommaOk
	case *ssa.MakeClosure:
		r.op = iMkClosure
		r.call = &callInfo{fn: c.vm.fnOf(t.Fn.(*ssa.Function))}
		r.args = c.ops(t.Bindings)
	case *ssa.MakeMap:
		r.op = iMkMap
	case *ssa.MakeSlice:
		r.op = iMkSlice
		r.a, r.b = c.op(t.Len), c.op(t.Cap)
		r.rt = c.rt(t)
		r.rt2 = c.rt(t.Len)
	case *ssa.SliceToArrayPointer:
		r.op = iSliceToArrPtr
		r.a = c.op(t.X)
		r.rt = c.vm.rtype(deref(t.Type()))
	case *ssa.Slice:
		r.op = iSlice
		r.a, r.b, r.c, r.d = c.op(t.X), c.op(t.Low), c.op(t.High), c.op(t.Max)
		r.rt = c.rt(t.X)
		if r.rt.K == KPtr {
			r.flag = true
			r.rt = c.vm.rtype(deref(t.X.Type()))
		}
	case *ssa.TypeAssert:
		r.op = iTypeAssert
		r.a = c.op(t.X)
		r.rt = c.vm.rtype(t.AssertedType)
		r.flag = t.CommaOk
	case *ssa.Range:
		r.op = iRange
		r.a = c.op(t.X)
		r.rt = c.rt(t.X)
	case *ssa.Next:
		r.op = iNext
		r.a = c.op(t.Iter)
		r.flag = t.IsString
	case *ssa.Store:
		r.op = iStore
		r.a, r.b = c.op(t.Addr), c.op(t.Val)
		r.rt = c.rt(t.Val)
		r.flag = r.rt.agg()
	case *ssa.MapUpdate:
		r.op = iMapUpdate
		r.a, r.b, r.c = c.op(t.Map), c.op(t.Key), c.op(t.Value)
		r.rt = c.rt(t.Map)
	case *ssa.If:
		r.op = iIf
		r.a = c.op(t.Cond)
		b := in.Block()
		r.edges[0] = c.edgeTo(b, b.Succs[0])
		r.edges[1] = c.edgeTo(b, b.Succs[1])
	case *ssa.Jump:
		r.op = iJump
		b := in.Block()
		r.edges[0] = c.edgeTo(b, b.Succs[0])
	case *ssa.Return:
		r.op = iReturn
		r.args = c.ops(t.Results)
	case *ssa.Panic:
		r.op = iPanic
		r.a = c.op(t.X)
	case *ssa.RunDefers:
		r.op = iRunDefers
	case *ssa.Defer:
		r.op = iDefer
		r.call = c.callInfo(&t.Call)
	case *ssa.Go:
		r.op = iGo
		r.call = c.callInfo(&t.Call)
	default:
		r.op = iUnsupported
		_, r.flag = in.(ssa.Value)
		r.str = fmt.Sprintf("%T", in)
	}
	return r
}
