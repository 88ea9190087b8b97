package main

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"
)

type intrinsic func(vm *VM, fn *Fn, args []Value) Value

const symPkg = "verif/harness/sym"

var intrinsics map[string]intrinsic

func nop(vm *VM, fn *Fn, args []Value) Value { return Value{} }

func (vm *VM) errorf(msg Value) Value {
	f := vm.eng.fn("errors", "New")
	return vm.call(vm.fnOf(f), []Value{msg}, nil)
}

func symVar(w uint8) intrinsic {
	return func(vm *VM, fn *Fn, args []Value) Value {
		return Value{O: vm.newPathVar(w, false)}
	}
}

func (vm *VM) choose(n int64) Value {
	if n <= 0 {
		vm.end(endAssume, "")
	}
	if n == 1 {
		return Value{}
	}
	var w uint8 = 8
	if n > 255 {
		w = 32
	}
	v := vm.newPathVar(w, false)
	vm.assume(vm.ctx.Ult(v, vm.ctx.Const(uint64(n), w)))
	return val(vm.ctx.Resize(v, 64, false))
}

func init() {
	S := symPkg + "."
	intrinsics = map[string]intrinsic{
		S + "Byte": symVar(8),
		S + "U16":  symVar(16),
		S + "U32":  symVar(32),
		S + "U64":  symVar(64),
		S + "Int":  symVar(64),
		S + "Bool": func(vm *VM, fn *Fn, args []Value) Value {
			v := vm.newPathVar(8, false)
			vm.assume(vm.ctx.Ult(v, vm.ctx.Const(2, 8)))
			return val(vm.ctx.Eq(v, vm.ctx.Const(1, 8)))
		},
		S + "Choose": func(vm *VM, fn *Fn, args []Value) Value {
			return vm.choose(vm.toInt(args[0], nil))
		},
		S + "Pick": func(vm *VM, fn *Fn, args []Value) Value {
			if vm.eng.thorough {
				return args[1]
			}
			return args[0]
		},
		S + "File": func(vm *VM, fn *Fn, args []Value) Value {
			name, _ := strConcrete(args[0])
			path := "/repo/" + name
			if o := vm.eng.overlay[path]; o != "" {
				path = o
			}
			b, err := os.ReadFile(path)
			if err != nil {
				panic(engineErr(err.Error()))
			}
			return Value{O: string(b)}
		},
		S + "Thorough": func(vm *VM, fn *Fn, args []Value) Value { return bval(vm.eng.thorough) },
		S + "Native":   func(vm *VM, fn *Fn, args []Value) Value { return Value{} },
		S + "Bytes": func(vm *VM, fn *Fn, args []Value) Value {
			n := int(vm.toInt(args[0], nil))
			c := vm.newCells(n)
			for i := range c {
				c[i] = Value{O: vm.newPathVar(8, false)}
			}
			return Value{O: &SliceV{c}}
		},
		S + "String": func(vm *VM, fn *Fn, args []Value) Value {
			n := int(vm.toInt(args[0], nil))
			c := make([]Value, n)
			for i := range c {
				c[i] = Value{O: vm.newPathVar(8, false)}
			}
			return mkStr(c)
		},
		S + "Assume": func(vm *VM, fn *Fn, args []Value) Value {
			vm.assume(vm.expr(args[0], 0))
			return Value{}
		},
		S + "Assert": func(vm *VM, fn *Fn, args []Value) Value {
			m, _ := strConcrete(args[1])
			vm.assert(args[0], m)
			return Value{}
		},
		S + "Reach": func(vm *VM, fn *Fn, args []Value) Value {
			m, _ := strConcrete(args[0])
			if vm.p.reach == nil {
				vm.p.reach = map[string]bool{}
			}
			vm.p.reach[m] = true
			return Value{}
		},
		S + "Obs": func(vm *VM, fn *Fn, args []Value) Value {
			vm.p.obs = append(vm.p.obs, obsItem{args[0], 64})
			return Value{}
		},
		S + "ObsB": func(vm *VM, fn *Fn, args []Value) Value {
			v := args[0]
			if v.O != nil {
				c := vm.ctx
				v = val(c.Ite(v.O.(*Expr), c.Const(1, 64), c.Const(0, 64)))
			}
			vm.p.obs = append(vm.p.obs, obsItem{v, 64})
			return Value{}
		},
		S + "ObsS": func(vm *VM, fn *Fn, args []Value) Value {
			v := args[0]
			if v.O == nil {
				v.O = ""
			}
			vm.p.obs = append(vm.p.obs, obsItem{v, 0})
			return Value{}
		},
		S + "MapOrder": func(vm *VM, fn *Fn, args []Value) Value {
			vm.p.mapOrder = int(int64(args[0].N))
			return Value{}
		},
		S + "Steps": func(vm *VM, fn *Fn, args []Value) Value {
			vm.p.maxSteps = int(args[0].N)
			return Value{}
		},
		S + "And": func(vm *VM, fn *Fn, args []Value) Value {
			return val(vm.ctx.And(vm.expr(args[0], 0), vm.expr(args[1], 0)))
		},
		S + "Or": func(vm *VM, fn *Fn, args []Value) Value {
			return val(vm.ctx.Or(vm.expr(args[0], 0), vm.expr(args[1], 0)))
		},
		S + "Ite": func(vm *VM, fn *Fn, args []Value) Value {
			return val(vm.ctx.Ite(vm.expr(args[0], 0), vm.expr(args[1], 64), vm.expr(args[2], 64)))
		},
		S + "Concrete": func(vm *VM, fn *Fn, args []Value) Value {
			if args[0].O == nil {
				return args[0]
			}
			return Value{N: vm.concretize(args[0].O.(*Expr))}
		},
		S + "ConcreteB": func(vm *VM, fn *Fn, args []Value) Value {
			if args[0].O == nil {
				return args[0]
			}
			return Value{N: vm.concretize(args[0].O.(*Expr))}
		},
		S + "Decide": func(vm *VM, fn *Fn, args []Value) Value {
			return bval(vm.decideV(args[0]))
		},
		S + "Try": func(vm *VM, fn *Fn, args []Value) Value {
			sp, depth, top := vm.sp, vm.depth, vm.top
			res := false
			func() {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(*targetPanic); !ok {
							panic(x)
						}
						vm.sp, vm.depth, vm.top = sp, depth, top
						res = true
					}
				}()
				vm.callClosure(args[0])
			}()
			return bval(res)
		},

		"runtime.NumCPU":     func(vm *VM, fn *Fn, args []Value) Value { return Value{N: 4} },
		"runtime.GOMAXPROCS": func(vm *VM, fn *Fn, args []Value) Value { return Value{N: 4} },
		"runtime.GC":         nop,
		"runtime.KeepAlive":  nop,
		"runtime.Gosched":    nop,

		"(*sync.WaitGroup).Add":     nop,
		"(*sync.WaitGroup).Done":    nop,
		"(*sync.WaitGroup).Wait":    nop,
		"(*sync.WaitGroup).Go": func(vm *VM, fn *Fn, args []Value) Value {
			vm.callClosure(args[1])
			return Value{}
		},

		"fmt.Sprintf": func(vm *VM, fn *Fn, args []Value) Value { return vm.sprintf(args[0], args[1]) },
		"fmt.Errorf":  func(vm *VM, fn *Fn, args []Value) Value { return vm.errorf(vm.sprintf(args[0], args[1])) },
		"fmt.Sprint": func(vm *VM, fn *Fn, args []Value) Value {
			var r Value
			if s, ok := args[0].O.(*SliceV); ok {
				for _, a := range s.a {
					r = strConcat(r, vm.format(a, 'v'))
				}
			}
			return r
		},
		"fmt.Println": nop,
		"fmt.Printf":  nop,
		"fmt.Print":   nop,

		"internal/abi.NoEscape":      func(vm *VM, fn *Fn, args []Value) Value { return args[0] },
		"internal/bytealg.MakeNoZero": func(vm *VM, fn *Fn, args []Value) Value {
			n := int(vm.toInt(args[0], nil))
			if n > 1<<24 {
				vm.end(endLimit, "slice too large")
			}
			return Value{O: &SliceV{vm.newCells(roundCap(n))[:n]}}
		},
		"internal/bytealg.IndexByte": func(vm *VM, fn *Fn, args []Value) Value {
			var b []Value
			if s, ok := args[0].O.(*SliceV); ok {
				b = s.a
			}
			return vm.indexByte(b, args[1])
		},
		"internal/bytealg.IndexByteString": func(vm *VM, fn *Fn, args []Value) Value {
			return vm.indexByte(strBytes(args[0]), args[1])
		},
		"internal/bytealg.Count": func(vm *VM, fn *Fn, args []Value) Value {
			var b []Value
			if s, ok := args[0].O.(*SliceV); ok {
				b = s.a
			}
			return vm.countByte(b, args[1])
		},
		"internal/bytealg.CountString": func(vm *VM, fn *Fn, args []Value) Value {
			return vm.countByte(strBytes(args[0]), args[1])
		},
		"internal/bytealg.Equal": func(vm *VM, fn *Fn, args []Value) Value { return vm.bytesEq(args[0], args[1]) },
		"bytes.Equal":            func(vm *VM, fn *Fn, args []Value) Value { return vm.bytesEq(args[0], args[1]) },
		"bytes.Compare": func(vm *VM, fn *Fn, args []Value) Value {
			return Value{N: uint64(int64(sgn(vm.strCmp(vm.toStr(args[0]), vm.toStr(args[1])))))}
		},
		"internal/bytealg.Compare": func(vm *VM, fn *Fn, args []Value) Value {
			return Value{N: uint64(int64(sgn(vm.strCmp(vm.toStr(args[0]), vm.toStr(args[1])))))}
		},
		"internal/bytealg.CompareString": func(vm *VM, fn *Fn, args []Value) Value {
			return Value{N: uint64(int64(sgn(vm.strCmp(args[0], args[1]))))}
		},
		"strings.Compare": func(vm *VM, fn *Fn, args []Value) Value {
			return Value{N: uint64(int64(sgn(vm.strCmp(args[0], args[1]))))}
		},
		"bytes.Index":       indexSub(true, false),
		"bytes.LastIndex":   indexSub(true, true),
		"strings.Index":     indexSub(false, false),
		"strings.LastIndex": indexSub(false, true),
		"bytes.Count":       countSub(true),
		"strings.Count":     countSub(false),
		"internal/stringslite.Index": indexSub(false, false),
		"internal/stringslite.Clone": func(vm *VM, fn *Fn, args []Value) Value { return args[0] },
		"strings.Clone":              func(vm *VM, fn *Fn, args []Value) Value { return args[0] },
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		var w uint8 = 64
		if strings.HasSuffix(t, "32") {
			w = 32
		}
		intrinsics["sync/atomic.Load"+t] = func(vm *VM, fn *Fn, args []Value) Value {
			vm.atomicPoint(cellOf(vm, args[0]))
			return *args[0].O.(*Value)
		}
		intrinsics["sync/atomic.Store"+t] = func(vm *VM, fn *Fn, args []Value) Value {
			vm.atomicPoint(cellOf(vm, args[0]))
			vm.setCell(args[0].O.(*Value), args[1])
			return Value{}
		}
		intrinsics["sync/atomic.Swap"+t] = func(vm *VM, fn *Fn, args []Value) Value {
			vm.atomicPoint(cellOf(vm, args[0]))
			p := args[0].O.(*Value)
			o := *p
			vm.setCell(p, args[1])
			return o
		}
		intrinsics["sync/atomic.Add"+t] = func(vm *VM, fn *Fn, args []Value) Value {
			vm.atomicPoint(cellOf(vm, args[0]))
			p := args[0].O.(*Value)
			v := val(vm.ctx.Add(vm.expr(*p, w), vm.expr(args[1], w)))
			vm.setCell(p, v)
			return v
		}
		intrinsics["sync/atomic.CompareAndSwap"+t] = func(vm *VM, fn *Fn, args []Value) Value {
			vm.atomicPoint(cellOf(vm, args[0]))
			p := args[0].O.(*Value)
			if p.N == args[1].N && p.O == args[1].O {
				vm.setCell(p, args[2])
				return Value{N: 1}
			}
			return Value{}
		}
	}
}

func sgn(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

func (vm *VM) toStr(v Value) Value {
	if s, ok := v.O.(*SliceV); ok {
		return mkStr(s.a)
	}
	return v
}

func (vm *VM) bytesEq(a, b Value) Value {
	return vm.eqVal(vm.rtype(types.Typ[types.String]), vm.toStr(a), vm.toStr(b))
}

func (vm *VM) indexByte(b []Value, c Value) Value {
	ce := vm.expr(c, 8)
	for i := range b {
		vm.p.steps++
		if b[i].O == nil && c.O == nil {
			if b[i].N == c.N {
				return Value{N: uint64(i)}
			}
			continue
		}
		if vm.decide(vm.ctx.Eq(vm.expr(b[i], 8), ce)) {
			return Value{N: uint64(i)}
		}
	}
	return Value{N: ^uint64(0)}
}

func (vm *VM) countByte(b []Value, c Value) Value {
	ce := vm.expr(c, 8)
	n := 0
	var r *Expr
	for i := range b {
		vm.p.steps++
		if b[i].O == nil && c.O == nil {
			if b[i].N == c.N {
				n++
			}
			continue
		}
		e := vm.ctx.Eq(vm.expr(b[i], 8), ce)
		if e.Op == OConst {
			n += int(e.V)
			continue
		}
		if vm.decide(e) {
			n++
		}
	}
	_ = r
	return Value{N: uint64(n)}
}

func (vm *VM) matchAt(b, s []Value, i int) bool {
	r := vm.ctx.True
	for j := range s {
		r = vm.ctx.And(r, vm.ctx.Eq(vm.expr(b[i+j], 8), vm.expr(s[j], 8)))
		if r.Op == OConst && r.V == 0 {
			return false
		}
	}
	return vm.decide(r)
}

func (vm *VM) rawBytes(v Value, isB bool) []Value {
	if isB {
		if s, ok := v.O.(*SliceV); ok {
			return s.a
		}
		return nil
	}
	return strBytes(v)
}

func indexSub(isB, last bool) intrinsic {
	return func(vm *VM, fn *Fn, args []Value) Value {
		b, s := vm.rawBytes(args[0], isB), vm.rawBytes(args[1], isB)
		n := len(b) - len(s)
		for k := 0; k <= n; k++ {
			vm.p.steps++
			i := k
			if last {
				i = n - k
			}
			if vm.matchAt(b, s, i) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
}

func countSub(isB bool) intrinsic {
	return func(vm *VM, fn *Fn, args []Value) Value {
		b, s := vm.rawBytes(args[0], isB), vm.rawBytes(args[1], isB)
		if len(s) == 0 {
			for i := range b {
				if b[i].O != nil || b[i].N >= 0x80 {
					panic(engineErr("Count of empty separator"))
				}
			}
			return Value{N: uint64(len(b) + 1)}
		}
		c := 0
		for i := 0; i+len(s) <= len(b); {
			vm.p.steps++
			if vm.matchAt(b, s, i) {
				c++
				i += len(s)
			} else {
				i++
			}
		}
		return Value{N: uint64(c)}
	}
}

// sprintf is a small model of fmt: enough for messages. Symbolic numbers are
// printed as "?"; the harness never depends on them.
func (vm *VM) sprintf(f, a Value) Value {
	fs, ok := strConcrete(f)
	if !ok {
		return strConst("<format>")
	}
	var args []Value
	if s, ok := a.O.(*SliceV); ok {
		args = s.a
	}
	var out Value
	k := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			j := i
			for j < len(fs) && fs[j] != '%' {
				j++
			}
			out = strConcat(out, strConst(fs[i:j]))
			i = j - 1
			continue
		}
		i++
		for i < len(fs) && strings.IndexByte("+-# 0123456789.*", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) {
			break
		}
		if fs[i] == '%' {
			out = strConcat(out, strConst("%"))
			continue
		}
		if k < len(args) {
			out = strConcat(out, vm.format(args[k], fs[i]))
			k++
		}
	}
	return out
}

func (vm *VM) format(a Value, verb byte) Value {
	i, _ := a.O.(*Iface)
	if i == nil {
		return strConst("<nil>")
	}
	if verb == 'T' {
		return strConst(i.t.T.String())
	}
	for _, m := range []string{"Error", "String"} {
		ms := vm.eng.methodNamed(i.t.T, m)
		if ms != nil && verb != 'd' && verb != 'c' {
			return vm.call(vm.fnOf(ms), []Value{i.v}, nil)
		}
	}
	switch i.t.K {
	case KString:
		if verb == 'q' {
			if s, ok := strConcrete(i.v); ok {
				return strConst(strconv.Quote(s))
			}
		}
		return i.v
	case KInt:
		if i.v.O != nil {
			return strConst("?")
		}
		if verb == 'c' {
			return strConst(string(rune(i.v.N)))
		}
		if verb == 'x' {
			return strConst(fmt.Sprintf("%x", i.v.N))
		}
		if i.t.Signed {
			return strConst(fmt.Sprint(signExt(i.v.N, i.t.W)))
		}
		return strConst(fmt.Sprint(i.v.N))
	case KBool:
		if i.v.O != nil {
			return strConst("?")
		}
		return strConst(fmt.Sprint(i.v.N != 0))
	case KSlice:
		if verb == 's' && i.t.Elem.W == 8 {
			return vm.toStr(i.v)
		}
		s, _ := i.v.O.(*SliceV)
		out := strConst("[")
		if s != nil {
			for k, x := range s.a {
				if k > 0 {
					out = strConcat(out, strConst(" "))
				}
				if i.t.Elem.K == KIface {
					out = strConcat(out, vm.format(x, verb))
				} else {
					out = strConcat(out, vm.format(Value{O: &Iface{i.t.Elem, x}}, verb))
				}
			}
		}
		return strConcat(out, strConst("]"))
	}
	return strConst("<" + i.t.T.String() + ">")
}
