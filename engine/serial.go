package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// Models of encoding/gob, encoding/json and compress/gzip: what they document
// about values, in a byte format of their own. The bytes of the format are
// concrete except where they stand for symbolic data.

type codecErr string

type gzWriter struct {
	w       Value // io.Writer
	rt      *RType
	started bool
	closed  bool
	pend    []Value
	crc     [4]Value
	n       int
}

type gzReader struct {
	src     []Value
	payload []Value
	crc     [4]Value
	n       int
	err     Value
	failed  bool
}

type gobEnc struct{ w Value }

type gobDec struct {
	r   Value
	buf []Value
	err Value
}

var errType = types.Universe.Lookup("error").Type()

func fail(f string, a ...any) { panic(codecErr(fmt.Sprintf(f, a...))) }

// try runs f; a codecErr becomes an error value.
func (vm *VM) codecTry(f func()) (err Value) {
	sp, depth, top := vm.sp, vm.depth, vm.top
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(codecErr)
			if !ok {
				if ev, ok := x.(Value); ok {
					vm.sp, vm.depth, vm.top = sp, depth, top
					err = ev
					return
				}
				panic(x)
			}
			vm.sp, vm.depth, vm.top = sp, depth, top
			err = vm.errorf(strConst(string(e)))
		}
	}()
	f()
	return Value{}
}

func (vm *VM) methodOf(t types.Type, name string) *ssaFn {
	ms := vm.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name && s.Obj().Exported() {
			return vm.fnOf(vm.eng.prog.MethodValue(s))
		}
	}
	return nil
}

type ssaFn = Fn

// invoke calls a method of an interface value.
func (vm *VM) invoke(iv Value, name string, args ...Value) Value {
	i, _ := iv.O.(*Iface)
	if i == nil {
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	fn := vm.methodOf(i.t.T, name)
	if fn == nil {
		panic(engineErr("no method " + name + " on " + i.t.T.String()))
	}
	return vm.call(fn, append([]Value{i.v}, args...), nil)
}

func tuple(vs ...Value) Value { return Value{O: &Agg{f: vs}} }

func mkSlice(b []Value) Value {
	if b == nil {
		return Value{}
	}
	return Value{O: &SliceV{b}}
}

// writeTo writes to an io.Writer; an error is thrown.
func (vm *VM) writeTo(w Value, b []Value) {
	r := vm.invoke(w, "Write", mkSlice(append(vm.newCells(0), b...)))
	if e := r.O.(*Agg).f[1]; e.O != nil {
		panic(e)
	}
}

// readSome reads once from an io.Reader.
func (vm *VM) readSome(r Value, max int) ([]Value, Value) {
	b := vm.newCells(max)
	res := vm.invoke(r, "Read", Value{O: &SliceV{b}}).O.(*Agg)
	n := int(vm.toInt(res.f[0], nil))
	return b[:n], res.f[1]
}

func (vm *VM) ioErr(name string) Value {
	p := vm.eng.pkgs["io"]
	return *vm.global(p.Var(name))
}

func opaque(vm *VM, o any) Value {
	c := vm.newCell()
	*c = Value{O: o}
	return Value{O: c}
}

func xorCRC(vm *VM, crc *[4]Value, n *int, b []Value) {
	for _, x := range b {
		k := *n % 4
		*n++
		crc[k] = val(vm.ctx.Bin(OBXor, vm.expr(crc[k], 8), vm.expr(x, 8)))
	}
}

func u32cells(n int) []Value {
	return []Value{{N: uint64(n >> 24 & 255)}, {N: uint64(n >> 16 & 255)}, {N: uint64(n >> 8 & 255)}, {N: uint64(n & 255)}}
}

var gzHeader = []uint64{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255}

func (z *gzWriter) start(vm *VM) {
	if !z.started {
		z.started = true
		var h []Value
		for _, x := range gzHeader {
			h = append(h, Value{N: x})
		}
		vm.writeTo(z.w, h)
	}
}

func (vm *VM) eqByte(v Value, c uint64) bool {
	return vm.decideV(val(vm.ctx.Eq(vm.expr(v, 8), vm.ctx.Const(c, 8))))
}

// next makes payload available or sets the final error.
func (z *gzReader) next(vm *VM) {
	for len(z.payload) == 0 && !z.failed {
		stop := func(e Value) { z.failed, z.err = true, e }
		if len(z.src) == 0 {
			stop(vm.ioErr("ErrUnexpectedEOF"))
			return
		}
		if vm.eqByte(z.src[0], 1) {
			if len(z.src) < 5 {
				stop(vm.ioErr("ErrUnexpectedEOF"))
				return
			}
			n := 0
			for _, c := range z.src[1:5] {
				n = n<<8 | int(vm.toInt(c, nil))
			}
			z.src = z.src[5:]
			if n > len(z.src) {
				n = len(z.src)
			}
			z.payload, z.src = z.src[:n], z.src[n:]
			xorCRC(vm, &z.crc, &z.n, z.payload)
			continue
		}
		if !vm.eqByte(z.src[0], 0) {
			stop(vm.errorf(strConst("flate: corrupt input")))
			return
		}
		z.src = z.src[1:]
		if len(z.src) < 8 {
			stop(vm.ioErr("ErrUnexpectedEOF"))
			return
		}
		ok := vm.ctx.True
		for i, c := range append(append([]Value(nil), z.crc[:]...), u32cells(z.n)...) {
			ok = vm.ctx.And(ok, vm.ctx.Eq(vm.expr(c, 8), vm.expr(z.src[i], 8)))
		}
		if !vm.decide(ok) {
			stop(vm.errorf(strConst("gzip: invalid checksum")))
			return
		}
		if len(z.src) > 8 {
			stop(vm.errorf(strConst("gzip: invalid header")))
			return
		}
		stop(vm.ioErr("EOF"))
	}
}

// ---- values ----

type vEnc struct {
	vm   *VM
	out  []Value
	json bool
}

func (e *vEnc) b(x byte)     { e.out = append(e.out, Value{N: uint64(x)}) }
func (e *vEnc) u32(n int)    { e.out = append(e.out, u32cells(n)...) }
func (e *vEnc) str(s string) { e.u32(len(s)); e.out = append(e.out, strBytes(strConst(s))...) }

func (e *vEnc) word(v Value, w uint8, signed bool) {
	vm := e.vm
	if w == 0 {
		w = 64
	}
	x := vm.ctx.Resize(vm.expr(v, w), 64, signed)
	for k := uint64(0); k < 8; k++ {
		e.out = append(e.out, val(byteOf(vm, x, k)))
	}
}

func byteOf(vm *VM, x *Expr, k uint64) *Expr {
	return vm.ctx.Resize(vm.ctx.Bin(OLShr, x, vm.ctx.Const(8*k, 64)), 8, false)
}

func (vm *VM) wordOf(c []Value) Value {
	// the bytes of one term, in order
	if e, ok := c[0].O.(*Expr); ok && e.Op == OTrunc && e.A != nil && e.A.W == 64 {
		same := true
		for k := range c {
			same = same && vm.expr(c[k], 8) == byteOf(vm, e.A, uint64(k))
		}
		if same {
			return val(e.A)
		}
	}
	r := vm.ctx.Const(0, 64)
	for k := range c {
		b := vm.ctx.Resize(vm.expr(c[k], 8), 64, false)
		r = vm.ctx.Bin(OBOr, r, vm.ctx.Bin(OShl, b, vm.ctx.Const(uint64(8*k), 64)))
	}
	return val(r)
}

func isByte(rt *RType) bool { return rt.K == KInt && rt.W == 8 && !rt.Signed }

func aggAt(v Value, i int) Value {
	if a, ok := v.O.(*Agg); ok {
		return a.f[i]
	}
	return Value{}
}

// jsonField gives the key of a field and whether it is sent when empty.
func jsonField(f *types.Var, tag string) (name string, omit, skip bool) {
	name = f.Name()
	t := reflect.StructTag(tag).Get("json")
	if t == "-" {
		return "", false, true
	}
	p := strings.Split(t, ",")
	if p[0] != "" {
		name = p[0]
	}
	for _, o := range p[1:] {
		switch o {
		case "omitempty", "omitzero":
			omit = true
		default:
			panic(engineErr("json tag " + tag))
		}
	}
	return name, omit, false
}

// custom encodes with the methods a type defines for the purpose.
func (e *vEnc) custom(rt *RType, v Value, addr bool) bool {
	vm := e.vm
	names := []string{"GobEncode", "MarshalBinary"}
	if e.json {
		names = []string{"MarshalJSON", "MarshalText"}
	}
	if _, ok := rt.T.(*types.Named); !ok {
		return false
	}
	for _, n := range names {
		fn := vm.methodOf(rt.T, n)
		recv := v
		if fn == nil && (addr || !e.json) {
			if fn = vm.methodOf(types.NewPointer(rt.T), n); fn != nil {
				c := vm.newCell()
				vm.storeVal(c, vm.copyVal(v))
				recv = Value{O: c}
			}
		}
		if fn == nil {
			continue
		}
		r := vm.call(fn, []Value{recv}, nil).O.(*Agg)
		if r.f[1].O != nil {
			panic(r.f[1])
		}
		b := vm.rawBytes(r.f[0], true)
		e.b('C')
		e.u32(len(b))
		e.out = append(e.out, b...)
		return true
	}
	return false
}

// zero says whether gob leaves a field out.
func (e *vEnc) zero(rt *RType, v Value) bool {
	switch rt.K {
	case KBool:
		return !e.vm.decideV(v)
	case KInt:
		return e.vm.decideV(val(e.vm.ctx.Eq(e.vm.expr(v, rt.W), e.vm.ctx.Const(0, rt.W))))
	case KFloat:
		return v.N == 0
	case KString:
		return strLen(v) == 0
	case KSlice:
		s, _ := v.O.(*SliceV)
		return s == nil || len(s.a) == 0
	case KMap:
		return v.O == nil || (e.json && v.O.(*MapObj).live == 0)
	case KPtr, KIface, KChan, KFunc:
		return v.O == nil
	case KArray:
		return rt.Len == 0
	}
	return false
}

func (e *vEnc) enc(rt *RType, v Value, addr bool) {
	vm := e.vm
	if rt.K != KPtr && rt.K != KIface && e.custom(rt, v, addr) {
		return
	}
	switch rt.K {
	case KBool:
		e.b('O')
		x := vm.decideV(v)
		if x {
			e.b(1)
		} else {
			e.b(0)
		}
	case KInt:
		if rt.Signed {
			e.b('I')
		} else {
			e.b('U')
		}
		e.b(rt.W)
		e.word(v, rt.W, rt.Signed)
	case KFloat:
		e.b('F')
		e.b(rt.W)
		e.word(v, rt.W, false)
	case KString:
		b := strBytes(v)
		if e.json {
			e.ascii(b)
		}
		e.b('T')
		e.u32(len(b))
		e.out = append(e.out, b...)
	case KSlice:
		s, _ := v.O.(*SliceV)
		if e.json && s == nil {
			e.b('0')
			return
		}
		var a []Value
		if s != nil {
			a = s.a
		}
		if isByte(rt.Elem) {
			e.b('B')
			e.u32(len(a))
			e.out = append(e.out, a...)
			return
		}
		e.b('L')
		e.u32(len(a))
		for _, x := range a {
			e.elem(rt.Elem, x, true)
		}
	case KArray:
		e.b('L')
		e.u32(rt.Len)
		for i := 0; i < rt.Len; i++ {
			e.elem(rt.Elem, aggAt(v, i), addr)
		}
	case KMap:
		m, _ := v.O.(*MapObj)
		if m == nil {
			if e.json {
				e.b('0')
				return
			}
			m = newMap(false)
		}
		e.b('M')
		e.u32(m.live)
		for _, x := range m.ents {
			if !x.dead {
				e.elem(rt.Key, x.k, false)
				e.elem(rt.Elem, x.v, false)
			}
		}
	case KPtr:
		p, _ := v.O.(*Value)
		if p == nil {
			if e.json {
				e.b('0')
				return
			}
			fail("gob: encodeReflectValue: nil element")
		}
		e.enc(vm.rtype(deref(rt.T)), *p, true)
	case KIface:
		i, _ := v.O.(*Iface)
		if e.json {
			if i == nil {
				e.b('0')
				return
			}
			e.enc(i.t, i.v, false)
			return
		}
		e.b('N')
		if i == nil {
			e.str("")
			return
		}
		t, x := i.t, i.v
		for t.K == KPtr {
			p, _ := x.O.(*Value)
			if p == nil {
				fail("gob: cannot encode nil pointer of type %s inside interface", i.t.T)
			}
			t, x = vm.rtype(deref(t.T)), *p
		}
		name, ok := vm.gobNames[t.T.String()]
		if !ok {
			fail("gob: type not registered for interface: %s", t.T)
		}
		e.str(name)
		e.enc(t, x, false)
	case KStruct:
		st := rt.T.Underlying().(*types.Struct)
		e.b('S')
		at := len(e.out)
		e.b(0)
		n, usable := 0, 0
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			name := f.Name()
			omit := !e.json
			if e.json {
				var skip bool
				if f.Anonymous() && f.Exported() {
					panic(engineErr("json: embedded field"))
				}
				if f.Exported() {
					if name, omit, skip = jsonField(f, st.Tag(i)); skip {
						continue
					}
				}
			} else if rt.Fields[i].K == KFunc || rt.Fields[i].K == KChan {
				continue
			}
			if !f.Exported() {
				continue
			}
			usable++
			x := aggAt(v, i)
			if omit && e.zero(rt.Fields[i], x) {
				continue
			}
			n++
			e.str(name)
			e.enc(rt.Fields[i], x, addr)
		}
		if !e.json && usable == 0 && st.NumFields() > 0 {
			fail("gob: type %s has no exported fields", rt.T)
		}
		if n > 255 {
			panic(engineErr("codec: too many fields"))
		}
		e.out[at].N = uint64(n)
	default:
		if e.json {
			fail("json: unsupported type: %s", rt.T)
		}
		fail("gob: type %s cannot be encoded", rt.T)
	}
}

func (e *vEnc) elem(rt *RType, v Value, addr bool) { e.enc(rt, v, addr) }

// ascii requires plain text: json replaces what is not valid UTF-8.
func (e *vEnc) ascii(b []Value) {
	for _, x := range b {
		if x.O == nil {
			if x.N >= 0x80 {
				panic(engineErr("json: non-ASCII text"))
			}
			continue
		}
		if !e.vm.decide(e.vm.ctx.Ult(e.vm.expr(x, 8), e.vm.ctx.Const(0x80, 8))) {
			panic(engineErr("json: non-ASCII text"))
		}
	}
}

type vDec struct {
	vm   *VM
	in   []Value
	json bool
	errs string // first mismatch; json goes on decoding
}

func (d *vDec) take(n int) []Value {
	if n < 0 || n > len(d.in) {
		fail("unexpected end of input")
	}
	r := d.in[:n]
	d.in = d.in[n:]
	return r
}

func (d *vDec) b() byte { return byte(d.vm.toInt(d.take(1)[0], nil)) }

func (d *vDec) u32() int {
	n := 0
	for _, c := range d.take(4) {
		n = n<<8 | int(d.vm.toInt(c, nil))
	}
	if n > 1<<24 {
		fail("corrupt length")
	}
	return n
}

func (d *vDec) str() string {
	b := d.take(d.u32())
	s := make([]byte, len(b))
	for i := range b {
		s[i] = byte(d.vm.toInt(b[i], nil))
	}
	return string(s)
}

// skip passes over a value.
func (d *vDec) skip() { d.dec(nil, nil) }

func (d *vDec) mismatch(what string, rt *RType) {
	if d.errs == "" {
		t := "nothing"
		if rt != nil {
			t = rt.T.String()
		}
		d.errs = "cannot decode " + what + " into " + t
	}
	if !d.json {
		fail("gob: %s", d.errs)
	}
}

func (d *vDec) custom(tag byte, rt *RType, p *Value) bool {
	vm := d.vm
	if _, ok := rt.T.(*types.Named); !ok {
		return false
	}
	names := []string{"GobDecode", "UnmarshalBinary"}
	if d.json {
		names = []string{"UnmarshalJSON", "UnmarshalText"}
	}
	for _, n := range names {
		fn := vm.methodOf(types.NewPointer(rt.T), n)
		if fn == nil {
			continue
		}
		if tag != 'C' {
			d.mismatch("a plain value", rt)
			return false
		}
		b := append(vm.newCells(0), d.take(d.u32())...)
		if r := vm.call(fn, []Value{{O: p}, mkSlice(b)}, nil); r.O != nil {
			panic(r)
		}
		return true
	}
	return false
}

// dec reads a value into a cell of type rt; rt nil skips it.
func (d *vDec) dec(rt *RType, p *Value) {
	vm := d.vm
	for rt != nil && rt.K == KPtr {
		if len(d.in) > 0 && d.in[0].O == nil && d.in[0].N == '0' {
			d.b()
			vm.setCell(p, Value{})
			return
		}
		q, _ := p.O.(*Value)
		if q == nil {
			q = vm.newCell()
			vm.setCell(p, Value{O: q})
		}
		rt, p = vm.rtype(deref(rt.T)), q
	}
	tag := d.b()
	if rt != nil && tag != '0' && d.custom(tag, rt, p) {
		return
	}
	want := func(ok bool, what string) {
		if rt != nil && !ok {
			d.mismatch(what, rt)
			rt = nil
		}
	}
	if rt != nil && d.json && rt.K == KIface && tag != '0' {
		if rt.T.Underlying().(*types.Interface).NumMethods() == 0 {
			panic(engineErr("json: value of any type"))
		}
		want(false, "a value")
	}
	switch tag {
	case '0':
		if rt != nil {
			switch rt.K {
			case KIface, KMap, KSlice:
				vm.setCell(p, Value{})
			}
		}
	case 'C':
		want(false, "a custom encoding")
		d.take(d.u32())
	case 'O':
		want(rt == nil || rt.K == KBool, "bool")
		x := d.b()
		if rt != nil {
			vm.setCell(p, Value{N: uint64(x)})
		}
	case 'I', 'U', 'F':
		w := d.b()
		x := vm.wordOf(d.take(8))
		if tag == 'F' {
			want(rt == nil || rt.K == KFloat, "float")
			if rt != nil {
				vm.setCell(p, x)
			}
			return
		}
		want(rt == nil || (rt.K == KInt && (d.json || rt.Signed == (tag == 'I'))), "integer")
		if rt == nil {
			return
		}
		e := vm.expr(x, 64)
		y := vm.ctx.Resize(e, rt.W, false)
		if w > rt.W || rt.Signed != (tag == 'I') {
			fits := vm.ctx.Eq(vm.ctx.Resize(y, 64, rt.Signed), e)
			if rt.Signed != (tag == 'I') {
				fits = vm.ctx.And(fits, vm.ctx.Not(vm.ctx.Slt(e, vm.ctx.Const(0, 64))))
			}
			if !vm.decide(fits) {
				d.mismatch("number out of range", rt)
				return
			}
		}
		vm.setCell(p, val(y))
	case 'T':
		want(rt == nil || rt.K == KString, "string")
		b := d.take(d.u32())
		if rt != nil {
			vm.setCell(p, mkStr(b))
		}
	case 'B':
		want(rt == nil || (rt.K == KSlice && isByte(rt.Elem)), "bytes")
		b := d.take(d.u32())
		if rt != nil {
			c := vm.newCells(len(b))
			copy(c, b)
			vm.setCell(p, Value{O: &SliceV{c}})
		}
	case 'L':
		n := d.u32()
		want(rt == nil || ((rt.K == KSlice || rt.K == KArray) && !isByte(rt.Elem)), "list")
		if rt == nil {
			for i := 0; i < n; i++ {
				d.skip()
			}
			return
		}
		if rt.K == KArray {
			if !d.json && n != rt.Len {
				d.mismatch("array of another length", rt)
			}
			a := vm.aggOf(p, rt)
			for i := 0; i < n; i++ {
				if i < rt.Len {
					d.dec(rt.Elem, &a.f[i])
				} else {
					d.skip()
				}
			}
			for i := n; i < rt.Len; i++ {
				vm.storeVal(&a.f[i], Value{})
			}
			return
		}
		s, _ := p.O.(*SliceV)
		var c []Value
		if s != nil && cap(s.a) >= n {
			c = s.a[:n]
		} else {
			c = vm.newCells(n)
			if s != nil {
				copy(c, s.a)
			}
		}
		vm.setCell(p, Value{O: &SliceV{c}})
		for i := 0; i < n; i++ {
			d.dec(rt.Elem, &c[i])
		}
	case 'M':
		n := d.u32()
		want(rt == nil || rt.K == KMap, "map")
		if rt == nil {
			for i := 0; i < 2*n; i++ {
				d.skip()
			}
			return
		}
		m, _ := p.O.(*MapObj)
		if m == nil {
			m = newMap(vm.initing)
			vm.setCell(p, Value{O: m})
		}
		for i := 0; i < n; i++ {
			k, v := vm.newCell(), vm.newCell()
			d.dec(rt.Key, k)
			d.dec(rt.Elem, v)
			vm.mapSet(m, rt.Key, *k, *v)
		}
	case 'N':
		want(rt == nil || rt.K == KIface, "interface")
		name := d.str()
		if name == "" {
			if rt != nil {
				vm.setCell(p, Value{})
			}
			return
		}
		t := vm.gobTypes[name]
		if t == nil {
			fail("gob: name not registered for interface: %q", name)
		}
		if rt == nil {
			d.skip()
			return
		}
		if !types.AssignableTo(t.T, rt.T) {
			fail("gob: %s is not assignable to type %s", t.T, rt.T)
		}
		c := vm.newCell()
		d.dec(t, c)
		vm.setCell(p, Value{O: &Iface{t, *c}})
	case 'S':
		n := int(d.b())
		want(rt == nil || rt.K == KStruct, "struct")
		var st *types.Struct
		var a *Agg
		if rt != nil {
			st = rt.T.Underlying().(*types.Struct)
			a = vm.aggOf(p, rt)
			use := 0
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Exported() {
					use++
				}
			}
			if !d.json && use == 0 && st.NumFields() > 0 {
				fail("gob: type %s has no exported fields", rt.T)
			}
		}
		matched := 0
		for ; n > 0; n-- {
			name := d.str()
			k := -1
			for i := 0; st != nil && i < st.NumFields(); i++ {
				f := st.Field(i)
				if !f.Exported() {
					continue
				}
				fn, skip := f.Name(), false
				if d.json {
					if fn, _, skip = jsonField(f, st.Tag(i)); skip {
						continue
					}
				}
				if fn == name || (d.json && k < 0 && strings.EqualFold(fn, name)) {
					k = i
				}
			}
			if k < 0 {
				d.skip()
				continue
			}
			matched++
			d.dec(rt.Fields[k], &a.f[k])
		}
	default:
		fail("corrupt data")
	}
}

// registered names, as package gob computes them
func gobName(t types.Type) string {
	star := ""
	if p, ok := t.(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok {
			return "*" + n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return star + t.String()
	}
	return t.String()
}

func (vm *VM) gobRegister(name string, iv Value) {
	i, _ := iv.O.(*Iface)
	if i == nil {
		vm.rtPanic("gob: attempt to register nil")
	}
	base := i.t.T
	for {
		p, ok := base.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		base = p.Elem()
	}
	if vm.gobNames == nil {
		vm.gobNames, vm.gobTypes = map[string]string{}, map[string]*RType{}
	}
	if t, ok := vm.gobTypes[name]; ok && t != i.t {
		vm.end(endPanic, "gob: registering duplicate types for "+name)
	}
	if n, ok := vm.gobNames[base.String()]; ok && n != name {
		vm.end(endPanic, "gob: registering duplicate names for "+base.String())
	}
	vm.gobTypes[name] = i.t
	vm.gobNames[base.String()] = name
}

func init() {
	get := func(vm *VM, v Value) any { return cellOf(vm, v).O }
	intrinsics["encoding/gob.Register"] = func(vm *VM, fn *Fn, args []Value) Value {
		i, _ := args[0].O.(*Iface)
		if i == nil {
			vm.rtPanic("gob: attempt to register nil")
		}
		vm.gobRegister(gobName(i.t.T), args[0])
		return Value{}
	}
	intrinsics["encoding/gob.RegisterName"] = func(vm *VM, fn *Fn, args []Value) Value {
		s, _ := strConcrete(args[0])
		vm.gobRegister(s, args[1])
		return Value{}
	}
	intrinsics["compress/gzip.NewWriter"] = func(vm *VM, fn *Fn, args []Value) Value {
		return opaque(vm, &gzWriter{w: args[0]})
	}
	intrinsics["compress/gzip.NewWriterLevel"] = func(vm *VM, fn *Fn, args []Value) Value {
		l := vm.toInt(args[1], vm.rtype(types.Typ[types.Int]))
		if l < -2 || l > 9 {
			return tuple(Value{}, vm.errorf(strConst("gzip: invalid compression level")))
		}
		return tuple(opaque(vm, &gzWriter{w: args[0]}), Value{})
	}
	intrinsics["(*compress/gzip.Writer).Write"] = func(vm *VM, fn *Fn, args []Value) Value {
		z := get(vm, args[0]).(*gzWriter)
		b := vm.rawBytes(args[1], true)
		err := vm.codecTry(func() {
			if z.closed {
				fail("gzip: write after close")
			}
			z.start(vm)
			if len(b) == 0 {
				return
			}
			xorCRC(vm, &z.crc, &z.n, b)
			// held back until Flush or Close, as the compressor does
			z.pend = append(z.pend, b...)
		})
		return tuple(Value{N: uint64(len(b))}, err)
	}
	flush := func(vm *VM, z *gzWriter) {
		z.start(vm)
		if len(z.pend) > 0 {
			b := append([]Value{{N: 1}}, u32cells(len(z.pend))...)
			b = append(b, z.pend...)
			z.pend = nil
			vm.writeTo(z.w, b)
		}
	}
	intrinsics["(*compress/gzip.Writer).Flush"] = func(vm *VM, fn *Fn, args []Value) Value {
		z := get(vm, args[0]).(*gzWriter)
		return vm.codecTry(func() {
			if !z.closed {
				flush(vm, z)
			}
		})
	}
	intrinsics["(*compress/gzip.Writer).Close"] = func(vm *VM, fn *Fn, args []Value) Value {
		z := get(vm, args[0]).(*gzWriter)
		return vm.codecTry(func() {
			if z.closed {
				return
			}
			flush(vm, z)
			z.closed = true
			b := append([]Value{{}}, z.crc[:]...)
			vm.writeTo(z.w, append(b, u32cells(z.n)...))
		})
	}
	intrinsics["compress/gzip.NewReader"] = func(vm *VM, fn *Fn, args []Value) Value {
		z := &gzReader{}
		err := vm.codecTry(func() {
			for {
				b, e := vm.readSome(args[0], 512)
				z.src = append(z.src, b...)
				if e.O != nil {
					if e.O != vm.ioErr("EOF").O {
						panic(e)
					}
					break
				}
			}
			if len(z.src) == 0 {
				panic(vm.ioErr("EOF"))
			}
			if len(z.src) < 10 {
				panic(vm.ioErr("ErrUnexpectedEOF"))
			}
			for i := 0; i < 4; i++ {
				if !vm.eqByte(z.src[i], gzHeader[i]) {
					fail("gzip: invalid header")
				}
			}
			z.src = z.src[10:]
		})
		if err.O != nil {
			return tuple(Value{}, err)
		}
		return tuple(opaque(vm, z), Value{})
	}
	intrinsics["(*compress/gzip.Reader).Read"] = func(vm *VM, fn *Fn, args []Value) Value {
		z := get(vm, args[0]).(*gzReader)
		b := vm.rawBytes(args[1], true)
		z.next(vm)
		n := copy(b, z.payload)
		z.payload = z.payload[n:]
		if n == 0 && len(b) == 0 {
			return tuple(Value{}, Value{})
		}
		z.next(vm)
		if len(z.payload) == 0 && z.failed {
			return tuple(Value{N: uint64(n)}, z.err)
		}
		return tuple(Value{N: uint64(n)}, Value{})
	}
	intrinsics["(*compress/gzip.Reader).Close"] = func(vm *VM, fn *Fn, args []Value) Value {
		get(vm, args[0])
		return Value{}
	}
	intrinsics["encoding/gob.NewEncoder"] = func(vm *VM, fn *Fn, args []Value) Value {
		return opaque(vm, &gobEnc{w: args[0]})
	}
	intrinsics["(*encoding/gob.Encoder).Encode"] = func(vm *VM, fn *Fn, args []Value) Value {
		g := get(vm, args[0]).(*gobEnc)
		return vm.codecTry(func() {
			i, _ := args[1].O.(*Iface)
			if i == nil {
				fail("gob: cannot encode nil pointer")
			}
			e := &vEnc{vm: vm}
			e.enc(i.t, i.v, false)
			vm.writeTo(g.w, append(u32cells(len(e.out)), e.out...))
		})
	}
	intrinsics["encoding/gob.NewDecoder"] = func(vm *VM, fn *Fn, args []Value) Value {
		return opaque(vm, &gobDec{r: args[0]})
	}
	intrinsics["(*encoding/gob.Decoder).Decode"] = func(vm *VM, fn *Fn, args []Value) Value {
		g := get(vm, args[0]).(*gobDec)
		fill := func(n int) {
			for len(g.buf) < n {
				if g.err.O != nil {
					if len(g.buf) > 0 && g.err.O == vm.ioErr("EOF").O {
						panic(vm.ioErr("ErrUnexpectedEOF"))
					}
					panic(g.err)
				}
				var b []Value
				b, g.err = vm.readSome(g.r, 4096)
				g.buf = append(g.buf, b...)
			}
		}
		return vm.codecTry(func() {
			i, _ := args[1].O.(*Iface)
			if i == nil || i.t.K != KPtr {
				fail("gob: attempt to decode into a non-pointer")
			}
			fill(4)
			d := &vDec{vm: vm, in: g.buf[:4]}
			n := d.u32()
			if len(g.buf) < 4+n {
				func() {
					defer func() {
						if x := recover(); x != nil {
							if v, ok := x.(Value); ok && v.O == vm.ioErr("EOF").O {
								panic(vm.ioErr("ErrUnexpectedEOF"))
							}
							panic(x)
						}
					}()
					fill(4 + n)
				}()
			}
			d.in = g.buf[4 : 4+n]
			g.buf = g.buf[4+n:]
			p, _ := i.v.O.(*Value)
			if p == nil {
				fail("gob: nil pointer")
			}
			d.dec(vm.rtype(deref(i.t.T)), p)
		})
	}
	intrinsics["encoding/json.Marshal"] = func(vm *VM, fn *Fn, args []Value) Value {
		e := &vEnc{vm: vm, json: true}
		err := vm.codecTry(func() {
			if i, _ := args[0].O.(*Iface); i != nil {
				e.b('{')
				e.enc(i.t, i.v, false)
				e.b('}')
			} else {
				e.b('0')
			}
		})
		if err.O != nil {
			return tuple(Value{}, err)
		}
		c := vm.newCells(len(e.out))
		copy(c, e.out)
		return tuple(mkSlice(c), Value{})
	}
	intrinsics["encoding/json.Unmarshal"] = func(vm *VM, fn *Fn, args []Value) Value {
		return vm.codecTry(func() {
			d := &vDec{vm: vm, in: vm.rawBytes(args[0], true), json: true}
			i, _ := args[1].O.(*Iface)
			if i == nil || i.t.K != KPtr || i.v.O == nil {
				fail("json: Unmarshal(non-pointer)")
			}
			scan := &vDec{vm: vm, in: d.in, json: true}
			for _, s := range []*vDec{scan, d} {
				if s.b() != '{' {
					fail("invalid character")
				}
				if s == scan {
					s.skip()
				} else {
					s.dec(vm.rtype(deref(i.t.T)), i.v.O.(*Value))
				}
				if s.b() != '}' || len(s.in) != 0 {
					fail("invalid character")
				}
			}
			if d.errs != "" {
				fail("json: %s", d.errs)
			}
		})
	}
}
