package main

import (
	"fmt"
	"go/types"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// RType models a reflect.Type.
type RType struct{ t types.Type }

// RVal models a reflect.Value; a nil *RVal is the invalid Value.
type RVal struct {
	t    types.Type
	v    Value  // when addr == nil
	addr *Value // when addressable
	ro   bool   // obtained through an unexported field
}

func (r *RVal) val() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

// NativeObj is an engine-implemented object behind an interface.
type NativeObj struct {
	name  string
	meth  map[string]func(p *Path, fr *frame, args []Value) Value
	state any
}

func (n *NativeObj) invoke(p *Path, fr *frame, m string, a []Value) Value {
	f := n.meth[m]
	if f == nil {
		panic(abort{kind: "unsupported", why: "native " + n.name + "." + m})
	}
	return f(p, fr, a)
}
func (n *NativeObj) implements(it *types.Interface) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if n.meth[it.Method(i).Name()] == nil {
			return false
		}
	}
	return true
}

const (
	rInvalid = iota
	rBool
	rInt
	rInt8
	rInt16
	rInt32
	rInt64
	rUint
	rUint8
	rUint16
	rUint32
	rUint64
	rUintptr
	rFloat32
	rFloat64
	rComplex64
	rComplex128
	rArray
	rChan
	rFunc
	rInterface
	rMap
	rPointer
	rSlice
	rString
	rStruct
	rUnsafePointer
)

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return rBool
		case types.Int, types.UntypedInt:
			return rInt
		case types.Int8:
			return rInt8
		case types.Int16:
			return rInt16
		case types.Int32, types.UntypedRune:
			return rInt32
		case types.Int64:
			return rInt64
		case types.Uint:
			return rUint
		case types.Uint8:
			return rUint8
		case types.Uint16:
			return rUint16
		case types.Uint32:
			return rUint32
		case types.Uint64:
			return rUint64
		case types.Uintptr:
			return rUintptr
		case types.Float32:
			return rFloat32
		case types.Float64, types.UntypedFloat:
			return rFloat64
		case types.Complex64:
			return rComplex64
		case types.Complex128:
			return rComplex128
		case types.String, types.UntypedString:
			return rString
		case types.UnsafePointer:
			return rUnsafePointer
		}
	case *types.Array:
		return rArray
	case *types.Chan:
		return rChan
	case *types.Signature:
		return rFunc
	case *types.Interface:
		return rInterface
	case *types.Map:
		return rMap
	case *types.Pointer:
		return rPointer
	case *types.Slice:
		return rSlice
	case *types.Struct:
		return rStruct
	}
	return rInvalid
}

// rtypeString mimics reflect.Type.String (package-name qualified).
func rtypeString(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Basic:
		if u.Name() == "byte" {
			return "uint8"
		}
		if u.Name() == "rune" {
			return "int32"
		}
		if u.Kind() == types.UnsafePointer {
			return "unsafe.Pointer"
		}
		return u.Name()
	case *types.Named:
		o := u.Obj()
		s := o.Name()
		if o.Pkg() != nil {
			s = o.Pkg().Name() + "." + s
		}
		if ta := u.TypeArgs(); ta != nil && ta.Len() > 0 {
			var a []string
			for i := 0; i < ta.Len(); i++ {
				a = append(a, types.TypeString(ta.At(i), nil))
			}
			s += "[" + strings.Join(a, ",") + "]"
		}
		return s
	case *types.Pointer:
		return "*" + rtypeString(u.Elem())
	case *types.Slice:
		return "[]" + rtypeString(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), rtypeString(u.Elem()))
	case *types.Map:
		return "map[" + rtypeString(u.Key()) + "]" + rtypeString(u.Elem())
	case *types.Chan:
		switch u.Dir() {
		case types.SendOnly:
			return "chan<- " + rtypeString(u.Elem())
		case types.RecvOnly:
			return "<-chan " + rtypeString(u.Elem())
		}
		return "chan " + rtypeString(u.Elem())
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "interface {}"
		}
	case *types.Struct:
		if u.NumFields() == 0 {
			return "struct {}"
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			x := f.Name() + " " + rtypeString(f.Type())
			if f.Embedded() {
				x = rtypeString(f.Type())
			}
			if tg := u.Tag(i); tg != "" {
				x += fmt.Sprintf(" %q", tg)
			}
			fs = append(fs, x)
		}
		return "struct { " + strings.Join(fs, "; ") + " }"
	case *types.Signature:
		var ps []string
		for i := 0; i < u.Params().Len(); i++ {
			ps = append(ps, rtypeString(u.Params().At(i).Type()))
		}
		s := "func(" + strings.Join(ps, ", ") + ")"
		switch u.Results().Len() {
		case 0:
		case 1:
			s += " " + rtypeString(u.Results().At(0).Type())
		default:
			var rs []string
			for i := 0; i < u.Results().Len(); i++ {
				rs = append(rs, rtypeString(u.Results().At(i).Type()))
			}
			s += " (" + strings.Join(rs, ", ") + ")"
		}
		return s
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (p *Path) mkRType(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	return Iface{t: types.NewPointer(p.w.m.stdType("reflect", "rtype")), v: &RType{t}}
}

func rv(v Value) *RVal {
	r, ok := v.(*RVal)
	if !ok {
		panic(abort{kind: "unsupported", why: fmt.Sprintf("reflect.Value is %T", v)})
	}
	return r
}
func (p *Path) rvalid(v Value, m string) *RVal {
	r := rv(v)
	if r == nil {
		panic(goPanic{v: Iface{t: types.NewPointer(p.w.m.stdType("reflect", "ValueError")), v: p.newCell(Struct{strC("reflect.Value." + m), mkConst(64, 0)})}})
	}
	return r
}
func (p *Path) newCell(v Value) *Value {
	c := new(Value)
	*c = v
	return c
}

func ptrID(v Value) uint64 {
	switch x := v.(type) {
	case *Value:
		return uint64(uintptr(unsafe.Pointer(x)))
	case *Map:
		return uint64(uintptr(unsafe.Pointer(x)))
	case *Chan:
		return uint64(uintptr(unsafe.Pointer(x)))
	case *Closure:
		return uint64(uintptr(unsafe.Pointer(x)))
	case []Value:
		if cap(x) == 0 {
			if x == nil {
				return 0
			}
			return 0x1000 // zerobase
		}
		return uint64(uintptr(unsafe.Pointer(&x[:1][0])))
	case UPtr:
		return ptrID(x.v)
	}
	return 0
}

func isNilVal(v Value) bool {
	switch x := v.(type) {
	case *Value:
		return x == nil
	case *Map:
		return x == nil
	case *Chan:
		return x == nil
	case *Closure:
		return x == nil
	case []Value:
		return x == nil
	case Iface:
		return x.t == nil
	case UPtr:
		return isNilPtr(x.v)
	}
	return false
}

func (p *Path) structField(t types.Type, i int) Value {
	st := t.Underlying().(*types.Struct)
	f := st.Field(i)
	pkgPath := ""
	if !f.Exported() && f.Pkg() != nil {
		pkgPath = f.Pkg().Path()
	}
	// StructField{Name, PkgPath, Type, Tag, Offset, Index, Anonymous}
	return Struct{strC(f.Name()), strC(pkgPath), p.mkRType(f.Type()), strC(st.Tag(i)), mkConst(64, 0), []Value{mkInt(int64(i))}, mkBool(f.Embedded())}
}

func init() {
	R := func(name string, f func(p *Path, fr *frame, a []Value) Value) {
		intrinsics[name] = func(p *Path, fr *frame, fn *ssa.Function, args []Value) Value { return f(p, fr, args) }
	}
	valueOf := func(p *Path, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return (*RVal)(nil)
		}
		return &RVal{t: i.t, v: i.v}
	}
	R("reflect.ValueOf", valueOf)
	R("reflect.TypeOf", func(p *Path, fr *frame, a []Value) Value { return p.mkRType(a[0].(Iface).t) })
	R("reflect.New", func(p *Path, fr *frame, a []Value) Value {
		t := a[0].(Iface).v.(*RType).t
		return &RVal{t: types.NewPointer(t), v: p.newCell(p.zero(t))}
	})
	R("reflect.Zero", func(p *Path, fr *frame, a []Value) Value {
		t := a[0].(Iface).v.(*RType).t
		return &RVal{t: t, v: p.zero(t)}
	})
	R("reflect.NewAt", func(p *Path, fr *frame, a []Value) Value {
		t := a[0].(Iface).v.(*RType).t
		u := a[1].(UPtr)
		return &RVal{t: types.NewPointer(t), v: u.v}
	})
	R("reflect.DeepEqual", func(p *Path, fr *frame, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tFalse
		}
		return p.deepEq(x.t, x.v, y.v, 0)
	})
	V := func(name string, f func(p *Path, r *RVal, a []Value) Value) {
		intrinsics["(reflect.Value)."+name] = func(p *Path, fr *frame, fn *ssa.Function, args []Value) Value {
			return f(p, p.rvalid(args[0], name), args[1:])
		}
	}
	R("(reflect.Value).IsValid", func(p *Path, fr *frame, a []Value) Value { return mkBool(rv(a[0]) != nil) })
	R("(reflect.Value).Kind", func(p *Path, fr *frame, a []Value) Value {
		r := rv(a[0])
		if r == nil {
			return mkConst(64, 0)
		}
		return mkConst(64, uint64(kindOf(r.t)))
	})
	R("(reflect.Value).String", func(p *Path, fr *frame, a []Value) Value {
		r := rv(a[0])
		if r == nil {
			return strC("<invalid Value>")
		}
		if kindOf(r.t) == rString {
			return r.val()
		}
		return strC("<" + rtypeString(r.t) + " Value>")
	})
	V("Type", func(p *Path, r *RVal, a []Value) Value { return p.mkRType(r.t) })
	V("IsNil", func(p *Path, r *RVal, a []Value) Value { return mkBool(isNilVal(r.val())) })
	V("Interface", func(p *Path, r *RVal, a []Value) Value {
		if r.ro {
			panic(goPanic{v: Iface{t: types.Typ[types.String], v: strC("reflect.Value.Interface: cannot return value obtained from unexported field or method")}})
		}
		if i, ok := r.val().(Iface); ok && kindOf(r.t) == rInterface {
			return i
		}
		return Iface{t: r.t, v: copyVal(r.val())}
	})
	V("CanInterface", func(p *Path, r *RVal, a []Value) Value { return mkBool(!r.ro) })
	V("CanAddr", func(p *Path, r *RVal, a []Value) Value { return mkBool(r.addr != nil) })
	V("CanSet", func(p *Path, r *RVal, a []Value) Value { return mkBool(r.addr != nil && !r.ro) })
	V("Elem", func(p *Path, r *RVal, a []Value) Value {
		switch kindOf(r.t) {
		case rInterface:
			i := r.val().(Iface)
			if i.t == nil {
				return (*RVal)(nil)
			}
			return &RVal{t: i.t, v: i.v, ro: r.ro}
		case rPointer:
			pv, ok := r.val().(*Value)
			if !ok {
				panic(abort{kind: "unsupported", why: "reflect Elem"})
			}
			if pv == nil {
				return (*RVal)(nil)
			}
			return &RVal{t: r.t.Underlying().(*types.Pointer).Elem(), addr: pv, ro: r.ro}
		}
		p.rtPanic("reflect: call of reflect.Value.Elem on " + kindNames[kindOf(r.t)] + " Value")
		return nil
	})
	V("Bool", func(p *Path, r *RVal, a []Value) Value { return r.val() })
	V("Int", func(p *Path, r *RVal, a []Value) Value { return p.ctx().SExt(r.val().(*Term), 64) })
	V("Uint", func(p *Path, r *RVal, a []Value) Value { return p.ctx().ZExt(r.val().(*Term), 64) })
	V("Float", func(p *Path, r *RVal, a []Value) Value { return p.ctx().Conv(OFToF, r.val().(*Term), 64) })
	V("Complex", func(p *Path, r *RVal, a []Value) Value {
		z := r.val().(Cplx)
		return Cplx{p.ctx().Conv(OFToF, z.re, 64), p.ctx().Conv(OFToF, z.im, 64)}
	})
	V("Len", func(p *Path, r *RVal, a []Value) Value {
		switch x := r.val().(type) {
		case []Value:
			return mkInt(int64(len(x)))
		case Array:
			return mkInt(int64(len(x)))
		case *Str:
			return mkInt(int64(x.len()))
		case *Map:
			if x == nil {
				return mkInt(0)
			}
			return mkInt(int64(x.n))
		case *Chan:
			return mkInt(int64(len(x.buf)))
		}
		panic(abort{kind: "unsupported", why: "reflect Len"})
	})
	V("Bytes", func(p *Path, r *RVal, a []Value) Value {
		switch x := r.val().(type) {
		case []Value:
			return x
		case Array:
			return []Value(x)
		}
		panic(abort{kind: "unsupported", why: "reflect Bytes"})
	})
	V("Index", func(p *Path, r *RVal, a []Value) Value {
		i := p.concInt(a[0])
		switch x := r.val().(type) {
		case []Value:
			if i < 0 || i >= len(x) {
				p.rtPanic("reflect: slice index out of range")
			}
			return &RVal{t: r.t.Underlying().(*types.Slice).Elem(), addr: &x[i], ro: r.ro}
		case Array:
			if i < 0 || i >= len(x) {
				p.rtPanic("reflect: array index out of range")
			}
			et := r.t.Underlying().(*types.Array).Elem()
			if r.addr != nil {
				return &RVal{t: et, addr: &x[i], ro: r.ro}
			}
			return &RVal{t: et, v: x[i], ro: r.ro}
		case *Str:
			return &RVal{t: types.Typ[types.Uint8], v: x.at(i), ro: r.ro}
		}
		panic(abort{kind: "unsupported", why: "reflect Index"})
	})
	V("NumField", func(p *Path, r *RVal, a []Value) Value {
		return mkInt(int64(r.t.Underlying().(*types.Struct).NumFields()))
	})
	V("Field", func(p *Path, r *RVal, a []Value) Value {
		i := p.concInt(a[0])
		st := r.t.Underlying().(*types.Struct)
		s, ok := r.val().(Struct)
		if !ok {
			panic(abort{kind: "unsupported", why: fmt.Sprintf("reflect Field of %T", r.val())})
		}
		n := &RVal{t: st.Field(i).Type(), ro: r.ro || !st.Field(i).Exported()}
		if r.addr != nil {
			n.addr = &s[i]
		} else {
			n.v = s[i]
		}
		return n
	})
	V("Set", func(p *Path, r *RVal, a []Value) Value {
		if r.addr == nil {
			p.rtPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		x := rv(a[0])
		v := x.val()
		if kindOf(r.t) == rInterface && kindOf(x.t) != rInterface {
			v = Iface{t: x.t, v: copyVal(v)}
		}
		storeTo(r.addr, copyVal(v))
		return nil
	})
	V("Addr", func(p *Path, r *RVal, a []Value) Value {
		return &RVal{t: types.NewPointer(r.t), v: r.addr, ro: r.ro}
	})
	V("UnsafeAddr", func(p *Path, r *RVal, a []Value) Value {
		// uintptr that remembers its pointer: only used through unsafe.Pointer
		return UPtr{v: r.addr, t: types.NewPointer(r.t)}
	})
	V("Pointer", func(p *Path, r *RVal, a []Value) Value { return mkConst(64, ptrID(r.val())) })
	V("UnsafePointer", func(p *Path, r *RVal, a []Value) Value { return UPtr{v: r.val(), t: r.t} })
	V("MapKeys", func(p *Path, r *RVal, a []Value) Value {
		m := r.val().(*Map)
		kt := r.t.Underlying().(*types.Map).Key()
		out := []Value{}
		it := p.newMapIter(m)
		for e := p.mapNext(it); e != nil; e = p.mapNext(it) {
			out = append(out, &RVal{t: kt, v: copyVal(e.k)})
		}
		return out
	})
	V("MapIndex", func(p *Path, r *RVal, a []Value) Value {
		m := r.val().(*Map)
		e := p.mapFind(m, rv(a[0]).val())
		if e == nil {
			return (*RVal)(nil)
		}
		return &RVal{t: r.t.Underlying().(*types.Map).Elem(), v: copyVal(e.v)}
	})
	V("IsZero", func(p *Path, r *RVal, a []Value) Value {
		return p.eqVal(r.t, r.val(), p.zero(r.t))
	})
	V("NumMethod", func(p *Path, r *RVal, a []Value) Value {
		return mkInt(int64(types.NewMethodSet(r.t).Len()))
	})
	T := func(name string, f func(p *Path, t types.Type, a []Value) Value) {
		intrinsics["(*reflect.rtype)."+name] = func(p *Path, fr *frame, fn *ssa.Function, args []Value) Value {
			return f(p, args[0].(*RType).t, args[1:])
		}
	}
	T("String", func(p *Path, t types.Type, a []Value) Value { return strC(rtypeString(t)) })
	T("Name", func(p *Path, t types.Type, a []Value) Value {
		switch u := types.Unalias(t).(type) {
		case *types.Named:
			return strC(u.Obj().Name())
		case *types.Basic:
			return strC(rtypeString(u))
		}
		return emptyStr
	})
	T("PkgPath", func(p *Path, t types.Type, a []Value) Value {
		if u, ok := types.Unalias(t).(*types.Named); ok && u.Obj().Pkg() != nil {
			return strC(u.Obj().Pkg().Path())
		}
		return emptyStr
	})
	T("Kind", func(p *Path, t types.Type, a []Value) Value { return mkConst(64, uint64(kindOf(t))) })
	T("Elem", func(p *Path, t types.Type, a []Value) Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return p.mkRType(u.Elem())
		case *types.Slice:
			return p.mkRType(u.Elem())
		case *types.Array:
			return p.mkRType(u.Elem())
		case *types.Map:
			return p.mkRType(u.Elem())
		case *types.Chan:
			return p.mkRType(u.Elem())
		}
		p.rtPanic("reflect: Elem of invalid type " + rtypeString(t))
		return nil
	})
	T("Key", func(p *Path, t types.Type, a []Value) Value { return p.mkRType(t.Underlying().(*types.Map).Key()) })
	T("Len", func(p *Path, t types.Type, a []Value) Value { return mkInt(t.Underlying().(*types.Array).Len()) })
	T("NumField", func(p *Path, t types.Type, a []Value) Value {
		return mkInt(int64(t.Underlying().(*types.Struct).NumFields()))
	})
	T("Field", func(p *Path, t types.Type, a []Value) Value { return p.structField(t, p.concInt(a[0])) })
	T("Comparable", func(p *Path, t types.Type, a []Value) Value { return mkBool(types.Comparable(t)) })
	T("NumMethod", func(p *Path, t types.Type, a []Value) Value { return mkInt(int64(types.NewMethodSet(t).Len())) })
	T("Implements", func(p *Path, t types.Type, a []Value) Value {
		it := a[0].(Iface).v.(*RType).t
		return mkBool(types.Implements(t, it.Underlying().(*types.Interface)))
	})
	R("(reflect.Kind).String", func(p *Path, fr *frame, a []Value) Value {
		k := p.concInt(a[0])
		if k < len(kindNames) {
			return strC(kindNames[k])
		}
		return strC(fmt.Sprintf("kind%d", k))
	})
}

// deepEq is reflect.DeepEqual as a term (acyclic values).
func (p *Path) deepEq(t types.Type, x, y Value, d int) *Term {
	if d > 200 {
		panic(abort{kind: "limit", why: "DeepEqual depth"})
	}
	c := p.ctx()
	switch u := t.Underlying().(type) {
	case *types.Slice:
		a, b := x.([]Value), y.([]Value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return tFalse
		}
		r := tTrue
		for i := range a {
			r = c.And(r, p.deepEq(u.Elem(), a[i], b[i], d+1))
		}
		return r
	case *types.Array:
		a, b := x.(Array), y.(Array)
		r := tTrue
		for i := range a {
			r = c.And(r, p.deepEq(u.Elem(), a[i], b[i], d+1))
		}
		return r
	case *types.Struct:
		a, b := x.(Struct), y.(Struct)
		r := tTrue
		for i := range a {
			r = c.And(r, p.deepEq(u.Field(i).Type(), a[i], b[i], d+1))
		}
		return r
	case *types.Pointer:
		a, ok1 := x.(*Value)
		b, ok2 := y.(*Value)
		if !ok1 || !ok2 {
			return p.eqVal(t, x, y)
		}
		if a == b {
			return tTrue
		}
		if a == nil || b == nil {
			return tFalse
		}
		return p.deepEq(u.Elem(), *a, *b, d+1)
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.t == nil || b.t == nil {
			return mkBool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return tFalse
		}
		return p.deepEq(a.t, a.v, b.v, d+1)
	case *types.Map:
		a, b := x.(*Map), y.(*Map)
		if (a == nil) != (b == nil) {
			return tFalse
		}
		if a == nil || a == b {
			return tTrue
		}
		if a.n != b.n {
			return tFalse
		}
		r := tTrue
		for _, e := range a.ents {
			if !e.live {
				continue
			}
			f := p.mapFind(b, e.k)
			if f == nil {
				return tFalse
			}
			r = c.And(r, p.deepEq(u.Elem(), e.v, f.v, d+1))
		}
		return r
	case *types.Signature:
		return mkBool(isNilVal(x) && isNilVal(y))
	}
	return p.eqVal(t, x, y)
}
