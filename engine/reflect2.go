package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func rtArg(v Value) types.Type { return v.(Iface).v.(*RType).t }

// mapIterObj models reflect.MapIter.
type mapIterObj struct {
	r  *RVal
	it *mapIter
	e  *mapEnt
}

func (p *Path) assignTo(t types.Type, x *RVal) Value {
	v := copyVal(x.val())
	if kindOf(t) == rInterface && kindOf(x.t) != rInterface {
		return Iface{t: x.t, v: v}
	}
	return v
}

func init() {
	R := func(name string, f func(p *Path, fr *frame, a []Value) Value) {
		intrinsics[name] = func(p *Path, fr *frame, fn *ssa.Function, args []Value) Value { return f(p, fr, args) }
	}
	ptrTo := func(p *Path, fr *frame, a []Value) Value { return p.mkRType(types.NewPointer(rtArg(a[0]))) }
	R("reflect.PtrTo", ptrTo)
	R("reflect.PointerTo", ptrTo)
	R("reflect.SliceOf", func(p *Path, fr *frame, a []Value) Value { return p.mkRType(types.NewSlice(rtArg(a[0]))) })
	R("reflect.MapOf", func(p *Path, fr *frame, a []Value) Value {
		return p.mkRType(types.NewMap(rtArg(a[0]), rtArg(a[1])))
	})
	R("reflect.MakeSlice", func(p *Path, fr *frame, a []Value) Value {
		t := rtArg(a[0])
		n := p.concInt(a[1])
		et := t.Underlying().(*types.Slice).Elem()
		s := make([]Value, n)
		for i := range s {
			s[i] = p.zero(et)
		}
		return &RVal{t: t, v: s}
	})
	mkMap := func(p *Path, fr *frame, a []Value) Value {
		t := rtArg(a[0])
		return &RVal{t: t, v: newMap(t.Underlying().(*types.Map).Key())}
	}
	R("reflect.MakeMap", mkMap)
	R("reflect.MakeMapWithSize", mkMap)
	R("reflect.Append", func(p *Path, fr *frame, a []Value) Value {
		s := rv(a[0])
		et := s.t.Underlying().(*types.Slice).Elem()
		out := append([]Value{}, s.val().([]Value)...)
		for _, e := range a[1].([]Value) {
			out = append(out, p.assignTo(et, rv(e)))
		}
		return &RVal{t: s.t, v: out}
	})
	R("reflect.AppendSlice", func(p *Path, fr *frame, a []Value) Value {
		s, o := rv(a[0]), rv(a[1])
		out := append([]Value{}, s.val().([]Value)...)
		for _, e := range o.val().([]Value) {
			out = append(out, copyVal(e))
		}
		return &RVal{t: s.t, v: out}
	})
	V := func(name string, f func(p *Path, r *RVal, a []Value) Value) {
		intrinsics["(reflect.Value)."+name] = func(p *Path, fr *frame, fn *ssa.Function, args []Value) Value {
			return f(p, p.rvalid(args[0], name), args[1:])
		}
	}
	set := func(p *Path, r *RVal, v Value) Value {
		if r.addr == nil {
			p.rtPanic("reflect: set of unaddressable value")
		}
		storeTo(r.addr, v)
		return nil
	}
	V("SetBool", func(p *Path, r *RVal, a []Value) Value { return set(p, r, a[0]) })
	V("SetString", func(p *Path, r *RVal, a []Value) Value { return set(p, r, a[0]) })
	V("SetBytes", func(p *Path, r *RVal, a []Value) Value { return set(p, r, a[0]) })
	V("SetZero", func(p *Path, r *RVal, a []Value) Value { return set(p, r, p.zero(r.t)) })
	V("SetInt", func(p *Path, r *RVal, a []Value) Value {
		return set(p, r, p.ctx().Extract(a[0].(*Term), 0, basicWidth(r.t.Underlying().(*types.Basic))))
	})
	V("SetUint", func(p *Path, r *RVal, a []Value) Value {
		return set(p, r, p.ctx().Extract(a[0].(*Term), 0, basicWidth(r.t.Underlying().(*types.Basic))))
	})
	V("SetFloat", func(p *Path, r *RVal, a []Value) Value {
		if kindOf(r.t) == rFloat32 {
			return set(p, r, p.ctx().Conv(OFToF, a[0].(*Term), 32))
		}
		return set(p, r, a[0])
	})
	V("Cap", func(p *Path, r *RVal, a []Value) Value { return mkInt(int64(cap(r.val().([]Value)))) })
	V("SetLen", func(p *Path, r *RVal, a []Value) Value {
		n := p.concInt(a[0])
		s := r.val().([]Value)
		if n < 0 || n > cap(s) {
			p.rtPanic("reflect: slice length out of range in SetLen")
		}
		*r.addr = s[:n]
		return nil
	})
	V("Slice", func(p *Path, r *RVal, a []Value) Value {
		i, j := p.concInt(a[0]), p.concInt(a[1])
		switch s := r.val().(type) {
		case []Value:
			return &RVal{t: r.t, v: s[i:j]}
		case Array:
			return &RVal{t: types.NewSlice(r.t.Underlying().(*types.Array).Elem()), v: []Value(s)[i:j]}
		}
		panic(abort{kind: "unsupported", why: "reflect Slice"})
	})
	V("SetMapIndex", func(p *Path, r *RVal, a []Value) Value {
		m := r.val().(*Map)
		if m == nil {
			p.rtPanic("assignment to entry in nil map")
		}
		mt := r.t.Underlying().(*types.Map)
		k := p.assignTo(mt.Key(), rv(a[0]))
		if e := rv(a[1]); e != nil {
			p.mapSet(m, k, p.assignTo(mt.Elem(), e))
		} else {
			p.mapDel(m, k)
		}
		return nil
	})
	V("MapRange", func(p *Path, r *RVal, a []Value) Value {
		return p.newCell(&mapIterObj{r: r, it: p.newMapIter(r.val().(*Map))})
	})
	mi := func(v Value) *mapIterObj { return (*(v.(*Value))).(*mapIterObj) }
	R("(*reflect.MapIter).Next", func(p *Path, fr *frame, a []Value) Value {
		m := mi(a[0])
		m.e = p.mapNext(m.it)
		return mkBool(m.e != nil)
	})
	R("(*reflect.MapIter).Key", func(p *Path, fr *frame, a []Value) Value {
		m := mi(a[0])
		return &RVal{t: m.r.t.Underlying().(*types.Map).Key(), v: copyVal(m.e.k)}
	})
	R("(*reflect.MapIter).Value", func(p *Path, fr *frame, a []Value) Value {
		m := mi(a[0])
		return &RVal{t: m.r.t.Underlying().(*types.Map).Elem(), v: copyVal(m.e.v)}
	})
	V("Convert", func(p *Path, r *RVal, a []Value) Value {
		t := rtArg(a[0])
		if types.Identical(r.t.Underlying(), t.Underlying()) {
			return &RVal{t: t, v: copyVal(r.val())}
		}
		if kindOf(t) == rInterface {
			return &RVal{t: t, v: p.assignTo(t, r)}
		}
		panic(abort{kind: "unsupported", why: "reflect Convert " + r.t.String() + " to " + t.String()})
	})
	V("FieldByIndex", func(p *Path, r *RVal, a []Value) Value {
		cur := r
		for _, ix := range a[0].([]Value) {
			if pt, ok := cur.t.Underlying().(*types.Pointer); ok {
				pv := cur.val().(*Value)
				if pv == nil {
					p.rtPanic("reflect: indirection through nil pointer to embedded struct")
				}
				cur = &RVal{t: pt.Elem(), addr: pv, ro: cur.ro}
			}
			cur = intrinsics["(reflect.Value).Field"](p, nil, nil, []Value{cur, ix}).(*RVal)
		}
		return cur
	})
	T := func(name string, f func(p *Path, t types.Type, a []Value) Value) {
		intrinsics["(*reflect.rtype)."+name] = func(p *Path, fr *frame, fn *ssa.Function, args []Value) Value {
			return f(p, args[0].(*RType).t, args[1:])
		}
	}
	T("ConvertibleTo", func(p *Path, t types.Type, a []Value) Value { return mkBool(types.ConvertibleTo(t, rtArg(a[0]))) })
	T("AssignableTo", func(p *Path, t types.Type, a []Value) Value { return mkBool(types.AssignableTo(t, rtArg(a[0]))) })
	T("Size", func(p *Path, t types.Type, a []Value) Value { return mkConst(64, uint64(sizeof(t))) })
	T("Bits", func(p *Path, t types.Type, a []Value) Value { return mkInt(sizeof(t) * 8) })
}

func init() {
	s2b := func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return strToBytes(a[0].(*Str)) }
	b2s := func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return bytesToStr(a[0].([]Value)) }
	for _, n := range []string{"github.com/vmihailenco/tagparser/v2/internal.StringToBytes", "github.com/vmihailenco/msgpack/v5.stringToBytes"} {
		intrinsics[n] = s2b
	}
	for _, n := range []string{"github.com/vmihailenco/tagparser/v2/internal.BytesToString", "github.com/vmihailenco/msgpack/v5.bytesToString"} {
		intrinsics[n] = b2s
	}
}
