package main

import (
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"go/types"
	"strings"
)

func concDigest(name, s string) []*Term {
	var b []byte
	switch name {
	case "sha1":
		x := sha1.Sum([]byte(s))
		b = x[:]
	case "sha256":
		x := sha256.Sum256([]byte(s))
		b = x[:]
	}
	r := make([]*Term, len(b))
	for i := range b {
		r[i] = mkConst(8, uint64(b[i]))
	}
	return r
}

func opq(s string) *Str { return &Str{s: s, opaque: true} }

func opqN(s string, n int) *Str { return &Str{s: s, opaque: true, atLeast: n} }

// fmtVal renders one operand for verb.
func (p *Path) fmtVal(fr *frame, verb byte, flags string, a Iface, depth int) *Str {
	if a.t == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return strC("%!s(<nil>)")
			}
			return strC("<nil>")
		}
		return opq("<nil>")
	}
	if verb == 'T' {
		return strC(rtypeString(a.t))
	}
	if no, ok := a.v.(*NativeObj); ok {
		if no.meth["Error"] != nil {
			return no.invoke(p, fr, "Error", nil).(*Str)
		}
		return opq("<native>")
	}
	if (verb == 'v' || verb == 's' || verb == 'q' || verb == 'w') && !strings.Contains(flags, "#") {
		nilptr := isNilPtr(a.v)
		if p.hasMethod(a.t, "Error") && !nilptr {
			if s, ok := p.callMethod(fr, a, "Error", nil).(*Str); ok {
				return p.fmtStr(verb, s)
			}
		}
		if p.hasMethod(a.t, "String") && !nilptr {
			if s, ok := p.callMethod(fr, a, "String", nil).(*Str); ok {
				return p.fmtStr(verb, s)
			}
		}
	}
	if rvv, ok := a.v.(*RVal); ok {
		if rvv == nil {
			return strC("<invalid reflect.Value>")
		}
		return p.fmtVal(fr, verb, flags, Iface{t: rvv.t, v: rvv.val()}, depth)
	}
	switch x := a.v.(type) {
	case *Str:
		return p.fmtStr(verb, x)
	case *Term:
		if !x.isConst() {
			return p.fmtSymTerm(verb, flags, a.t, x)
		}
		f := "%" + flags + string(verb)
		if x.w == 0 {
			return strC(fmt.Sprintf(f, x.val != 0))
		}
		if isFloat(a.t) {
			if x.w == 32 {
				return strC(fmt.Sprintf(f, float32(fbits(32, x.val))))
			}
			return strC(fmt.Sprintf(f, fbits(64, x.val)))
		}
		if isSigned(a.t) {
			return strC(fmt.Sprintf(f, x.sval()))
		}
		if b, ok := a.t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return strC(fmt.Sprintf(f, uint8(x.val)))
		}
		return strC(fmt.Sprintf(f, x.val))
	case []Value:
		if sl, ok := a.t.Underlying().(*types.Slice); ok {
			return p.fmtList(fr, verb, flags, sl.Elem(), x, depth)
		}
	case Array:
		if at, ok := a.t.Underlying().(*types.Array); ok {
			return p.fmtList(fr, verb, flags, at.Elem(), x, depth)
		}
	case Struct:
		st := a.t.Underlying().(*types.Struct)
		r := strC("{")
		for i := range x {
			if i > 0 {
				r = strCat(r, strC(" "))
			}
			if strings.Contains(flags, "+") {
				r = strCat(r, strC(st.Field(i).Name()+":"))
			}
			f := Iface{t: st.Field(i).Type(), v: x[i]}
			if ii, ok := x[i].(Iface); ok {
				f = ii
			}
			// unexported fields do not use methods
			if !st.Field(i).Exported() && f.t != nil {
				f.t = f.t.Underlying()
			}
			r = strCat(r, p.fmtVal(fr, verb, flags, f, depth+1))
		}
		return strCat(r, strC("}"))
	case *Map:
		return opq("map[...]")
	case Cplx:
		return opq("(complex)")
	case *Value:
		if x == nil {
			return strC("<nil>")
		}
		if depth == 0 && verb == 'v' {
			if el := a.t.Underlying().(*types.Pointer).Elem(); kindOf(el) == rStruct {
				return strCat(strC("&"), p.fmtVal(fr, verb, flags, Iface{t: el, v: *x}, depth+1))
			}
		}
		return opq("0xptr")
	}
	return opq("<?>")
}

func (p *Path) fmtSymTerm(verb byte, flags string, t types.Type, x *Term) *Str {
	c := p.ctx()
	if x.w == 0 {
		if p.branch(x) {
			return strC("true")
		}
		return strC("false")
	}
	if isFloat(t) {
		if verb == 'v' && flags == "" {
			return numStr(x, 'f')
		}
		return opq("<float>")
	}
	if (verb == 'v' || verb == 'd') && flags == "" && x.w == 8 {
		// small domain: decimal rendering by forking on the digit count
		var v *Term = c.ZExt(x, 16)
		neg := false
		if isSigned(t) {
			v = c.SExt(x, 16)
			if p.branch(c.Bin(OSLT, v, mkConst(16, 0))) {
				neg = true
				v = c.Neg(v)
			}
		}
		n := 1
		if !p.branch(c.Bin(OULT, v, mkConst(16, 10))) {
			n = 2
			if !p.branch(c.Bin(OULT, v, mkConst(16, 100))) {
				n = 3
			}
		}
		var b []*Term
		if neg {
			b = append(b, mkConst(8, '-'))
		}
		div := []uint64{1, 10, 100}
		for i := n - 1; i >= 0; i-- {
			d := c.Bin(OURem, c.Bin(OUDiv, v, mkConst(16, div[i])), mkConst(16, 10))
			b = append(b, c.Bin(OAdd, c.Extract(d, 0, 8), mkConst(8, '0')))
		}
		return strB(b)
	}
	if (verb == 'v' || verb == 'd') && flags == "" {
		if isSigned(t) {
			return numStr(x, 'i')
		}
		return numStr(x, 'u')
	}
	return opqN("<int>", 1)
}

func (p *Path) fmtStr(verb byte, s *Str) *Str {
	if s.opaque {
		return s
	}
	switch verb {
	case 'v', 's', 'w':
		return s
	case 'q':
		if !s.sym {
			return strC(fmt.Sprintf("%q", s.s))
		}
		return &Str{s: "\"" + s.disp() + "\"", opaque: true, atLeast: 2, atMost: 2 + 10*s.len(), segs: []fseg{{q: s}}}
	case 'x', 'X':
		return p.hexStr(s)
	}
	if !s.sym {
		return strC(fmt.Sprintf("%"+string(verb), s.s))
	}
	return opq("<str>")
}

func (p *Path) hexStr(s *Str) *Str {
	c := p.ctx()
	var b []*Term
	nib := func(t *Term) *Term { // 4-bit value in 8-bit term
		return c.Ite(c.Bin(OULT, t, mkConst(8, 10)), c.Bin(OAdd, t, mkConst(8, '0')), c.Bin(OAdd, t, mkConst(8, 'a'-10)))
	}
	for i := 0; i < s.len(); i++ {
		t := s.at(i)
		b = append(b, nib(c.Bin(OLShr, t, mkConst(8, 4))), nib(c.Bin(OBAnd, t, mkConst(8, 15))))
	}
	return strB(b)
}

func (p *Path) fmtList(fr *frame, verb byte, flags string, et types.Type, x []Value, depth int) *Str {
	if (verb == 's' || verb == 'x') && kindOf(et) == rUint8 {
		return p.fmtStr(verb, bytesToStr(x))
	}
	if strings.Contains(flags, "#") {
		return opq("<list>")
	}
	r := strC("[")
	for i := range x {
		if i > 0 {
			r = strCat(r, strC(" "))
		}
		f := Iface{t: et, v: x[i]}
		if ii, ok := x[i].(Iface); ok {
			f = ii
		}
		r = strCat(r, p.fmtVal(fr, verb, flags, f, depth+1))
	}
	return strCat(r, strC("]"))
}

func (p *Path) sprintf(fr *frame, format *Str, args []Value) (*Str, []Iface) {
	var wrapped []Iface
	if format.sym || format.opaque {
		return opq(format.disp()), nil
	}
	out := emptyStr
	f := format.s
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = strCat(out, strC(f[i:]))
			break
		}
		out = strCat(out, strC(f[i:i+j]))
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			out = strCat(out, strC("%!(NOVERB)"))
			break
		}
		flags, verb := f[st:i], f[i]
		i++
		if verb == '%' {
			out = strCat(out, strC("%"))
			continue
		}
		if strings.ContainsAny(flags, "*[") {
			out = strCat(out, opq("?"))
			ai++
			continue
		}
		if ai >= len(args) {
			out = strCat(out, strC("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai].(Iface)
		ai++
		if verb == 'w' {
			wrapped = append(wrapped, a)
		}
		s := p.fmtVal(fr, verb, flags, a, 0)
		if w := strings.Trim(flags, "+#"); w != "" && !s.opaque {
			if _, isStr := a.v.(*Str); isStr || (a.t != nil && p.hasMethod(a.t, "Error")) {
				if s.sym {
					s = opq(s.disp())
				} else {
					s = strC(fmt.Sprintf("%"+flags+"s", s.s))
				}
			}
		}
		out = strCat(out, s)
	}
	return out, wrapped
}

func (p *Path) sprint(fr *frame, args []Value, ln bool) *Str {
	out := emptyStr
	prevStr := true
	for i, v := range args {
		a := v.(Iface)
		isStr := a.t != nil && kindOf(a.t) == rString
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = strCat(out, strC(" "))
		}
		out = strCat(out, p.fmtVal(fr, 'v', "", a, 0))
		prevStr = isStr
	}
	if ln {
		out = strCat(out, strC("\n"))
	}
	return out
}

func init() {
	args := func(v Value) []Value { a, _ := v.([]Value); return a }
	I("fmt.Sprintf", func(p *Path, fr *frame, a []Value) Value {
		s, _ := p.sprintf(fr, a[0].(*Str), args(a[1]))
		return s
	})
	I("fmt.Sprint", func(p *Path, fr *frame, a []Value) Value { return p.sprint(fr, args(a[0]), false) })
	I("fmt.Sprintln", func(p *Path, fr *frame, a []Value) Value { return p.sprint(fr, args(a[0]), true) })
	I("fmt.Errorf", func(p *Path, fr *frame, a []Value) Value {
		s, w := p.sprintf(fr, a[0].(*Str), args(a[1]))
		switch len(w) {
		case 0:
			return Iface{t: types.NewPointer(p.w.m.stdType("errors", "errorString")), v: p.newCell(Struct{s})}
		case 1:
			return Iface{t: types.NewPointer(p.w.m.stdType("fmt", "wrapError")), v: p.newCell(Struct{s, w[0]})}
		}
		var es []Value
		for _, x := range w {
			es = append(es, x)
		}
		return Iface{t: types.NewPointer(p.w.m.stdType("fmt", "wrapErrors")), v: p.newCell(Struct{s, es})}
	})
	wr := func(p *Path, fr *frame, w Value, s *Str) Value {
		if s.opaque {
			if i := w.(Iface); i.t != nil && strings.Contains(i.t.String(), "os.File") {
				return Tuple{mkInt(0), Iface{}}
			}
			if i := w.(Iface); i.t != nil && strings.Contains(i.t.String(), "strings.Builder") {
				// log text: a placeholder stands for the digits
				return p.callMethod(fr, i, "Write", []Value{strToBytes(strC("<formatted>"))})
			}
			panic(abort{kind: "unsupported", why: "writing opaque formatted string"})
		}
		i := w.(Iface)
		if i.t != nil && strings.Contains(i.t.String(), "os.File") {
			return Tuple{mkInt(int64(s.len())), Iface{}}
		}
		return p.callMethod(fr, i, "Write", []Value{strToBytes(s)})
	}
	I("fmt.Fprintf", func(p *Path, fr *frame, a []Value) Value {
		s, _ := p.sprintf(fr, a[1].(*Str), args(a[2]))
		return wr(p, fr, a[0], s)
	})
	I("fmt.Fprint", func(p *Path, fr *frame, a []Value) Value { return wr(p, fr, a[0], p.sprint(fr, args(a[1]), false)) })
	I("fmt.Fprintln", func(p *Path, fr *frame, a []Value) Value { return wr(p, fr, a[0], p.sprint(fr, args(a[1]), true)) })
	I("fmt.Appendf", func(p *Path, fr *frame, a []Value) Value {
		s, _ := p.sprintf(fr, a[1].(*Str), args(a[2]))
		panicIf(s.opaque, "append of opaque formatted string")
		return p.appendVals(fr, args(a[0]), strToBytes(s), types.Typ[types.Uint8])
	})
}
