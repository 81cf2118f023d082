package lens

import (
	"bytes"
	"errors"
	"math"
	"strings"
	"unicode/utf8"
)

type vInner01 struct {
	A int16
	b string
}

type vOuter01 struct {
	Flag  bool
	In    vInner01
	Ptr   *vInner01
	Any   any
	List  []vInner01
	inner []uint32
}

func v01Decode(snaps []lensMonitorFieldSnapshot, id uint32, ts int64, stack []lensMonitorStackFrame) LensMonitorMessagePointState {
	var buf bytes.Buffer
	lensEncodeMessagePointState(&buf, id, ts, stack, snaps)
	r := bytes.NewReader(buf.Bytes())
	msg, err := newLensReader(r, lensMonitorFieldMaxLen).decodeMessagePointState()
	vAssert("every encoded state message decodes", err == nil)
	vAssert("the decoder consumes the whole message", r.Len() == 0)
	vAssert("point id and timestamp preserved", vAnd(msg.PointID == id, msg.TimeNS == ts))
	vAssert("every field arrives", len(msg.Fields) == len(snaps))
	return msg
}

func v01Float32(got any, want float32) bool {
	f, ok := got.(float32)
	if !ok {
		return false
	}
	a, b := math.Float32bits(f), math.Float32bits(want)
	return vOr(a == b, vAnd(f != f, want != want))
}

func v01Float64(got any, want float64) bool {
	f, ok := got.(float64)
	if !ok {
		return false
	}
	a, b := math.Float64bits(f), math.Float64bits(want)
	return vOr(a == b, vAnd(f != f, want != want))
}

// Every scalar a monitored function can hold arrives at the server with its
// exact value, whatever the value is, followed by the next field intact.
//
//v:bounds every scalar kind with all 2^width values, strings of 0..4 bytes; a second field follows
func VHScalars() {
	id, ts := vU32("id"), vI64("ts")
	var val any
	var typ string
	var check func(any) bool
	kind := vChoose("kind", 20)
	switch kind {
	case 0:
		x := vBool("x")
		val, typ, check = x, "bool", func(g any) bool { return vDeepEq(g, x) }
	case 1:
		x := vI8("x")
		val, typ, check = x, "int8", func(g any) bool { return vDeepEq(g, int32(x)) }
	case 2:
		x := vI16("x")
		val, typ, check = x, "int16", func(g any) bool { return vDeepEq(g, int32(x)) }
	case 3:
		x := vI32("x")
		val, typ, check = x, "int32", func(g any) bool { return vDeepEq(g, x) }
	case 4:
		x := vI64("x")
		val, typ, check = x, "int64", func(g any) bool { return vDeepEq(g, x) }
	case 5:
		x := vInt("x")
		val, typ, check = x, "int", func(g any) bool { return vDeepEq(g, int64(x)) }
	case 6:
		x := vU8("x")
		val, typ, check = x, "uint8", func(g any) bool { return vDeepEq(g, uint32(x)) }
	case 7:
		x := vU16("x")
		val, typ, check = x, "uint16", func(g any) bool { return vDeepEq(g, uint32(x)) }
	case 8:
		x := vU32("x")
		val, typ, check = x, "uint32", func(g any) bool { return vDeepEq(g, x) }
	case 9:
		x := vU64("x")
		val, typ, check = x, "uint64", func(g any) bool { return vDeepEq(g, x) }
	case 10:
		x := vUint("x")
		val, typ, check = x, "uint", func(g any) bool { return vDeepEq(g, uint64(x)) }
	case 11:
		x := uintptr(vUint("x"))
		val, typ, check = x, "uintptr", func(g any) bool { return vDeepEq(g, uint64(x)) }
	case 12:
		x := vF32("x")
		val, typ, check = x, "float32", func(g any) bool { return v01Float32(g, x) }
	case 13:
		x := vF64("x")
		val, typ, check = x, "float64", func(g any) bool { return v01Float64(g, x) }
	case 14:
		re, im := vF64("re"), vF64("im")
		val, typ, check = complex(re, im), "complex128", func(g any) bool {
			c, ok := g.(complex128)
			return ok && vAnd(v01Float64(real(c), re), v01Float64(imag(c), im))
		}
	case 15:
		x := vStr("x", vChoose("n", 5))
		val, typ, check = x, "string", func(g any) bool { return vDeepEq(g, x) }
	case 16:
		x := vI64("x")
		p := &x
		val, typ, check = &p, "int64", func(g any) bool { return vDeepEq(g, x) }
	case 17:
		val, typ, check = (*int)(nil), "*int", func(g any) bool { return g == nil }
	case 18:
		val, typ, check = nil, "invalid", func(g any) bool { return g == nil }
	case 19:
		val, typ, check = func() {}, "func()", func(g any) bool { return vDeepEq(g, "<func>") }
	}
	name := vStr("name", vChoose("nameLen", 3))
	tail := vI32("tail")
	msg := v01Decode([]lensMonitorFieldSnapshot{{Name: name, Val: val}, {Name: "tail", Val: tail}}, id, ts, nil)
	f := msg.Fields[0]
	vAssert("field name preserved", f.Name == name)
	vAssert("field type preserved", f.Type == typ)
	vAssert("field value preserved", check(f.Value))
	vAssert("scalar has no children", len(f.Children) == 0)
	vAssert("following field preserved", vAnd(msg.Fields[1].Name == "tail", vDeepEq(msg.Fields[1].Value, tail)))
	vObs("id", msg.PointID)
	vObs("val", f.Value)
}

// Every slice or array of scalars arrives element for element.
//
//v:bounds all element kinds, lengths 0..2 symbolic elements (booleans 0..10, thorough 0..17, and up to 27 or 34 with 5 symbolic; bytes 0..4)
//v:quick 90
func VHSlices() {
	var val any
	var check func(any) bool
	n := 0
	kind := vChoose("kind", 17)
	switch kind {
	case 0:
		m := 11
		if vThorough() {
			m = 18
		}
		n = vChoose("n", m+10)
		if n < m {
			x := make([]bool, n)
			for i := range x {
				x[i] = vBool("x")
			}
			val, check = x, func(g any) bool { return vDeepEq(g, x) }
			break
		}
		n += 7
		x := make([]bool, n)
		for i := range x {
			x[i] = i%3 == 0
		}
		x[n-2], x[16], x[15], x[8], x[7] = vBool("x"), vBool("x"), vBool("x"), vBool("x"), vBool("x")
		val, check = x, func(g any) bool { return vDeepEq(g, x) }
	case 1:
		n = vChoose("n", 5)
		x := vBytes("x", n)
		val, check = x, func(g any) bool {
			if utf8.Valid(x) {
				return vDeepEq(g, string(x))
			}
			return vDeepEq(g, x)
		}
	case 2:
		x := [3]byte{vU8("x"), vU8("x"), vU8("x")}
		val, check = x, func(g any) bool {
			if utf8.Valid(x[:]) {
				return vDeepEq(g, string(x[:]))
			}
			return vDeepEq(g, x[:])
		}
	default:
		n = vChoose("n", 3)
		switch kind {
		case 3:
			x, w := make([]int8, n), make([]int32, n)
			for i := range x {
				x[i] = vI8("x")
				w[i] = int32(x[i])
			}
			val, check = x, func(g any) bool { return vDeepEq(g, w) }
		case 4:
			x, w := make([]int16, n), make([]int32, n)
			for i := range x {
				x[i] = vI16("x")
				w[i] = int32(x[i])
			}
			val, check = x, func(g any) bool { return vDeepEq(g, w) }
		case 5:
			x := make([]int32, n)
			for i := range x {
				x[i] = vI32("x")
			}
			val, check = x, func(g any) bool { return vDeepEq(g, x) }
		case 6:
			x := make([]int64, n)
			for i := range x {
				x[i] = vI64("x")
			}
			val, check = x, func(g any) bool { return vDeepEq(g, x) }
		case 7:
			x, w := make([]int, n), make([]int64, n)
			for i := range x {
				x[i] = vInt("x")
				w[i] = int64(x[i])
			}
			val, check = x, func(g any) bool { return vDeepEq(g, w) }
		case 8:
			x, w := make([]uint16, n), make([]uint32, n)
			for i := range x {
				x[i] = vU16("x")
				w[i] = uint32(x[i])
			}
			val, check = x, func(g any) bool { return vDeepEq(g, w) }
		case 9:
			x := make([]uint32, n)
			for i := range x {
				x[i] = vU32("x")
			}
			val, check = x, func(g any) bool { return vDeepEq(g, x) }
		case 10:
			x := make([]uint64, n)
			for i := range x {
				x[i] = vU64("x")
			}
			val, check = x, func(g any) bool { return vDeepEq(g, x) }
		case 11:
			x, w := make([]uint, n), make([]uint64, n)
			for i := range x {
				x[i] = vUint("x")
				w[i] = uint64(x[i])
			}
			val, check = x, func(g any) bool { return vDeepEq(g, w) }
		case 12:
			x := make([]float32, n)
			for i := range x {
				x[i] = vF32("x")
			}
			val, check = x, func(g any) bool {
				s, ok := g.([]float32)
				if !ok || len(s) != n {
					return false
				}
				r := true
				for i := range s {
					r = vAnd(r, v01Float32(s[i], x[i]))
				}
				return r
			}
		case 13:
			x := make([]float64, n)
			for i := range x {
				x[i] = vF64("x")
			}
			val, check = x, func(g any) bool {
				s, ok := g.([]float64)
				if !ok || len(s) != n {
					return false
				}
				r := true
				for i := range s {
					r = vAnd(r, v01Float64(s[i], x[i]))
				}
				return r
			}
		case 14:
			x := make([]string, n)
			for i := range x {
				x[i] = vStr("x", vChoose("len", 3))
			}
			val, check = x, func(g any) bool { return vDeepEq(g, x) }
		case 15:
			x := [2]int64{vI64("x"), vI64("x")}
			val, check = x, func(g any) bool { return vDeepEq(g, x[:]) }
		case 16:
			val, check = []int64(nil), func(g any) bool { return g == nil }
		}
	}
	tail := vI32("tail")
	msg := v01Decode([]lensMonitorFieldSnapshot{{Name: "v", Val: val}, {Name: "tail", Val: tail}}, 7, 9, nil)
	vAssert("slice value preserved", check(msg.Fields[0].Value))
	vAssert("following field preserved", vAnd(msg.Fields[1].Name == "tail", vDeepEq(msg.Fields[1].Value, tail)))
	vObs("val", msg.Fields[0].Value)
}

func v01Inner(f LensMonitorField, in vInner01) bool {
	if len(f.Children) != 2 || f.Value != nil {
		return false
	}
	return vAnd(f.Type == "lens.vInner01", f.Children[0].Name == "A", f.Children[0].Type == "int16", vDeepEq(f.Children[0].Value, int32(in.A)),
		f.Children[1].Name == "b", f.Children[1].Type == "string", vDeepEq(f.Children[1].Value, in.b))
}

// Structs, pointers, interfaces, slices of structs and maps arrive with every
// nested value under its own name.
//
//v:bounds two struct levels, exported and unexported fields, 0..2 list elements, maps of 0..2 entries with symbolic keys and values, any map iteration order
func VHContainers() {
	vMapOrder(true)
	tail := int32(-5)
	sel := vChoose("sel", 5)
	num := func(i int) int16 {
		if i == sel {
			return vI16("A")
		}
		return int16(100*i - 250)
	}
	in := vInner01{A: num(0), b: vStr("b", vChoose("bn", 2))}
	switch vChoose("shape", 4) {
	case 0:
		o := vOuter01{Flag: vBool("flag"), In: in, inner: []uint32{77}}
		if vChoose("ptr", 2) == 1 {
			o.Ptr = &vInner01{A: num(1), b: "p"}
		}
		switch vChoose("any", 3) {
		case 1:
			o.Any = vU8("any8")
		case 2:
			o.Any = vInner01{A: num(2), b: "any"}
		}
		for i := 0; i < vChoose("list", 3); i++ {
			o.List = append(o.List, vInner01{A: num(3), b: "l"})
		}
		var v any = o
		if vChoose("byptr", 2) == 1 {
			v = &o
		}
		f := v01Decode([]lensMonitorFieldSnapshot{{Name: "o", Val: v}, {Name: "tail", Val: tail}}, 1, 2, nil)
		vAssert("following field preserved", vDeepEq(f.Fields[1].Value, tail))
		g := f.Fields[0]
		vAssert("struct arrives with all its fields", g.Type == "lens.vOuter01" && g.Value == nil && len(g.Children) == 6)
		c := g.Children
		vAssert("struct field names and order", c[0].Name == "Flag" && c[1].Name == "In" && c[2].Name == "Ptr" && c[3].Name == "Any" && c[4].Name == "List" && c[5].Name == "inner")
		vAssert("bool field", vDeepEq(c[0].Value, o.Flag))
		vAssert("nested struct", v01Inner(c[1], in))
		if o.Ptr == nil {
			vAssert("nil pointer field", c[2].Value == nil && len(c[2].Children) == 0 && c[2].Type == "*lens.vInner01")
		} else {
			vAssert("pointer field", v01Inner(c[2], *o.Ptr))
		}
		switch a := o.Any.(type) {
		case nil:
			vAssert("nil interface", c[3].Value == nil && len(c[3].Children) == 0)
		case uint8:
			vAssert("interface scalar", c[3].Type == "uint8" && vDeepEq(c[3].Value, uint32(a)))
		case vInner01:
			vAssert("interface struct", v01Inner(c[3], a))
		}
		if o.List == nil {
			vAssert("nil list", c[4].Value == nil && len(c[4].Children) == 0)
		} else {
			vAssert("list length", len(c[4].Children) == len(o.List))
			for i, e := range o.List {
				vAssert("list element", c[4].Children[i].Name == "["+string(rune('0'+i))+"]" && v01Inner(c[4].Children[i], e))
			}
		}
		vAssert("unexported slice", vDeepEq(c[5].Value, o.inner))
	case 1:
		m := map[string]int64{}
		n := vChoose("entries", 3)
		for i := 0; i < n; i++ {
			m[vStr("k", 1)] = vI64("mv")
		}
		f := v01Decode([]lensMonitorFieldSnapshot{{Name: "m", Val: m}, {Name: "tail", Val: tail}}, 1, 2, nil)
		vAssert("following field preserved", vDeepEq(f.Fields[1].Value, tail))
		g := f.Fields[0]
		vAssert("map arrives with all its entries", g.Type == "map[string]int64" && len(g.Children) == len(m))
		seen := map[string]bool{}
		for _, c := range g.Children {
			w, ok := m[c.Name]
			vAssert("map entry", ok && !seen[c.Name] && vDeepEq(c.Value, w))
			seen[c.Name] = true
		}
		vReach("map")
	case 2:
		m := map[string][]vInner01{"k": {in, {A: num(4), b: "q"}}}
		f := v01Decode([]lensMonitorFieldSnapshot{{Name: "m", Val: m}, {Name: "tail", Val: tail}}, 1, 2, nil)
		vAssert("following field preserved", vDeepEq(f.Fields[1].Value, tail))
		g := f.Fields[0]
		vAssert("map of slices of structs", len(g.Children) == 1 && g.Children[0].Name == "k" && len(g.Children[0].Children) == 2 && v01Inner(g.Children[0].Children[0], in) && v01Inner(g.Children[0].Children[1], m["k"][1]))
	case 3:
		f := v01Decode([]lensMonitorFieldSnapshot{{Name: "m", Val: map[string]int(nil)}, {Name: "e", Val: error(nil)}, {Name: "arr", Val: [2]vInner01{in, in}}, {Name: "tail", Val: tail}}, 1, 2, nil)
		vAssert("nil map", f.Fields[0].Value == nil && len(f.Fields[0].Children) == 0)
		vAssert("nil error", f.Fields[1].Value == nil)
		vAssert("array of structs", len(f.Fields[2].Children) == 2 && v01Inner(f.Fields[2].Children[0], in) && v01Inner(f.Fields[2].Children[1], in))
		vAssert("following field preserved", vDeepEq(f.Fields[3].Value, tail))
	}
}

func v01Stack(max int) []lensMonitorStackFrame {
	n := vChoose("frames", max+1)
	sel := vChoose("sel", max)
	var st []lensMonitorStackFrame
	for i := 0; i < n; i++ {
		line := uint(i + 1)
		if i == sel {
			line = vUint("line")
		}
		st = append(st, lensMonitorStackFrame{File: vStr("file", vChoose("fileLen", 2)), Function: vStr("fn", vChoose("fnLen", 2)), Line: line})
	}
	return st
}

func v01SameStack(a, b []lensMonitorStackFrame) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vAnd(r, a[i].File == b[i].File, a[i].Function == b[i].Function, a[i].Line == b[i].Line)
	}
	return r
}

// Call stacks arrive frame for frame, with files and functions never swapped
// or merged, in every message that carries one.
//
//v:bounds 0..2 (thorough 3) frames, symbolic 0..1-byte names (so every sharing pattern of the string table), any line number in any one frame
func VHStacks() {
	m := 2
	if vThorough() {
		m = 3
	}
	st := v01Stack(m)
	id, ts := uint32(300), vI64("ts")
	if len(st) == 0 {
		id = vU32("id")
	}
	switch vChoose("msg", 3) {
	case 0:
		x := int32(5)
		msg := v01Decode([]lensMonitorFieldSnapshot{{Name: "x", Val: x}}, id, ts, st)
		vAssert("state stack preserved", v01SameStack(msg.Stack, st))
		vAssert("state field preserved", vDeepEq(msg.Fields[0].Value, x))
	case 1:
		var buf bytes.Buffer
		lensEncodeMessagePoint(&buf, id, ts, st)
		r := bytes.NewReader(buf.Bytes())
		msg, err := newLensReader(r, 16).decodeMessagePoint()
		vAssert("every encoded point message decodes", err == nil && r.Len() == 0)
		vAssert("point message preserved", vAnd(msg.PointID == id, msg.TimeNS == ts, v01SameStack(msg.Stack, st)))
		vObs("ts", msg.TimeNS)
	case 2:
		var buf bytes.Buffer
		text := vStr("text", vChoose("textLen", 3))
		lensEncodeMessageError(&buf, id, errors.New(text), st)
		r := bytes.NewReader(buf.Bytes())
		msg, err := newLensReader(r, 16).decodeMessageError()
		vAssert("every encoded error message decodes", err == nil && r.Len() == 0)
		vAssert("error message preserved", vAnd(msg.PointID == id, msg.Message == text, v01SameStack(msg.Stack, st)))
	}
}

// Panic messages arrive with their id, time and text.
//
//v:bounds panic text of 0..4 symbolic bytes, given as a string or an error
func VHPanicMessage() {
	id, ts := vU32("id"), vI64("ts")
	text := vStr("text", vChoose("n", 5))
	var p any = text
	if vChoose("err", 2) == 1 {
		p = errors.New(text)
	}
	var buf bytes.Buffer
	lensEncodeMessagePointPanic(&buf, id, ts, p)
	r := bytes.NewReader(buf.Bytes())
	msg, err := newLensReader(r, 16).decodeMessagePointPanic()
	vAssert("every encoded panic message decodes", err == nil && r.Len() == 0)
	vAssert("panic message preserved", vAnd(msg.PointID == id, msg.TimeNS == ts, msg.Message == text))
	vObs("text", msg.Message)
}

// Values longer than the capture limit arrive cut at the limit, with the cut
// of strings announced; the message stays decodable.
//
//v:bounds lengths limit-1..limit+2 around the 1024 limit and 126..129 around the one-byte length form, last bytes symbolic
func VHTruncation() {
	n := lensMonitorFieldMaxLen - 1 + vChoose("over", 4)
	if vChoose("short", 2) == 1 {
		n = 126 + vChoose("n", 4)
	}
	tail := vI32("tail")
	body := strings.Repeat("x", n-1)
	last := vU8("last")
	vAssume(last < 0x80)
	s := body + string([]byte{last})
	var val any
	kind := vChoose("kind", 4)
	switch kind {
	case 0:
		val = s
	case 1:
		val = []byte(s)
	case 2:
		x := make([]uint16, n)
		x[n-1] = uint16(last)
		val = x
	case 3:
		val = []string{s, "b"}
	}
	msg := v01Decode([]lensMonitorFieldSnapshot{{Name: "v", Val: val}, {Name: "tail", Val: tail}}, 1, 2, nil)
	vAssert("following field preserved", vDeepEq(msg.Fields[1].Value, tail))
	got := msg.Fields[0].Value
	over := n - lensMonitorFieldMaxLen
	switch kind {
	case 0, 3:
		g, _ := got.(string)
		if kind == 3 {
			l, ok := got.([]string)
			vAssert("string list length", ok && len(l) == 2 && l[1] == "b")
			g = l[0]
		}
		if over <= 0 {
			vAssert("a string within the limit is kept whole", g == s)
		} else {
			vReach("cut")
			vAssert("a cut string keeps its head and says how much is missing", g == s[:lensMonitorFieldMaxLen]+"…("+string(rune('0'+over))+" more)")
		}
	case 1:
		g, ok := got.(string)
		vAssert("text bytes", ok && g == s[:min(n, lensMonitorFieldMaxLen)])
	case 2:
		g, ok := got.([]uint32)
		vAssert("number list cut at the limit", ok && len(g) == min(n, lensMonitorFieldMaxLen))
		if over <= 0 {
			vAssert("last element", g[n-1] == uint32(last))
		}
	}
}
