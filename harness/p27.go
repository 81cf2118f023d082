package lens

import (
	"bytes"
	"strconv"
)

type v27Slices struct {
	A, B, C []uint16
}

type v27Leaf struct {
	X int8
	y string
}

type v27Refs struct {
	P, Q *v27Leaf
	X, Z *int8
	In   v27Leaf
}

type v27Any struct {
	A, B any
}

type v27Scalars struct {
	B  bool
	I  int32
	U  uint8
	F  float32
	S  string
	by []byte
	AR [2]int16
	SB []bool
	SS []string
	SF []float64
}

// v27Capture returns the decoded record of a captured value.
func v27Capture(val any) LensMonitorField {
	var buf bytes.Buffer
	lensEncodeMessagePointState(&buf, 1, 2, nil, []lensMonitorFieldSnapshot{{Name: "v", Val: val}})
	r := bytes.NewReader(buf.Bytes())
	msg, err := newLensReader(r, lensMonitorFieldMaxLen).decodeMessagePointState()
	vAssert("the message decodes", err == nil && r.Len() == 0 && len(msg.Fields) == 1)
	return msg.Fields[0]
}

func v27Same(a, b LensMonitorField) bool {
	if len(a.Children) != len(b.Children) || (a.Children == nil) != (b.Children == nil) {
		return false
	}
	same := vAnd(a.Name == b.Name, a.Type == b.Type, vDeepEq(a.Value, b.Value))
	for i := range a.Children {
		same = vAnd(same, v27Same(a.Children[i], b.Children[i]))
	}
	return same
}

// v27Text returns what is compared of a record.
func v27Text(f LensMonitorField) FieldValues {
	d := FieldValues{}
	collectFields(d, f.Name, f.Value, f.Type, f.Children, "")
	return d
}

func v27SameText(a, b FieldValues) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	same := true
	for k, x := range a {
		y, ok := b[k]
		if !ok {
			return false
		}
		same = vAnd(same, x.Value == y.Value, v27SameText(x.Children, y.Children))
	}
	return same
}

func v27Check(a, b any, equal bool) {
	ra, rb := v27Capture(a), v27Capture(b)
	vReach("captured")
	vAssert("values that differ have different records", vImp(v27Same(ra, rb), equal))
	vAssert("values that differ are told apart", vImp(v27SameText(v27Text(ra), v27Text(rb)), equal))
}

func v27Nums(a, b []uint16) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	same := true
	for i := range a {
		same = vAnd(same, a[i] == b[i])
	}
	return same
}

func v27Slice(name string, base []uint16) []uint16 {
	switch k := vChoose(name, 8); k {
	case 0:
		return nil
	case 1:
		return []uint16{}
	case 2, 3, 4:
		return base[:k-2]
	case 5:
		return base[1:2]
	case 6:
		return base[1:3]
	default:
		return []uint16{vU16(name + " own")}
	}
}

// Lists are recorded with their own length and elements, also when they are
// parts of one another.
//
//v:bounds structs of two (thorough three) lists: nil, empty, separate, or parts of one array of 3 symbolic numbers
//v:outside values differing beyond the length, text and depth limits; values differing in functions, channels or addresses only; comparing the texts of values of different dynamic types; a byte list that is no valid text against the text spelling its numbers
//v:quick 60
func VHParts() {
	mk := func(n string) v27Slices {
		base := []uint16{vU16(n + "0"), 7, 8}
		s := v27Slices{A: v27Slice(n+"A", base), B: v27Slice(n+"B", base)}
		if vThorough() {
			s.C = v27Slice(n+"C", base)
		}
		return s
	}
	a, b := mk("a"), mk("b")
	v27Check(&a, &b, vAnd(v27Nums(a.A, b.A), v27Nums(a.B, b.B), v27Nums(a.C, b.C)))
}

// Values reached through pointers are recorded, whatever else points to them
// or to a part of them.
//
//v:bounds structs of pointers to structs and to their first field, nil, shared or separate, with symbolic contents
//v:quick 60
func VHPointers() {
	mk := func(n string) *v27Refs {
		l := []*v27Leaf{nil, {X: vI8(n + "X"), y: "1"}, {X: 5, y: vStr(n+"y", 1)}}
		r := &v27Refs{P: l[vChoose(n+"P", 3)], Q: l[vChoose(n+"Q", 3)]}
		switch vChoose(n+"x", 5) {
		case 1:
			r.X = &l[1].X
		case 2:
			r.X = &l[2].X
		case 3:
			own := vI8(n + "own")
			r.X = &own
		case 4:
			r.X, r.Z = &r.In.X, &r.In.X
			r.In.X = vI8(n + "in")
		}
		return r
	}
	leaf := func(a, b *v27Leaf) bool {
		if a == nil || b == nil {
			return a == b
		}
		return vAnd(a.X == b.X, a.y == b.y)
	}
	num := func(a, b *int8) bool {
		if a == nil || b == nil {
			return a == b
		}
		return *a == *b
	}
	a, b := mk("a"), mk("b")
	v27Check(a, b, vAnd(leaf(a.P, b.P), leaf(a.Q, b.Q), num(a.X, b.X), num(a.Z, b.Z), a.In.X == b.In.X))
}

func v27Dyn(n string) (any, int) {
	k := vChoose(n, 12)
	switch k {
	case 0:
		return nil, k
	case 1:
		return vI8(n + "v"), k
	case 2:
		return vU8(n + "v"), k
	case 3:
		return vBool(n + "v"), k
	case 4:
		return vStr(n+"v", 1), k
	case 5:
		return []uint8{vU8(n + "v")}, k
	case 6:
		return [1]uint8{vU8(n + "v")}, k
	case 7:
		return v27Leaf{X: vI8(n + "v")}, k
	}
	switch k {
	case 8:
		return struct{}{}, k
	case 9:
		return map[string]bool{}, k
	case 10:
		return []*int8{}, k
	}
	return map[int8]bool{vI8(n + "v"): true}, k
}

// Values of different types differ, also when their contents look the same.
//
//v:bounds interfaces holding nil, empty values, numbers, truth values, texts, byte lists and arrays, structs, maps, with symbolic contents
//v:quick 60
func VHDynamic() {
	av, ak := v27Dyn("a")
	bv, bk := v27Dyn("b")
	a, b := v27Any{A: av, B: 1}, v27Any{A: bv, B: 1}
	if ak == bk || ak*bk == 0 {
		v27Check(a, b, ak == bk && vDeepEq(av, bv))
	} else {
		vAssert("values of different types have different records", !v27Same(v27Capture(a), v27Capture(b)))
	}
}

// Every part of a value takes part in its record.
//
//v:bounds one struct of every scalar and list kind, any one part symbolic on both sides, lists of 0..2 elements
//v:quick 60
func VHLeaves() {
	sel := vChoose("part", 10)
	mk := func(n string) *v27Scalars {
		s := &v27Scalars{U: 3, S: "s", by: []byte{0xff}, SB: []bool{true}, SS: []string{"", "x"}}
		switch sel {
		case 0:
			s.B = vBool(n)
		case 1:
			s.I = vI32(n)
		case 2:
			s.U = vU8(n)
		case 3:
			s.F = vF32(n)
		case 4:
			s.S = vStr(n, vChoose(n+"len", 3))
		case 5:
			s.by = vBytes(n, vChoose(n+"len", 3))
		case 6:
			s.AR[vChoose(n+"i", 2)] = vI16(n)
		case 7:
			s.SB = []bool{true, true, false, true, true, true, true, vBool(n + "1"), vBool(n + "2")}[:vChoose(n+"len", 3)+7]
		case 8:
			s.SS = []string{vStr(n+"1", vChoose(n+"len1", 2)), vStr(n+"2", vChoose(n+"len2", 2))}[:vChoose(n+"len", 3)]
		case 9:
			s.SF = []float64{1, vF64(n), 2}[:vChoose(n+"len", 3)]
		}
		return s
	}
	a, b := mk("a"), mk("b")
	bits := func(a, b float64) bool { return a == b || (a != a && b != b) }
	eq := vAnd(a.B == b.B, a.I == b.I, a.U == b.U, bits(float64(a.F), float64(b.F)), a.S == b.S, vDeepEq(a.by, b.by),
		a.AR[0] == b.AR[0], a.AR[1] == b.AR[1], vDeepEq(a.SB, b.SB), vDeepEq(a.SS, b.SS), len(a.SF) == len(b.SF))
	for i := range min(len(a.SF), len(b.SF)) {
		eq = vAnd(eq, bits(a.SF[i], b.SF[i]))
	}
	v27Check(a, b, eq)
}

// Maps are recorded with every key and value.
//
//v:bounds maps of 0..2 entries with number or text keys and symbolic keys and values; maps shared between two fields or not
//v:quick 60
func VHMaps() {
	type two struct{ M, N map[int8]*v27Leaf }
	mk := func(n string) *two {
		t := &two{}
		l := &v27Leaf{X: vI8(n + "X")}
		switch vChoose(n, 5) {
		case 0:
		case 1:
			t.M = map[int8]*v27Leaf{}
		case 2:
			t.M = map[int8]*v27Leaf{vI8(n + "k"): l}
		case 3:
			t.M = map[int8]*v27Leaf{vI8(n + "k"): l}
			t.N = t.M
		case 4:
			t.M = map[int8]*v27Leaf{3: l}
			t.N = map[int8]*v27Leaf{3: l, vI8(n + "k"): {X: 9}}
		}
		return t
	}
	a, b := mk("a"), mk("b")
	v27Check(a, b, vDeepEq(a, b))
}

// A value beyond a limit says by how much, one within it is not cut.
//
//v:bounds texts whose lengths are limit-1..limit+2 on either side with a symbolic last byte within the limit
func VHLimits() {
	mk := func(n string) (string, int) {
		k := vChoose(n, 4)
		b := bytes.Repeat([]byte("a"), lensMonitorFieldMaxLen-1+k)
		b[lensMonitorFieldMaxLen-2] = vU8(n + " last")
		return string(b), k
	}
	a, ak := mk("a")
	b, bk := mk("b")
	v27Check(a, b, ak == bk && vDeepEq(a, b))
	v27Check([]string{a, strconv.Itoa(ak)}, []string{b, strconv.Itoa(bk)}, ak == bk && vDeepEq(a, b))
}

// Entries and variables of the same name are all kept.
//
//v:bounds maps with keys 1 and "1", true and "true"; two or three variables of one name; symbolic values
func VHNames() {
	mk := func(n string) (x, y int8, m map[any]int8) {
		x, y = vI8(n+"x"), vI8(n+"y")
		if vChoose(n, 2) == 0 {
			return x, y, map[any]int8{1: x, "1": y, uint8(7): 7}
		}
		return x, y, map[any]int8{true: x, "true": y}
	}
	ax, ay, a := mk("a")
	bx, by, b := mk("b")
	if len(a) == len(b) {
		v27Check(a, b, vAnd(ax == bx, ay == by))
	} else {
		v27Check(a, b, false)
	}
	da, db := FieldValues{}, FieldValues{}
	third := vBool("third")
	for i, v := range []int8{ax, ay, 3} {
		if i < 2 || third {
			collectFields(da, "ret0", int32(v), "int8", nil, "")
		}
	}
	for i, v := range []int8{bx, by, 3} {
		if i < 2 || third {
			collectFields(db, "ret0", int32(v), "int8", nil, "")
		}
	}
	vAssert("variables of one name are all kept", vImp(v27SameText(da, db), vAnd(ax == bx, ay == by)))
}
