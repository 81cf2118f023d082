package lens

import (
	"bytes"
	"reflect"
	"strconv"
)

type v26Node struct {
	N    string
	Next *v26Node
	M    map[string]*v26Node
}

type v26A int8
type v26B int8

type v26Key struct {
	A int8
	b string
}

// v26Capture returns the record the analyser makes of a captured value.
func v26Capture(val any) FieldValues {
	var buf bytes.Buffer
	lensEncodeMessagePointState(&buf, 1, 2, nil, []lensMonitorFieldSnapshot{{Name: "v", Val: val}, {Name: "tail", Val: int8(5)}})
	r := bytes.NewReader(buf.Bytes())
	msg, err := newLensReader(r, lensMonitorFieldMaxLen).decodeMessagePointState()
	vAssert("the message decodes", err == nil && r.Len() == 0)
	vAssert("the next value is captured as well", len(msg.Fields) == 2 && vDeepEq(msg.Fields[1].Value, int32(5)))
	d := FieldValues{}
	for _, f := range msg.Fields {
		collectFields(d, f.Name, f.Value, f.Type, f.Children, "")
	}
	return d
}

func v26Same(a, b FieldValues) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		y, ok := b[k]
		if !ok || x.Value != y.Value || !v26Same(x.Children, y.Children) {
			return false
		}
	}
	return true
}

// Capturing a value twice gives the same record, whatever order its maps are
// gone through.
//
//v:bounds maps of 2 or 3 entries in any iteration orders: values shared between entries or not (pointers, maps, slices, functions), linked to each other, nested maps, and keys of different types with the same text
//v:iters 60
//v:quick 60
func VHOrder() {
	n := vStr("n", 1)
	a, b := &v26Node{N: n}, &v26Node{N: "2"}
	var val any
	kind := vChoose("kind", 11)
	switch kind {
	case 10: // keys of types of the same kind
		x, y := vI8("x"), vI8("y")
		val = map[any]string{v26A(x): n, v26B(y): "2", [1]any{v26A(x)}: "3", [1]any{v26B(y)}: "4"}
	case 0: // shared pointers
		m := map[string]*v26Node{"x": a, "y": b}
		if vBool("shared") {
			m["y"] = a
		}
		if vBool("third") {
			m["z"] = b
		}
		val = m
	case 1: // linked nodes
		if vBool("a to b") {
			a.Next = b
		}
		if vBool("b to a") {
			b.Next = a
		}
		val = map[int]*v26Node{1: a, 2: b}
	case 2:
		in := map[string]string{"k": n}
		m := map[string]map[string]string{"x": in, "y": {"k": "2"}}
		if vBool("shared") {
			m["y"] = in
		}
		val = m
	case 3:
		s := []string{"p", "q"}
		m := map[uint8][]string{1: s, 2: s[:1]}
		if vBool("other") {
			m[2] = []string{"r"}
		}
		val = m
	case 4:
		f := func() {}
		val = map[string]any{"x": f, "y": f, "z": n}
	case 5: // keys of the same text
		val = map[any]string{1: n, "1": "2"}
	case 6:
		val = map[any]any{int8(1): n, uint16(1): a, true: a}
	case 7: // maps in structs
		a.M = map[string]*v26Node{"x": a, "y": b, "z": b}
		val = a
	case 8:
		val = map[v26Key]*v26Node{{A: 1, b: "x"}: a, {A: 1, b: n}: a}
	case 9:
		val = map[float64]*v26Node{1: a, -1: a}
	}
	first := v26Capture(val)
	vMapOrder(true)
	second := v26Capture(val)
	vMapOrder(false)
	vAssert("the same value is captured the same", v26Same(first, second))
}

// Capturing ends for values that contain themselves, and tells where.
//
//v:bounds 9 kinds of values containing themselves through pointers, interfaces, maps, slices and structs
func VHCycles() {
	n := vStr("n", 1)
	var val any
	switch vChoose("kind", 9) {
	case 0:
		var x any
		x = &x
		val = x
	case 1:
		type p *p
		var x p
		x = &x
		val = x
	case 2:
		a := &v26Node{N: n}
		a.Next = a
		val = *a
	case 3:
		m := map[string]any{}
		m["m"] = m
		val = m
	case 4:
		s := []any{n, nil}
		s[1] = s
		val = s
	case 5:
		s := []any{n, nil}
		s[1] = &s
		val = s
	case 6:
		a, b := &v26Node{N: n}, &v26Node{}
		a.Next, b.Next = b, a
		val = []*v26Node{a, b}
	case 7:
		var x, y any
		x, y = &y, &x
		val = []any{x, y}
	case 8:
		a := &v26Node{N: n, M: map[string]*v26Node{}}
		a.M["a"] = a
		val = map[string]any{"a": a}
	}
	d := v26Capture(val)
	vAssert("the value is told", d["v"] != nil && (d["v"].Value != "" || len(d["v"].Children) > 0))
}

// Long chains are captured to the limit.
//
//v:bounds linked lists and nested pointers of 97..103 steps
func VHDeep() {
	n := 97 + vChoose("n", 7)
	last := vStr("last", 1)
	head := &v26Node{N: last}
	for i := 1; i < n; i++ {
		head = &v26Node{N: "1", Next: head}
	}
	d := v26Capture(head)
	cur := d["v"]
	i := 1
	for ; i < n; i++ {
		if cur.Children["Next"] == nil {
			break
		}
		cur = cur.Children["Next"]
	}
	if n <= lensMonitorFieldMaxRecurse-1 {
		vAssert("a list within the limit is captured to its end", i == n && cur.Children["N"].Value == last)
		vReach("whole")
	} else {
		vAssert("a longer list is captured to the limit", i >= lensMonitorFieldMaxRecurse)
		vReach("cut")
	}
}

// Which entries of a large map are kept is fixed by an order of its keys.
//
//v:bounds all triples of keys of every kind a map can have (strings of 0..2 bytes, every number, NaN included, arrays, structs and interfaces of those)
//v:outside keys ordered by address (pointers, channels)
//v:quick 90
func VHKeyOrder() {
	kind := vChoose("kind", 15)
	sub := [3]int{}
	key := func(i int) reflect.Value {
		s := strconv.Itoa(i)
		switch kind {
		case 0:
			return reflect.ValueOf(vStr("k"+s, vChoose("len"+s, 3)))
		case 1:
			return reflect.ValueOf(vI8("k" + s))
		case 2:
			return reflect.ValueOf(vI64("k" + s))
		case 3:
			return reflect.ValueOf(vU64("k" + s))
		case 4:
			return reflect.ValueOf(vU8("k" + s))
		case 5:
			return reflect.ValueOf(vBool("k" + s))
		case 6:
			return reflect.ValueOf(vF64("k" + s))
		case 7:
			return reflect.ValueOf(vF32("k" + s))
		case 8:
			return reflect.ValueOf(complex(vF64("k"+s), vF64("i"+s)))
		case 9:
			return reflect.ValueOf([2]int8{vI8("k" + s), vI8("l" + s)})
		case 10:
			return reflect.ValueOf(v26Key{vI8("k" + s), vStr("l"+s, 1)})
		case 11:
			return reflect.ValueOf([1]float64{vF64("k" + s)})
		case 12:
			return reflect.ValueOf(vInt("k" + s))
		case 13:
			return reflect.ValueOf(vU32("k" + s))
		}
		var a [1]any
		sub[i] = vChoose("type"+s, 6)
		switch sub[i] {
		case 4:
			a[0] = v26A(vI8("k" + s))
		case 5:
			a[0] = v26B(vI8("k" + s))
		case 0:
			a[0] = vI8("k" + s)
		case 1:
			a[0] = vStr("k"+s, 1)
		case 2:
			a[0] = vF64("k" + s)
		}
		return reflect.ValueOf(a)
	}
	a, b, c := key(0), key(1), key(2)
	ab, ba, bc, ac := lensCompareReflectValue(a, b), lensCompareReflectValue(b, a), lensCompareReflectValue(b, c), lensCompareReflectValue(a, c)
	vAssert("the order of two keys does not depend on how they are asked for", (ab < 0) == (ba > 0) && (ab == 0) == (ba == 0))
	vAssert("keys of different types have different places", sub[0] == sub[1] || ab != 0)
	vAssert("the order is transitive", !(ab < 0 && bc < 0) || ac < 0)
	vAssert("equal places are transitive", !(ab == 0 && bc == 0) || ac == 0)
	if kind < 6 || kind == 12 || kind == 13 {
		vAssert("keys have the same place only when they are equal", (ab == 0) == v26Eq(a, b))
	}
}

func v26Eq(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int64:
		return a.Int() == b.Int()
	}
	return a.Uint() == b.Uint()
}

// Of a large map the first entries in the order of its keys are kept.
//
//v:bounds maps of 1023..1026 entries with number or text keys and one value symbolic
func VHLargeMap() {
	n := lensMonitorFieldMaxLen - 1 + vChoose("n", 4)
	text := vBool("text")
	last := vStr("last", 1)
	m, t := map[int]string{}, map[string]string{}
	for i := 0; i < n; i++ {
		k := (i*7919 + 3) % n
		v := "1"
		if k == lensMonitorFieldMaxLen-2 {
			v = last
		}
		if text {
			t["k"+strconv.Itoa(10000+k)] = v
		} else {
			m[k] = v
		}
	}
	var d FieldValues
	if text {
		d = v26Capture(t)
	} else {
		d = v26Capture(m)
	}
	want := min(n, lensMonitorFieldMaxLen)
	vAssert("entries are kept to the limit", len(d["v"].Children) == want)
	for x := 0; x < n; x++ {
		name := strconv.Itoa(x)
		if text {
			name = "k" + strconv.Itoa(10000+x)
		}
		f := d["v"].Children[name]
		vAssert("the first entries are kept", (f != nil) == (x < want))
		if x == lensMonitorFieldMaxLen-2 {
			vAssert("their values are kept", f.Value == last)
		}
	}
}
