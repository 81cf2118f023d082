package lens

import "bytes"

//v:use lib_fv.go

// Two field trees have the same key exactly when they are the same tree.
//
//v:bounds pairs of trees out of 11 shapes (depth up to 3, up to 3 leaves), keys and leaf values with symbolic bytes; both tree keys and single value keys
//v:assume SHA-1 of distinct inputs is distinct
func VHTreeKey() {
	a := v03Shape("p", vChoose("a", v03Shapes))
	b := v03Shape("q", vChoose("b", v03Shapes))
	if vBool("nodes") {
		x, y := a["x"], b["x"]
		vAssume(x != nil && y != nil)
		same := len(x.Children) == len(y.Children) && vAnd(x.Value == y.Value, v03EqFV(x.Children, y.Children))
		vAssert("value keys agree exactly for equal values", (x.ID() == y.ID()) == same)
		return
	}
	same := (a == nil) == (b == nil) && v03EqFV(a, b)
	vAssert("tree keys agree exactly for equal trees", (a.ID() == b.ID()) == same)
	if same && a != nil {
		vReach("same")
	}
}

// The same over arbitrary names: bytes cannot move between a name and a value.
//
//v:bounds pairs of trees {name: value} and {name: {name: value}} with names and values of 0..2 symbolic bytes
//v:assume SHA-1 of distinct inputs is distinct
func VHTreeKeyNames() {
	mk := func(n string) FieldValues {
		k := vStr(n+"k", vChoose(n+"klen", 3))
		v := vStr(n+"v", vChoose(n+"vlen", 3))
		if vBool(n + "nest") {
			return FieldValues{k: {Children: FieldValues{vStr(n+"i", 1): {Value: v}}}}
		}
		return FieldValues{k: {Value: v}}
	}
	a, b := mk("p"), mk("q")
	vAssert("tree keys agree exactly for equal trees", (a.ID() == b.ID()) == v03EqFV(a, b))
}

// The same for single values: bytes cannot move between a value and its children.
//
//v:bounds pairs of values of 0, 1, 5, 6 or 21 symbolic bytes with no, empty or one child
//v:assume SHA-1 of distinct inputs is distinct
func VHNodeKey() {
	mk := func(n string) *FieldValue {
		f := &FieldValue{Value: vStr(n, []int{0, 1, 5, 6, 21}[vChoose(n+"len", 5)])}
		switch vChoose(n+"children", 3) {
		case 1:
			f.Children = FieldValues{}
		case 2:
			f.Children = FieldValues{"a": {Value: vStr(n+"c", 1)}}
		}
		return f
	}
	a, b := mk("p"), mk("q")
	vAssume(len(a.Children) > 0 || len(b.Children) > 0 || (a.Children == nil) == (b.Children == nil) || len(a.Value) != len(b.Value))
	same := len(a.Children) == len(b.Children) && vAnd(a.Value == b.Value, v03EqFV(a.Children, b.Children))
	vAssert("value keys agree exactly for equal values", (a.ID() == b.ID()) == same)
}

func v04Name(n string, max int) string {
	s := vStr(n, vChoose(n+".len", max+1))
	for i := 0; i < len(s); i++ {
		vAssume(vAnd(s[i] != ':', s[i] != '|'))
	}
	return s
}

// Two call paths have the same key exactly when they visit the same functions
// of the same files in the same order; line numbers never matter.
//
//v:thorough 600
//v:bounds pairs of paths of 0..2 (thorough: 3) frames, files and functions of 0..2 symbolic bytes, any line numbers
//v:assume file and function names contain neither ':' nor '|'; SHA-1 of distinct inputs is distinct
func VHStackKey() {
	max, fr := 2, 3
	if vThorough() {
		fr = 4
	}
	mk := func(n string) []StackFrame {
		var s []StackFrame
		for i := vChoose(n, fr); i > 0; i-- {
			s = append(s, StackFrame{File: v04Name(n+"f", max), Line: vU32(n + "l"), Function: v04Name(n+"g", max)})
		}
		return s
	}
	a, b := mk("p"), mk("q")
	same := len(a) == len(b)
	for i := 0; same && i < len(a); i++ {
		if !vAnd(a[i].File == b[i].File, a[i].Function == b[i].Function) {
			same = false
		}
	}
	var bb bytes.Buffer
	ka := StackFramesKey(&bb, a)
	kb := StackFramesKey(&bb, b)
	vAssert("path keys agree exactly for equal call paths", (ka == kb) == same)
	if same && len(a) == 2 {
		vReach("same")
	}
}

// Long paths, whose keys are digests.
//
//v:bounds pairs of one- and two-frame paths of more than 20 bytes with two symbolic bytes each
//v:assume file and function names contain neither ':' nor '|'; SHA-1 of distinct inputs is distinct
func VHStackKeyLong() {
	mk := func(n string) []StackFrame {
		x, y := v04Name(n+"x", 1), v04Name(n+"y", 1)
		if vBool(n) {
			return []StackFrame{{File: "./a/long/package/file" + x, Line: vU32(n + "l"), Function: "fn" + y}}
		}
		return []StackFrame{{File: "./a/long/package/file", Function: "fn" + x}, {File: "./other", Line: 9, Function: y}}
	}
	a, b := mk("p"), mk("q")
	same := len(a) == len(b)
	for i := 0; same && i < len(a); i++ {
		if !vAnd(a[i].File == b[i].File, a[i].Function == b[i].Function) {
			same = false
		}
	}
	var bb bytes.Buffer
	ka := StackFramesKey(&bb, a)
	kb := StackFramesKey(&bb, b)
	vAssert("path keys agree exactly for equal call paths", (ka == kb) == same)
}

// The project part of a call path is exactly its frames in the project's own
// files: not the vendored ones, nor those of modules and the standard library.
//
//v:bounds 0..2 (thorough: 3) frames in any mix of project, vendored, module, standard library and alike-looking files, with a symbolic byte in each
func VHProjectFrames() {
	m := 3
	if vThorough() {
		m = 4
	}
	var in, want []StackFrame
	for i := vChoose("frames", m); i > 0; i-- {
		b := vU8("byte")
		c := string([]byte{b})
		f := StackFrame{Line: uint32(i), Function: "f"}
		own := true
		switch vChoose("file", 7) {
		case 0:
			f.File = "./a" + c + ".go"
		case 1: // a directory like vendored
			f.File = "./vendor" + c + "/v.go"
			own = b != '/'
		case 2:
			f.File = "./sub/vendor/" + c + ".go"
		case 3:
			f.File = "./vendor/x/" + c + ".go"
			own = false
		case 4:
			f.File = c + "/lib/x.go"
			own = b == '.'
		case 5:
			f.File = "." + c + "x.go"
			own = b == '/'
		case 6:
			f.File = "m" + c + "@v1/./x.go"
			own = false
		}
		in = append(in, f)
		if own {
			want = append(want, f)
		}
	}
	before := append([]StackFrame(nil), in...)
	got := ProjectFrames(in)
	vAssert("exactly the project's frames", len(got) == len(want))
	for i := range want {
		vAssert("in their order", got[i] == want[i])
	}
	for i := range before {
		vAssert("the call path itself is untouched", in[i] == before[i])
	}
	vReach("done")
}
