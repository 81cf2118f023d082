package lens

//v:use lib_fv.go

func v03Check(tr *TestResult) {
	b, err := tr.MarshalMsgpack()
	vAssert("a result can be written", err == nil)
	var out TestResult
	err = out.UnmarshalMsgpack(b)
	vAssert("a written result can be read", err == nil)
	vAssert("test identity", out.TestFunction == tr.TestFunction)
	vAssert("failure flag", out.TestFailure == tr.TestFailure)
	vAssert("changes hit", out.ModuleChangesHit == tr.ModuleChangesHit)
	vAssert("panics", v03EqStrs(out.ProjectPanics, tr.ProjectPanics) && v03EqStrs(out.ModulePanics, tr.ModulePanics))
	vAssert("frames", v03EqFrames(out.CallerResults, tr.CallerResults))
	vAssert("extension frames", v03EqFrames(out.ExtensionFrames, tr.ExtensionFrames))
	vObs("len", len(b))
}

func v03Stack(name string, k int) []StackFrame {
	switch k {
	case 0:
		return nil
	case 1:
		return []StackFrame{{File: "f" + vStr(name+"f", 1), Line: 7, Function: "g"}}
	case 3: // alike but for one, the last or another
		st := make([]StackFrame, 0, 10)
		for i := 0; i < 9; i++ {
			st = append(st, StackFrame{File: "a.go", Line: uint32(i), Function: "h"})
		}
		at := []int{8, 4}[vChoose(name+"at", 2)]
		st[at] = StackFrame{File: "b.go", Line: 1, Function: "k" + vStr(name+"g", 1)}
		return st
	default:
		return []StackFrame{{File: "f", Line: uint32(vU8(name+"l")) & 127, Function: "g"}, {File: "h.go", Line: 3, Function: vStr(name+"g", 1)}}
	}
}

// A stored result reads back with the same field trees, whatever is shared
// between its frames.
//
//v:bounds two (thorough: up to three) frames of one caller, each with any of 11 field tree shapes (depth up to 3, up to 3 nodes), 1 symbolic byte per leaf; no stacks
//v:assume SHA-1 of distinct inputs is distinct
//v:outside results with more frames, deeper or wider trees
//v:quick 60
//v:thorough 600
func VHFieldTrees() {
	frames := []CallFrame{{FieldValues: v03Shape("p", vChoose("a", v03Shapes))}, {FieldValues: v03Shape("q", vChoose("b", v03Shapes))}}
	if vThorough() {
		if k := vChoose("c", 4); k > 0 {
			frames = append(frames, CallFrame{FieldValues: v03Shape("r", []int{0, 3, 5, 8}[k])})
		}
	}
	v03Check(&TestResult{CallerResults: map[string][]CallFrame{"c": frames}})
}

// The same with the frames spread over callers and extension points, with
// stacks, times, panics and flags.
//
//v:bounds two frames, of callers, extension points or one of each, trees of one leaf or none, stacks of 0..2 or 9 frames with symbolic files, lines and functions, all 32-bit times, all flags
//v:assume SHA-1 of distinct inputs is distinct
//v:quick 60
//v:thorough 600
func VHFrames() {
	s1, s2 := vChoose("s1", 4), vChoose("s2", 4)
	f1 := CallFrame{Stack: v03Stack("s", s1), TimeMillis: 5}
	f2 := CallFrame{Stack: v03Stack("t", s2), TimeMillis: 6}
	if vBool("tree") {
		f1.FieldValues = FieldValues{"x": v03LongLeaf("p")}
		f2.FieldValues = FieldValues{"x": v03LongLeaf("q")}
	}
	tr := &TestResult{TestFailure: vBool("failed")}
	switch vChoose("place", 4) {
	case 0:
		tr.CallerResults = map[string][]CallFrame{"c": {f1}}
		tr.ExtensionFrames = map[string][]CallFrame{"security:x": {f2}}
	case 1:
		tr.CallerResults = map[string][]CallFrame{"c": {f1}, "d": {f2}}
	case 2:
		tr.ExtensionFrames = map[string][]CallFrame{"security:x": {f1, f2}}
	case 3:
		tr.ExtensionFrames = map[string][]CallFrame{"security:x": {f1}, "y": {f2}}
	}
	v03Check(tr)
}

// Numbers, identities and panic messages of a result survive storage.
//
//v:bounds any 32-bit time, any change count, any failure flag, 2-byte symbolic identities, 0..2 panic messages of 0..2 symbolic bytes for each of project and module panics
//v:quick 60
func VHResultHead() {
	tr := &TestResult{TestFunction: MinimumTestFunction{FunctionIdent: vStr("ident", 2), FunctionName: vStr("name", 2)}, TestFailure: vBool("failed"), CallerResults: map[string][]CallFrame{}}
	switch vChoose("part", 3) {
	case 0:
		tr.CallerResults["c"] = []CallFrame{{TimeMillis: vU32("time")}}
	case 1:
		tr.ModuleChangesHit = vInt("hit")
	case 2:
		msgs := func(n string) map[string][]string {
			var l []string
			for i := 0; i < vChoose(n+"n", 3); i++ {
				l = append(l, vStr(n, vChoose(n+"len", 3)))
			}
			if l == nil {
				return nil
			}
			return map[string][]string{vStr(n+"k", 1): l}
		}
		tr.ProjectPanics = msgs("pp")
		tr.ModulePanics = msgs("mp")
	}
	v03Check(tr)
}
