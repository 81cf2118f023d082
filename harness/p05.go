package lens

//v:use lib_fv.go

// v05Flat lists the leaves of a tree by path.
func v05Flat(fv FieldValues) map[string]string {
	out := map[string]string{}
	var walk func(pre string, f FieldValues)
	walk = func(pre string, f FieldValues) {
		for k, v := range f {
			if len(v.Children) > 0 {
				walk(pre+k+"/", v.Children)
			} else {
				out[pre+k] = v.Value
			}
		}
	}
	walk("", fv)
	return out
}

// v05Common asserts that got holds exactly the leaves a and b agree on.
func v05Common(got, a, b FieldValues) {
	fg, fa, fb := v05Flat(got), v05Flat(a), v05Flat(b)
	n := 0
	for k, va := range fa {
		vb, ok := fb[k]
		if !ok || va != vb {
			_, has := fg[k]
			vAssert("no field that was unstable is kept", !has)
			continue
		}
		n++
		g, has := fg[k]
		vAssert("every stable field is kept", has)
		vAssert("a kept field has its recorded value", g == va)
	}
	vAssert("nothing is made up", len(fg) == n)
}

// A field counts as stable exactly when both runs recorded the same value at
// the same place of the tree.
//
//v:bounds one frame per run with any of 11 field tree shapes (depth up to 3, up to 3 leaves), symbolic leaf values
//v:quick 40
func VHStableFields() {
	a := v03Shape("p", vChoose("a", v03Shapes))
	b := v03Shape("q", vChoose("b", v03Shapes))
	st := []StackFrame{{File: "./a.go", Function: "f"}}
	r1 := TestResult{CallerResults: map[string][]CallFrame{"c": {{FieldValues: a, Stack: st, TimeMillis: 1}}}}
	r2 := TestResult{CallerResults: map[string][]CallFrame{"c": {{FieldValues: b, Stack: st, TimeMillis: 1}}}}
	out := testResultStableFields(r1, r2)
	vAssert("the frame of both runs is kept", len(out.CallerResults) == 1 && len(out.CallerResults["c"]) == 1)
	v05Common(out.CallerResults["c"][0].FieldValues, a, b)
	vObs("n", len(out.CallerResults["c"][0].FieldValues))
}

// v05Stack: call paths 0 and 2 differ only outside the project.
func v05Stack(k int) []StackFrame {
	switch k {
	case 0:
		return []StackFrame{{File: "./a.go", Line: 1, Function: "f"}}
	case 1:
		return []StackFrame{{File: "./b.go", Line: 1, Function: "f"}}
	default:
		return []StackFrame{{File: "lib/x.go", Line: 4, Function: "z"}, {File: "./a.go", Line: 8, Function: "f"}, {File: "./vendor/v.go", Line: 1, Function: "v"}}
	}
}

type v05Frame struct {
	key  int
	time uint32
	fv   FieldValues
}

func v05Run(n string, ext bool, counts int) ([]v05Frame, []CallFrame) {
	var fs []v05Frame
	var cf []CallFrame
	for i := vChoose(n+".n", counts); i > 0; i-- {
		k := vChoose(n+".path", 3)
		f := v05Frame{key: k, time: vU32(n + ".time"), fv: FieldValues{"x": {Value: vStr(n+".x", 1)}}}
		if !ext && k == 2 {
			f.key = 0
		}
		fs = append(fs, f)
		cf = append(cf, CallFrame{FieldValues: f.fv, Stack: v05Stack(k), TimeMillis: f.time})
	}
	for i := 1; i < len(fs); i++ {
		for j := i; j > 0 && fs[j].time < fs[j-1].time; j-- {
			fs[j], fs[j-1] = fs[j-1], fs[j]
		}
	}
	return fs, cf
}

// Calls of the two runs are paired by call path and, within a path, by the
// order in which they happened; only paired calls survive, in time order.
//
//v:bounds 0..2 (thorough: 3) calls in the first run, 0..3 in the second, each on one of 3 call paths (two alike in project code), symbolic times and values; callers, extension points or both
//v:quick 90
func VHStablePairing() {
	ext := vBool("extension")
	m := 3
	if vThorough() {
		m = 4
	}
	f1, c1 := v05Run("r1", ext, m)
	f2, c2 := v05Run("r2", ext, 4)
	r1, r2 := TestResult{}, TestResult{}
	if ext {
		r1.ExtensionFrames = map[string][]CallFrame{"c": c1, "only1": {{Stack: v05Stack(0)}}}
		r2.ExtensionFrames = map[string][]CallFrame{"c": c2, "only2": {{Stack: v05Stack(0)}}}
	} else {
		r1.CallerResults = map[string][]CallFrame{"c": c1, "only1": {{Stack: v05Stack(0)}}}
		r2.CallerResults = map[string][]CallFrame{"c": c2, "only2": {{Stack: v05Stack(0)}}}
	}
	both := vBool("both kinds")
	if both {
		o1, o2 := map[string][]CallFrame{"o": {{Stack: v05Stack(0)}}}, map[string][]CallFrame{"o": {{Stack: v05Stack(0)}, {Stack: v05Stack(1)}}}
		if ext {
			r1.CallerResults, r2.CallerResults = o1, o2
		} else {
			r1.ExtensionFrames, r2.ExtensionFrames = o1, o2
		}
	}
	out := testResultStableFields(r1, r2)
	got := out.CallerResults
	other := out.ExtensionFrames
	if ext {
		got, other = other, got
	}
	if both {
		vAssert("the other kind is kept apart", len(other) == 1 && len(other["o"]) == 1)
	} else {
		vAssert("nothing from the other kind", len(other) == 0)
	}
	vAssert("a point of one run only is unstable", len(got["only1"]) == 0 && len(got["only2"]) == 0)
	frames := got["c"]
	pos := 0
	seen := map[int]int{}
	for _, f := range f1 {
		occ := seen[f.key]
		seen[f.key]++
		var match *v05Frame
		k := 0
		for i := range f2 {
			if f2[i].key == f.key {
				if k == occ {
					match = &f2[i]
				}
				k++
			}
		}
		if match == nil {
			continue
		}
		vAssert("a call of both runs is kept", pos < len(frames))
		g := frames[pos]
		pos++
		vAssert("calls stay in time order", g.TimeMillis == f.time)
		v05Common(g.FieldValues, f.fv, match.fv)
	}
	vAssert("a call of one run only is dropped", pos == len(frames))
	vObs("kept", len(frames))
}

// Also long runs of calls are paired in the order in which they happened,
// calls of the same millisecond in the order of their recording.
//
//v:bounds 24 calls of one path in both runs, in 9 arrangements of times with many alike; the value of any one call of the second run is a symbolic byte
func VHStableMany() {
	mod := 1 + vChoose("times", 3)
	mul := []int{1, 5, 7}[vChoose("order", 3)]
	ext := vBool("extension")
	const n = 24
	type call struct {
		time uint32
		x    string
	}
	mk := func(name string) ([]call, []CallFrame) {
		var cs []call
		var cf []CallFrame
		for i := 0; i < n; i++ {
			c := call{uint32(i * mul % mod), string([]byte{byte('a' + i)})}
			cs = append(cs, c)
			cf = append(cf, CallFrame{FieldValues: FieldValues{"x": {Value: c.x}}, Stack: v05Stack(0), TimeMillis: c.time})
		}
		if name == "r2" { // the value of one call is any
			s, v := vChoose(name+".call", n), vStr(name+".x", 1)
			cs[s].x = v
			cf[s].FieldValues = FieldValues{"x": {Value: v}}
		}
		for i := 1; i < n; i++ {
			for j := i; j > 0 && cs[j].time < cs[j-1].time; j-- {
				cs[j], cs[j-1] = cs[j-1], cs[j]
			}
		}
		return cs, cf
	}
	a, ca := mk("r1")
	b, cb := mk("r2")
	r1, r2 := TestResult{}, TestResult{}
	if ext {
		r1.ExtensionFrames, r2.ExtensionFrames = map[string][]CallFrame{"c": ca}, map[string][]CallFrame{"c": cb}
	} else {
		r1.CallerResults, r2.CallerResults = map[string][]CallFrame{"c": ca}, map[string][]CallFrame{"c": cb}
	}
	out := testResultStableFields(r1, r2)
	got := out.CallerResults["c"]
	if ext {
		got = out.ExtensionFrames["c"]
	}
	vAssert("every call is kept", len(got) == n)
	for i := range a {
		_, has := got[i].FieldValues["x"]
		vAssert("a value is kept exactly when both runs agree", has == (a[i].x == b[i].x))
		if has {
			vAssert("with its value", got[i].FieldValues["x"].Value == a[i].x)
		}
		vAssert("in time order", got[i].TimeMillis == a[i].time)
	}
	vReach("many")
}

// Panics are stable as a multiset; a test that failed in either run failed.
//
//v:bounds 0..2 (thorough: 3) panic messages of 1 symbolic byte per run, project and module panics, both failure flags
func VHStablePanics() {
	m := 3
	if vThorough() {
		m = 4
	}
	list := func(n string) []string {
		var l []string
		for i := vChoose(n, m); i > 0; i-- {
			l = append(l, vStr(n+".msg", 1))
		}
		return l
	}
	l1, l2 := list("r1"), list("r2")
	mk := func(l []string) map[string][]string {
		if l == nil {
			return nil
		}
		return map[string][]string{"c": l}
	}
	r1, r2 := TestResult{TestFailure: vBool("fail1")}, TestResult{TestFailure: vBool("fail2")}
	mod := vBool("module")
	if mod {
		r1.ModulePanics, r2.ModulePanics = mk(l1), mk(l2)
	} else {
		r1.ProjectPanics, r2.ProjectPanics = mk(l1), mk(l2)
	}
	r1.TestFunction = MinimumTestFunction{FunctionIdent: vStr("id", 1), FunctionName: "n"}
	r1.ModuleChangesHit = vInt("hit")
	out := testResultStableFields(r1, r2)
	vAssert("a failure in either run is a failure", out.TestFailure == vOr(r1.TestFailure, r2.TestFailure))
	vAssert("the result is the first run's test", out.TestFunction == r1.TestFunction && out.ModuleChangesHit == r1.ModuleChangesHit)
	g, o := out.ProjectPanics["c"], out.ModulePanics["c"]
	if mod {
		g, o = o, g
	}
	vAssert("no panic of the other kind", len(o) == 0)
	count := func(l []string, s string) int {
		n := 0
		for _, x := range l {
			if x == s {
				n++
			}
		}
		return n
	}
	for _, s := range l1 {
		vAssert("a panic is stable as often as both runs had it", count(g, s) == min(count(l1, s), count(l2, s)))
	}
	for _, s := range g {
		vAssert("no panic is made up", count(l1, s) > 0)
	}
}
