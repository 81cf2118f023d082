package lens

import "strings"

//v:use lib_fv.go

// The text of a difference is a matter of presentation.
func vstub_lens__DefaultTestResultAnalyzer__DiffValues(d *DefaultTestResultAnalyzer, v1, v2 string) string {
	return v1 + " -> " + v2
}

func v06Store(rs ...*TestResult) Storage {
	s := NewMemStorage()
	for _, r := range rs {
		b, err := r.MarshalMsgpack()
		if err != nil {
			panic(err)
		}
		_ = s.SaveState(r.TestFunction.FunctionIdent, b)
	}
	return s
}

func v06Compare(mult int, pre, post *TestResult) (int, int, TestReport) {
	same, diff, reps, err := (&DefaultTestResultAnalyzer{}).CompareTestResults(v06Store(pre), v06Store(post), mult)
	vAssert("comparison succeeds", err == nil)
	vAssert("one report for the test", len(reps) == 1)
	vAssert("totals are the sum of the reports", same == reps[0].SameFieldCount && diff == reps[0].DiffFieldCount)
	vObs("same", same)
	vObs("diff", diff)
	return same, diff, reps[0]
}

func v06T() MinimumTestFunction {
	return MinimumTestFunction{FunctionIdent: "p.Test", FunctionName: "Test"}
}

var v06Stack = []StackFrame{{File: "./a.go", Line: 1, Function: "f"}}

// v06Leaves lists the values of a tree's leaves under their paths.
func v06Leaves(fv FieldValues) map[string]string {
	out := map[string]string{}
	var walk func(path string, cur FieldValues)
	walk = func(path string, cur FieldValues) {
		for n, v := range cur {
			if len(v.Children) == 0 {
				out[path+n] = v.Value
			} else {
				walk(path+n+"\x00", v.Children)
			}
		}
	}
	walk("", fv)
	return out
}

const v06Shapes = v03Shapes + 4

// v06Shape adds trees with names containing dots or quotes, as keys of maps have.
func v06Shape(name string, k int) FieldValues {
	l := func(i string) *FieldValue { return v03LongLeaf(name + i) }
	node := func(fv FieldValues) *FieldValue { return &FieldValue{Children: fv} }
	switch k - v03Shapes {
	case 0:
		return FieldValues{"m": node(FieldValues{"a.b": l("1"), "a": node(FieldValues{"b": l("2")})})}
	case 1:
		return FieldValues{"m": node(FieldValues{"a.b": l("1"), "c.d": l("2")})}
	case 2:
		return FieldValues{"m": node(FieldValues{"\"a": node(FieldValues{"b\"": l("1")}), "a.b": l("2"), "": l("3")})}
	case 3:
		return FieldValues{"m": node(FieldValues{"a": node(FieldValues{"b": l("1"), "": l("2")})}), "n": l("3")}
	}
	return v03Shape(name, k)
}

// Every recorded field of a call is counted once: as the same exactly when the
// value is unchanged, as different otherwise; a change is attributed to its field.
//
//v:bounds one call before and after the update with any of 15 field tree shapes (depth up to 3, up to 3 leaves; some with names containing dots, quotes or nothing), symbolic leaf values
//v:quick 60
func VHCompareFields() {
	a := v06Shape("p", vChoose("a", v06Shapes))
	b := v06Shape("q", vChoose("b", v06Shapes))
	pre := &TestResult{TestFunction: v06T(), CallerResults: map[string][]CallFrame{"c": {{FieldValues: a, Stack: v06Stack}}}}
	post := &TestResult{TestFunction: v06T(), CallerResults: map[string][]CallFrame{"c": {{FieldValues: b, Stack: v06Stack}}}}
	same, diff, rep := v06Compare(10, pre, post)
	fa, fb := v06Leaves(a), v06Leaves(b)
	ns, nd, nc := 0, 0, 0
	for k, v := range fa {
		w, ok := fb[k]
		name := strings.ReplaceAll(k, "\x00", ".")
		plain := !strings.ContainsAny(k, ".\"")
		_, listed := rep.CallerFieldChanges["c"][name]
		if ok && v == w {
			ns++
			vAssert("an unchanged field is not listed as changed", !plain || !listed)
		} else {
			nd++
			if ok {
				nc++
				vAssert("a changed field is listed", !plain || listed)
			}
		}
	}
	vAssert("same fields counted exactly", same == ns)
	vAssert("different fields counted exactly", diff == nd)
	vAssert("only changed fields are listed", len(rep.CallerFieldChanges["c"]) == nc)
	if nd > 0 {
		vReach("difference")
	}
}

// Calls are matched by their path through project code and their order on it;
// a call that is gone counts every field it had as different.
//
//v:bounds 0..3 calls before, 0..3 after on one of 3 call paths (two alike in project code), one symbolic field value each, or none; a second caller seen only before or only after
//v:quick 60
func VHCompareCalls() {
	type call struct {
		key  int
		v    string
		bare bool
	}
	st := func(k int) []StackFrame {
		switch k {
		case 0:
			return []StackFrame{{File: "./a.go", Line: 1, Function: "f"}}
		case 1:
			return []StackFrame{{File: "./b.go", Line: 1, Function: "f"}}
		}
		return []StackFrame{{File: "lib/x.go", Line: 4, Function: "z"}, {File: "./a.go", Line: 8, Function: "f"}}
	}
	m := 3
	if vThorough() {
		m = 4
	}
	mk := func(n string) ([]call, []CallFrame) {
		var cs []call
		var fs []CallFrame
		for i := vChoose(n, m); i > 0; i-- {
			k := vChoose(n+".path", 4)
			if k == 3 { // no fields
				fs = append(fs, CallFrame{Stack: st(0)})
				cs = append(cs, call{bare: true})
				continue
			}
			v := vStr(n+".v", 1)
			fs = append(fs, CallFrame{FieldValues: FieldValues{"x": {Value: v}}, Stack: st(k)})
			cs = append(cs, call{k % 2, v, false})
		}
		return cs, fs
	}
	ca, fa := mk("pre")
	cb, fb := mk("post")
	pre := &TestResult{TestFunction: v06T(), CallerResults: map[string][]CallFrame{"c": fa}}
	post := &TestResult{TestFunction: v06T(), CallerResults: map[string][]CallFrame{"c": fb}}
	extra := 0
	if vBool("gone") {
		pre.CallerResults["gone"] = []CallFrame{{FieldValues: FieldValues{"x": {Value: "1"}, "y": {Value: "2"}}, Stack: v06Stack}}
		extra = 2
	}
	same, diff, _ := v06Compare(10, pre, post)
	ns, nd := 0, extra
	seen := map[int]int{}
	for _, a := range ca {
		occ := seen[a.key]
		seen[a.key]++
		k, hit := 0, false
		for _, b := range cb {
			if b.key == a.key {
				if k == occ {
					hit = !b.bare && a.v == b.v
				}
				k++
			}
		}
		if a.bare {
			continue
		} else if hit {
			ns++
		} else {
			nd++
		}
	}
	vAssert("same fields counted exactly", same == ns)
	vAssert("different fields counted exactly", diff == nd)
}

// Panics are compared as multisets, and a test that passed before and fails
// after the update is a regression; nothing else is.
//
//v:bounds 0..2 (thorough: 3) messages of 1 symbolic byte before and after, project or module panics, under the same or different functions, all failure flags
//v:quick 60
func VHComparePanics() {
	m := 3
	if vThorough() {
		m = 4
	}
	list := func(n string) []string {
		var l []string
		for i := vChoose(n, m); i > 0; i-- {
			l = append(l, vStr(n+".msg", 1))
		}
		return l
	}
	l1, l2 := list("pre"), list("post")
	key2 := "f"
	if vBool("elsewhere") {
		key2 = "g"
	}
	mk := func(k string, l []string) map[string][]string {
		if l == nil {
			return nil
		}
		return map[string][]string{k: l}
	}
	pre := &TestResult{TestFunction: v06T(), TestFailure: vBool("failpre")}
	post := &TestResult{TestFunction: v06T(), TestFailure: vBool("failpost")}
	if vBool("module") {
		pre.ModulePanics, post.ModulePanics = mk("f", l1), mk(key2, l2)
	} else {
		pre.ProjectPanics, post.ProjectPanics = mk("f", l1), mk(key2, l2)
	}
	same, diff, rep := v06Compare(10, pre, post)
	want := 0
	if key2 != "f" {
		want = len(l1) + len(l2)
	} else {
		used := make([]bool, len(l2))
		common := 0
		for _, x := range l1 {
			for j, y := range l2 {
				if !used[j] && x == y {
					used[j] = true
					common++
					break
				}
			}
		}
		want = len(l1) + len(l2) - 2*common
	}
	vAssert("panics never count as the same field", same == 0)
	vAssert("every panic added or removed is one difference", diff == want)
	reg := 0
	if !pre.TestFailure && post.TestFailure {
		reg = 1
	}
	vAssert("a regression is a test that passed before and fails after", rep.TestRegressionCount == reg)
	vAssert("the report keeps both outcomes", rep.OriginalResult.TestFailure == pre.TestFailure && rep.PostUpdateResult.TestFailure == post.TestFailure)
}

// A change of a call's duration is reported exactly when it exceeds the
// configured factor, in either direction.
//
//v:bounds one call at any time before and after the update, factors 1, 10, 100 (thorough: also 2, 3, 7, 64, 99; the configurable range is 1..100)
//v:assume field comparison disabled (no fields); an interval below 1 ms counts as 1 ms
//v:quick 60
func VHCompareTimes() {
	a, b := vU32("pre"), vU32("post")
	n := 3
	if vThorough() {
		n = 8
	}
	mult := []int{1, 10, 100, 2, 3, 7, 64, 99}[vChoose("factor", n)]
	an := v06Analyzer{pre: a, post: b}
	_, diff, rep := an.run(mult)
	vAssert("timing is not a field difference", diff == 0)
	_, reported := rep.CallerTimeChanges["c"]
	ma, mb := max(uint64(a), 1), max(uint64(b), 1)
	slower := ma*uint64(mult) < uint64(b)
	faster := mb*uint64(mult) < uint64(a)
	want := vAnd(a > 0, b > 0, vOr(slower, faster))
	vAssert("a time change is reported exactly when it exceeds the factor", reported == want)
	if reported {
		vReach("reported")
		tc := rep.CallerTimeChanges["c"]
		vAssert("the reported times are the measured ones", vAnd(tc.PreTimeMs == a, tc.PostTimeMs == b, tc.TimeDiff.Milliseconds() == int64(b)-int64(a)))
	}
}

type v06Analyzer struct{ pre, post uint32 }

func (v v06Analyzer) run(mult int) (int, int, TestReport) {
	pre := &TestResult{TestFunction: v06T(), CallerResults: map[string][]CallFrame{"c": {{Stack: v06Stack, TimeMillis: v.pre}}}}
	post := &TestResult{TestFunction: v06T(), CallerResults: map[string][]CallFrame{"c": {{Stack: v06Stack, TimeMillis: v.post}}}}
	return v06Compare(mult, pre, post)
}

// Over several calls of a caller, the intervals between consecutive calls are
// compared, and the reported change is one that exceeds the factor.
//
//v:bounds two calls before and after at ordered times with steps up to 32 ms, factors 1, 2, 10
//v:quick 60
func VHCompareIntervals() {
	t := func(n string) uint32 { return uint32(vU8(n)&31) + 1 }
	a1, b1 := t("a1"), t("b1")
	a2, b2 := a1+t("a2"), b1+t("b2")
	mult := []int{1, 2, 10}[vChoose("factor", 3)]
	pre := &TestResult{TestFunction: v06T(), CallerResults: map[string][]CallFrame{"c": {{Stack: v06Stack, TimeMillis: a1}, {Stack: v06Stack, TimeMillis: a2}}}}
	post := &TestResult{TestFunction: v06T(), CallerResults: map[string][]CallFrame{"c": {{Stack: v06Stack, TimeMillis: b1}, {Stack: v06Stack, TimeMillis: b2}}}}
	_, _, rep := v06Compare(mult, pre, post)
	ex := func(x, y uint32) bool {
		return vOr(max(uint64(x), 1)*uint64(mult) < uint64(y), max(uint64(y), 1)*uint64(mult) < uint64(x))
	}
	e1, e2 := ex(a1, b1), ex(a2-a1, b2-b1)
	tc, reported := rep.CallerTimeChanges["c"]
	vAssert("a time change is reported exactly when one exceeds the factor", reported == vOr(e1, e2))
	if reported {
		is1 := vAnd(e1, tc.PreTimeMs == a1, tc.PostTimeMs == b1)
		is2 := vAnd(e2, tc.PreTimeMs == a2-a1, tc.PostTimeMs == b2-b1)
		vAssert("the reported change is one that was measured", vOr(is1, is2))
		abs := func(x, y uint32) uint32 {
			if x < y {
				return y - x
			}
			return x - y
		}
		d1, d2, d := abs(a1, b1), abs(a2-a1, b2-b1), abs(tc.PreTimeMs, tc.PostTimeMs)
		vAssert("the reported change is the largest", vAnd(vImp(e1, d >= d1), vImp(e2, d >= d2)))
	}
}

// Calls that come in another order after the update are never told to take a
// time nothing was measured to take.
//
//v:bounds two calls on different paths at ordered times up to 64 ms, in the other order after the update, factors 1, 2, 10
//v:quick 60
func VHCompareReordered() {
	t := func(n string) uint32 { return uint32(vU8(n)&31) + 1 }
	a1, b1 := t("a1"), t("b1")
	a2, b2 := a1+t("a2"), b1+t("b2")
	mult := []int{1, 2, 10}[vChoose("factor", 3)]
	other := []StackFrame{{File: "./b.go", Line: 1, Function: "f"}}
	pre := &TestResult{TestFunction: v06T(), CallerResults: map[string][]CallFrame{"c": {{Stack: v06Stack, TimeMillis: a1}, {Stack: other, TimeMillis: a2}}}}
	post := &TestResult{TestFunction: v06T(), CallerResults: map[string][]CallFrame{"c": {{Stack: other, TimeMillis: b1}, {Stack: v06Stack, TimeMillis: b2}}}}
	_, diff, rep := v06Compare(mult, pre, post)
	vAssert("the order alone is not a field difference", diff == 0)
	if tc, reported := rep.CallerTimeChanges["c"]; reported {
		vReach("reported")
		vAssert("no time is longer than what was measured", vAnd(tc.PreTimeMs <= a2, tc.PostTimeMs <= b2))
		vAssert("the change is the difference of the times", tc.TimeDiff.Milliseconds() == int64(tc.PostTimeMs)-int64(tc.PreTimeMs))
	}
}

// Every test recorded both before and after the update is reported once, and
// no other test is.
//
//v:bounds any assignment of 3 tests to before, after, both or neither; any map order of the store
//v:quick 60
func VHCompareTests() {
	var a, b []*TestResult
	both := 0
	names := []string{"p.A", "p.B", "p.C"}
	for _, n := range names {
		k := vChoose("where", 4)
		r := func() *TestResult {
			return &TestResult{TestFunction: MinimumTestFunction{FunctionIdent: n, FunctionName: n}, CallerResults: map[string][]CallFrame{"c": {{FieldValues: FieldValues{"x": {Value: "v" + n}}, Stack: v06Stack}}}}
		}
		if k&1 != 0 {
			a = append(a, r())
		}
		if k&2 != 0 {
			b = append(b, r())
		}
		if k == 3 {
			both++
		}
	}
	vMapOrder(vThorough())
	same, diff, reps, err := (&DefaultTestResultAnalyzer{}).CompareTestResults(v06Store(a...), v06Store(b...), 10)
	vMapOrder(false)
	vAssert("comparison succeeds", err == nil)
	vAssert("one report per test seen before and after", len(reps) == both)
	vAssert("identical results have no difference", diff == 0 && same == both)
	last := ""
	for _, r := range reps {
		id := r.OriginalResult.TestFunction.FunctionIdent
		vAssert("reports name their test, in order", id > last && r.PostUpdateResult.TestFunction.FunctionIdent == id)
		last = id
	}
}
