package lens

import (
	"encoding/json"
	"errors"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/go-analyze/charts"
)

//v:use lib_fs.go

var v24Run time.Duration

func vstub_time__Since(t time.Time) time.Duration { return v24Run }

// The data a value has in JSON, by the documented rules of encoding/json.
func v24Data(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return float64(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return float64(v.Uint())
	case reflect.Float64:
		return v.Float()
	case reflect.String:
		return v.String()
	case reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return v24Data(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		out := make([]any, v.Len())
		for i := range out {
			out[i] = v24Data(v.Index(i))
		}
		return out
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		out := map[string]any{}
		for _, k := range v.MapKeys() {
			out[k.String()] = v24Data(v.MapIndex(k))
		}
		return out
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			return "time " + strconv.FormatInt(t.Unix(), 10)
		}
		out := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			name := v.Type().Field(i).Tag.Get("json")
			vAssume(name != "" && name != "-" && !strings.Contains(name, ","))
			out[name] = v24Data(v.Field(i))
		}
		return out
	}
	panic("kind")
}

var v24Docs []any

func v24Doc(v any) []byte {
	v24Docs = append(v24Docs, v24Data(reflect.ValueOf(v)))
	return []byte("doc" + strconv.Itoa(len(v24Docs)-1))
}

func vstub_encoding_S_json__Marshal(v any) ([]byte, error) {
	if !vSymbolic() {
		return json.Marshal(v)
	}
	return v24Doc(v), nil
}

func vstub_encoding_S_json__MarshalIndent(v any, prefix, indent string) ([]byte, error) {
	if !vSymbolic() {
		return json.MarshalIndent(v, prefix, indent)
	}
	return v24Doc(v), nil
}

func vstub_encoding_S_json__Unmarshal(b []byte, v any) error {
	if !vSymbolic() {
		return json.Unmarshal(b, v)
	}
	i, err := strconv.Atoi(strings.TrimPrefix(string(b), "doc"))
	m, ok := v24Docs[i].(map[string]any)
	if err != nil || !ok {
		return errors.New("no document")
	}
	switch p := v.(type) {
	case *ReportMap:
		*p = ReportMap(m)
	case *map[string]any:
		*p = m
	default:
		return errors.New("unknown target")
	}
	return nil
}

func v24Digit(name string) int { return vIntRange(name, 0, 9) }

func v24Sorted(got []string, want map[string]bool, all []string) bool {
	n := 0
	for _, w := range all {
		if want[w] {
			if n >= len(got) || got[n] != w {
				return false
			}
			n++
		}
	}
	return n == len(got)
}

type v24In struct {
	callers []*CallerFunction
	tests   []*TestFunction
	results []TestReport
	reach   map[string]bool
	called  map[string]bool
	name    map[string]string
	gen     int
	swap    bool
	other   bool // the second test has another name, earlier in the order
}

// v24Input makes two tests, up to two callers, each calling some of two
// changed functions, and field and time changes.
func v24Input() *v24In {
	in := &v24In{name: map[string]string{}, reach: map[string]bool{}, called: map[string]bool{}}
	fns := []*ModuleFunction{{Function: Function{FunctionIdent: "m:A"}}, {Function: Function{FunctionIdent: "m:B"}}}
	nc := vChoose("callers", 3)
	for i := 0; i < nc; i++ {
		c := &CallerFunction{Function: Function{FunctionIdent: []string{"w:y", "w:x"}[i]}}
		if i == 1 && vBool("same caller") {
			c.FunctionIdent = "w:y"
		}
		in.called[c.FunctionIdent] = true
		for k := 0; k < 2; k++ {
			if vBool("calls") {
				c.ChangeFunctions = append(c.ChangeFunctions, fns[1-k])
				in.reach[fns[1-k].FunctionIdent] = true
			}
		}
		in.callers = append(in.callers, c)
	}
	in.swap, in.other = vBool("swap"), vBool("other name")
	for i := 0; i < 2; i++ {
		k := i
		if in.swap {
			k = 1 - i
		}
		name := "TestB"
		if k == 1 && in.other {
			name = "TestA"
		}
		if k == 1 && vBool("generated") {
			name = GeneratedTestFunctionPrefix + "B"
			in.gen++
		}
		ident := "w:t" + string([]byte{'0' + byte(k)})
		in.name[ident] = name
		in.tests = append(in.tests, &TestFunction{Function: Function{FunctionIdent: ident, FunctionName: name}})
	}
	return in
}

// The figures of a report.
//
//v:bounds up to 2 (different or the same) callers of up to 2 changed functions, 2 tests of the same name or not in any order, each with failures before and after, up to 2 callers with time changes and a field change, symbolic figures; every iteration order of the maps
//v:quick 60
//v:thorough 200
func VHReportData() {
	in := v24Input()
	vMapOrder(true)
	type exp struct {
		before, after bool
		diff, hit     int
		pre, post     int
		t1, t2        bool
		field         bool
	}
	want := map[string]exp{}
	for _, t := range in.tests {
		e := exp{before: vBool("before"), after: vBool("after"), diff: v24Digit("diff"), hit: v24Digit("hit"), pre: v24Digit("pre"), post: v24Digit("post")}
		if t == in.tests[0] {
			e.t1, e.t2, e.field = vBool("time 1"), vBool("time 2"), vBool("field")
		}
		want[t.FunctionIdent] = e
		r := TestReport{OriginalResult: TestResult{TestFunction: t.Minimum(), TestFailure: e.before, ModuleChangesHit: e.hit},
			PostUpdateResult: TestResult{TestFunction: t.Minimum(), TestFailure: e.after}, DiffFieldCount: e.diff,
			CallerTimeChanges: map[string]PerformanceTimeChange{}, CallerFieldChanges: map[string]map[string]string{}}
		ptc := PerformanceTimeChange{TimeDiff: time.Duration(e.post-e.pre) * time.Millisecond, PreTimeMs: uint32(e.pre), PostTimeMs: uint32(e.post)}
		if e.t1 {
			r.CallerTimeChanges["w:x"] = ptc
		}
		if e.t2 {
			r.CallerTimeChanges["w:y"] = ptc
		}
		if e.field {
			r.CallerFieldChanges["w:x"] = map[string]string{"f": "\t-1\n+2\n", "g": "-a"}
		}
		in.results = append(in.results, r)
	}
	mods := []*ModuleChange{{Name: "m", PriorVersion: "v1", NewVersion: "v2", Indirect: vBool("indirect")}}
	reach, called, tests, perf, details, root, gen := PrepareReportData(mods, in.callers, in.tests, in.results, 2)
	vAssert("the changed functions reached are listed once, in order", v24Sorted(reach, in.reach, []string{"m:A", "m:B"}))
	vAssert("the callers are listed once, in order", v24Sorted(called, in.called, []string{"w:x", "w:y"}))
	vAssert("the tests are listed in order", len(tests) == 2 && tests[0] == "w:t0" && tests[1] == "w:t1")
	vAssert("generated tests are counted", gen == in.gen)
	vAssert("a single changed module is the root", root == *mods[0])
	ok := len(details) == 2
	vAssert("every test has one entry", ok)
	if !ok {
		return
	}
	k := 0
	for i, d := range details {
		e := want["w:t"+string([]byte{'0' + byte(i)})]
		vAssert("tests are reported in order", d.TestFunctionIdent == "w:t"+string([]byte{'0' + byte(i)}) && in.name[d.TestFunctionIdent] == d.TestFunctionName)
		vAssert("a test's failures are told", d.BaselineFailure == e.before && d.PassRegression == (!e.before && e.after))
		vAssert("a test's figures are told", d.DiffFieldCount == e.diff && d.ModuleChangeHitCount == e.hit)
		if e.field {
			vAssert("field changes are told", len(d.FieldChanges) == 1 && len(d.FieldChanges["w:x"]) == 2 && d.FieldChanges["w:x"]["f"] == "-1\n+2" && d.FieldChanges["w:x"]["g"] == "-a")
		} else {
			vAssert("no field changes are told without any", len(d.FieldChanges) == 0)
		}
		for j, c := range []string{"w:x", "w:y"} {
			if j == 0 && e.t1 || j == 1 && e.t2 {
				p := PerformanceChange{}
				if k < len(perf) {
					p = perf[k]
				}
				k++
				vAssert("time changes are told, in order", p.CallerIdent == c && p.TestFunctionIdent == d.TestFunctionIdent && p.TestFunctionName == d.TestFunctionName &&
					p.TimeDiffMs == int64(e.post-e.pre) && p.PreTimeMs == uint32(e.pre) && p.PostTimeMs == uint32(e.post))
			}
		}
	}
	vAssert("no other time changes are told", k == len(perf))
}

// The root module is the only one updated, or the only one updated directly.
//
//v:bounds up to 3 (thorough: 4) modules, direct or indirect
func VHRoot() {
	max := 3
	if vThorough() {
		max = 4
	}
	var ms []*ModuleChange
	direct := -1
	many := false
	n := vChoose("modules", max+1)
	for i := 0; i < n; i++ {
		m := &ModuleChange{Name: "m" + string([]byte{'0' + byte(i)}), PriorVersion: "v1", NewVersion: "v2", Indirect: vBool("indirect")}
		ms = append(ms, m)
		if !m.Indirect || n == 1 {
			many = direct >= 0
			if direct >= 0 {
				direct = 99
			} else {
				direct = i
			}
		}
	}
	_ = many
	want := ModuleChange{}
	if direct >= 0 && direct < n {
		want = *ms[direct]
	}
	vAssert("the root module is the one asked for, if it is unique", rootModule(ms) == want)
}

// The report file tells the figures under their documented names.
//
//v:bounds each figure symbolic in 0..9, lists of up to 2 entries; one failing write
//v:assume encoding/json writes and reads what its documentation says (the native replay uses the real one)
//v:quick 60
//v:thorough 200
func VHReportFile() {
	d := vNewFS(map[string]string{"/o/x": ""})
	names := []string{"changed_function_count", "untracked_module_function_count", "project_field_check_point_count", "module_change_hit_in_test_count",
		"test_field_match_count", "test_field_diff_count", "generated_test_function_count", "mutation_count", "mutations_squashed"}
	v := make([]int, len(names))
	sym := vChoose("symbolic", len(names))
	for i := range v {
		v[i] = i + 1
	}
	v[sym] = v24Digit("figure")
	ms := func(n int) time.Duration { return time.Duration(n)*time.Millisecond + 400*time.Microsecond }
	v24Run = ms(50)
	nl := vChoose("list", 3)
	list := []string{"b", "a"}[:nl]
	perf := []PerformanceChange{{TestFunctionIdent: "w:t", TestFunctionName: "T", CallerIdent: "w:c", TimeDiffMs: -3, PreTimeMs: 5, PostTimeMs: 2}}[:min(nl, 1)]
	details := []TestDetail{{TestFunctionIdent: "w:t", TestFunctionName: "T", PassRegression: vBool("regression"), BaselineFailure: vBool("baseline"), DiffFieldCount: v[5],
		ModuleChangeHitCount: 6, FieldChanges: map[string]map[string]string{"w:c": {"f<": "-1\n+\"2\""}}}}[:min(nl, 1)]
	d.budget = vChoose("faults", 2)
	path := []string{"/o/r.json", ""}[vChoose("path", 2)]
	err := writeReportJSON(path, time.Unix(1000, 0).UTC(), ms(11), ms(12), ms(13), ms(14), "m", "v1", "v2", list, v[0], v[3], v[1],
		list, list, v[2], list, v[4], v[5], v[6], MutationResult{MutationCount: v[7], SquashedCount: v[8]}, perf, details)
	vAssert("an error is returned exactly when the report could not be written", (err != nil) == (d.faults > 0))
	if err != nil {
		return
	}
	if path == "" {
		vAssert("without a path nothing is written", len(d.snapshot()) == 3)
		return
	}
	var m map[string]any
	vAssert("the report is valid", vstub_encoding_S_json__Unmarshal([]byte(d.nodes["/o/r.json"].data), &m) == nil)
	mod, _ := m["module"].(map[string]any)
	val, _ := m["validation"].(map[string]any)
	for i, n := range names {
		x, ok := val[n]
		if i < 2 {
			x, ok = mod[n]
		}
		f, isf := x.(float64)
		vAssert("every figure is told under its name", ok && isf && f == float64(v[i]))
	}
	for i, n := range []string{"analysis_ms", "test_discovery_ms", "field_check_ms", "mutation_ms"} {
		vAssert("times are told", m[n] == any(float64(11+i)))
	}
	vAssert("the whole run's time is told", m["run_ms"] == any(float64(50)) && m["generated_at"] == any(map[bool]string{true: "time 1000", false: "1970-01-01T00:16:40Z"}[vSymbolic()]))
	vAssert("the update is told", mod["root_module_name"] == any("m") && mod["root_module_start_version"] == any("v1") && mod["root_module_update_version"] == any("v2"))
	lists := func(of map[string]any, name, count string) bool {
		l, _ := of[name].([]any)
		ok := len(l) == nl && of[count] == any(float64(nl))
		for i := range list {
			ok = ok && i < len(l) && l[i] == any(list[i])
		}
		return ok
	}
	vAssert("lists are told with their counts", lists(mod, "changed_modules", "changed_module_count") && lists(mod, "reachable_changed_functions", "reachable_changed_function_count") &&
		lists(val, "relevant_project_functions", "relevant_project_function_count") && lists(val, "relevant_test_functions", "relevant_test_function_count"))
	pc, _ := val["performance_changes"].([]any)
	td, _ := val["test_details"].([]any)
	ok := len(pc) == len(perf) && len(td) == len(details)
	vAssert("changes and tests are told", ok)
	if ok && len(perf) > 0 {
		p, _ := pc[0].(map[string]any)
		t, _ := td[0].(map[string]any)
		vAssert("time changes are told in full", p["test_function_ident"] == any("w:t") && p["test_function_name"] == any("T") && p["caller_ident"] == any("w:c") &&
			p["time_diff_ms"] == any(float64(-3)) && p["pre_time_ms"] == any(float64(5)) && p["post_time_ms"] == any(float64(2)))
		fc, _ := t["field_changes"].(map[string]any)
		c, _ := fc["w:c"].(map[string]any)
		vAssert("tests are told in full", t["test_function_ident"] == any("w:t") && t["test_function_name"] == any("T") && t["pass_regression"] == any(details[0].PassRegression) &&
			t["baseline_failure"] == any(details[0].BaselineFailure) && t["diff_field_count"] == any(float64(v[5])) && t["module_change_hit_count"] == any(float64(6)) &&
			len(fc) == 1 && len(c) == 1 && c["f<"] == any("-1\n+\"2\""))
	}
}

// Functions of modules that are too old are skipped and counted.
//
//v:bounds up to 3 functions of two modules, each of a Go version below the minimum, at it, above it or unknown; functions without module; every iteration order
func VHFilter() {
	vMapOrder(true)
	mods := []*ModuleChange{{Name: "m0"}, {Name: "m1"}}
	old := [3]bool{}
	for i, m := range mods {
		k := vChoose("version", 4)
		m.GoVersion = []string{"1.12", MinGoVersion, "1.21", ""}[k]
		old[i] = k == 0
	}
	mods = append(mods, nil)
	in := ReachableModuleChange{}
	want, skipped := 0, 0
	for i := 0; i < 3; i++ {
		if !vBool("function") {
			continue
		}
		k := vChoose("module", 3)
		id := "f" + string([]byte{'0' + byte(i)})
		in[id] = &ModuleFunction{Function: Function{FunctionIdent: id}, Module: mods[k]}
		if old[k] {
			skipped++
		} else {
			want++
		}
	}
	got, n := FilterModulesByGoVersion(in)
	vAssert("exactly the functions of old modules are skipped", n == skipped && len(got) == want)
	seen := map[string]bool{}
	for _, f := range got {
		vAssert("the others are kept, once each", in[f.FunctionIdent] == f && !seen[f.FunctionIdent] && (f.Module == nil || f.Module.GoVersion != "1.12"))
		seen[f.FunctionIdent] = true
	}
}

func vstub_lens__renderReportCharts(painterOpt charts.PainterOptions, moduleName, startVersion, changeVersion string,
	moduleChangeFuncCount, reachableModuleFunctionCount, moduleChangesReachedInTesting, untrackedModuleFuncs,
	testFieldSameCount, testFieldDiffCount int, testResults []TestReport,
	globalMutations MutationResult) ([]byte, error) {
	if v24Chart == nil {
		return nil, errors.New("no chart")
	}
	return v24Chart(painterOpt.OutputFormat, []string{moduleName, startVersion, changeVersion},
		[]int{moduleChangeFuncCount, reachableModuleFunctionCount, moduleChangesReachedInTesting, untrackedModuleFuncs, testFieldSameCount, testFieldDiffCount, globalMutations.MutationCount, globalMutations.SquashedCount}, testResults)
}

var v24Chart func(format string, names []string, figures []int, results []TestReport) ([]byte, error)

// Both files are written where they are asked for, and their figures agree.
//
//v:bounds every combination of no, valid and unknown paths; up to 2 callers of up to 2 changed functions, 2 tests; symbolic figures; one failing write or a failing rendering
//v:assume the charts library draws what it is given
//v:quick 60
//v:thorough 200
func VHReportFiles() {
	d := vNewFS(map[string]string{"/o/x": ""})
	in := v24Input()
	for _, t := range in.tests {
		in.results = append(in.results, TestReport{OriginalResult: TestResult{TestFunction: t.Minimum()}, PostUpdateResult: TestResult{TestFunction: t.Minimum()}})
	}
	jp := []string{"", "/o/r.json"}[vChoose("json", 2)]
	ck := vChoose("charts", 6)
	cp := []string{"", "/o/r.png", "/o/r.jpg", "/o/r.jpeg", "/o/r.svg", "/o/r.txt"}[ck]
	n := v24Digit("figure")
	fail := vBool("rendering fails")
	var figs []int
	var names []string
	var format string
	drawn := 0
	v24Chart = func(f string, ns []string, fs []int, rs []TestReport) ([]byte, error) {
		format, names, figs = f, ns, fs
		drawn++
		if fail {
			return nil, errors.New("cannot draw")
		}
		return []byte("chart"), nil
	}
	d.budget = vChoose("faults", 2)
	err := (&DefaultReportWriter{}).WriteReportFiles(jp, cp, time.Unix(1000, 0).UTC(), 1, 2, 3, 4,
		[]*ModuleChange{{Name: "m", PriorVersion: "v1", NewVersion: "v2"}}, []string{"m"}, n, 2, 3, 4, in.callers, in.tests, 5, 6, in.results, MutationResult{MutationCount: 7, SquashedCount: n})
	bad := d.faults > 0 || ck == 5 || fail && ck != 0
	vAssert("an error is returned exactly when a file asked for could not be written", (err != nil) == bad)
	if err != nil {
		return
	}
	js, hasJSON := d.nodes["/o/r.json"]
	vAssert("the JSON report is written when asked for", hasJSON == (jp != ""))
	if ck == 0 {
		vAssert("no chart is drawn without a path", drawn == 0 && len(d.snapshot()) == 3+map[bool]int{true: 1}[hasJSON])
		return
	}
	c, ok := d.nodes[cp]
	vAssert("the chart is written in the format of its path", ok && string(c.data) == "chart" && format == []string{"", "png", "jpg", "jpg", "svg"}[ck])
	vAssert("the chart tells the update", len(names) == 3 && names[0] == "m" && names[1] == "v1" && names[2] == "v2")
	for i, w := range []int{n, len(in.reach), 2, 3, 5, 6, 7, n} {
		vAssert("the chart tells the figures", len(figs) == 8 && figs[i] == w)
	}
	if hasJSON {
		var m map[string]any
		vAssert("the report is valid", vstub_encoding_S_json__Unmarshal([]byte(js.data), &m) == nil)
		mod, _ := m["module"].(map[string]any)
		val, _ := m["validation"].(map[string]any)
		vAssert("the JSON report tells the same figures", mod["changed_function_count"] == any(float64(n)) && mod["reachable_changed_function_count"] == any(float64(len(in.reach))) &&
			mod["untracked_module_function_count"] == any(float64(3)) && val["project_field_check_point_count"] == any(float64(4)) && val["module_change_hit_in_test_count"] == any(float64(2)) &&
			val["test_field_match_count"] == any(float64(5)) && val["test_field_diff_count"] == any(float64(6)) && val["mutation_count"] == any(float64(7)) && val["mutations_squashed"] == any(float64(n)) &&
			val["relevant_project_function_count"] == any(float64(len(in.called))) && val["relevant_test_function_count"] == any(float64(2)) && val["generated_test_function_count"] == any(float64(in.gen)))
	}
}
