package lens

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
)

//v:use lib_fs.go
//v:use lib_exec.go

// The clock moves only when a step takes time.
var v20Clock time.Duration

func vstub_time__Now() time.Time { return time.Unix(1000, 0).Add(v20Clock) }

func vstub_path_S_filepath__Abs(p string) (string, error) { return p, nil }

type v20Step int

const (
	v20Change v20Step = iota
	v20Callers
	v20Tests
	v20Store
	v20Update
	v20Mutate
	v20Compare
	v20Report
	v20None
)

var v20Names = []string{"example.com/m0", "example.com/m1"}

var errV20 = errors.New("step failed")

// v20Run stands in for all providers: it records what it is given.
type v20Run struct {
	fail    v20Step
	done    []v20Step
	cleaned [8]int
	open    int
	closed  int
	after   bool // something happened after a clean up
	ended   bool
	cfg     Config
	tmpOK   bool

	transitive          bool
	radius              int
	changed             []*ModuleChange
	funcs               map[string][]*ModuleFunction
	flat                []*ModuleFunction
	callers             []*CallerFunction
	reachable           ReachableModuleChange
	tests               []*TestFunction
	store               *v20Storage
	pre, post           Storage
	checks, hit, skip   int
	same, diff          int
	reports             []TestReport
	mut                 MutationResult
	fast, lines, target bool
	hint                string // module version that is not on disk
	gotPassed           bool   // every step got the results of the ones before

	reportCount int
	rep         struct {
		json, charts                 string
		start                        time.Time
		analysis, disc, exec, mutate time.Duration
		changed                      []*ModuleChange
		checked                      []string
		count, hit, skip, checks     int
		callers                      []*CallerFunction
		tests                        []*TestFunction
		same, diff                   int
		reports                      []TestReport
		mut                          MutationResult
	}
}

func (r *v20Run) step(s v20Step, cfg Config, took time.Duration) error {
	r.done = append(r.done, s)
	if r.ended {
		r.after = true
	}
	v20Clock += took
	if s != v20Store && s != v20Compare && s != v20Report {
		if cfg.TmpCopy {
			n := vDisk.get(cfg.AbsProjDir + "/go.mod")
			r.tmpOK = r.tmpOK && strings.HasPrefix(cfg.AbsProjDir, "/tmp/") && n != nil && strings.HasPrefix(cfg.Gopath, "/tmp/") && strings.HasPrefix(cfg.Gomodcache, "/tmp/")
		} else {
			r.tmpOK = r.tmpOK && cfg.AbsProjDir == "/w"
		}
	}
	if r.fail == v20None && vBool("fails") {
		r.fail = s
		return errV20
	}
	return nil
}

func (r *v20Run) clean(s v20Step) {
	r.ended = true
	r.cleaned[s]++
}

type v20Storage struct {
	Storage
	r *v20Run
}

func (s *v20Storage) Close() { s.r.closed++; s.r.ended = true }

type v20P1 struct{ *v20Run }
type v20P2 struct{ *v20Run }
type v20P3 struct{ *v20Run }
type v20P4 struct{ *v20Run }
type v20P5 struct{ *v20Run }

func (r v20P1) Cleanup() { r.clean(v20Change) }
func (r v20P2) Cleanup() { r.clean(v20Callers) }
func (r v20P3) Cleanup() { r.clean(v20Tests) }
func (r v20P4) Cleanup() { r.clean(v20Update) }
func (r v20P5) Cleanup() { r.clean(v20Mutate) }

func (r v20P1) AnalyzeModuleChanges(c Config, transitive bool, changed []*ModuleChange, radius int) (map[string][]*ModuleFunction, map[string][]*packages.Package, error) {
	r.transitive, r.radius, r.changed = transitive, radius, changed
	if err := r.step(v20Change, c, 1*time.Millisecond); err != nil {
		if k := vChoose("missing version", 1+2*len(changed)); k > 0 {
			m := changed[(k-1)/2]
			r.hint = m.Name + "@" + []string{m.PriorVersion, m.NewVersion}[(k-1)%2]
			err = fmt.Errorf("failed to stat /go/pkg/mod/%s: no such file or directory", r.hint)
		}
		return nil, nil, err
	}
	r.funcs = map[string][]*ModuleFunction{}
	r.reachable = ReachableModuleChange{}
	nf := vChoose("functions", 3)
	names := v20Names
	for i := 0; i < nf; i++ {
		f := &ModuleFunction{Function: Function{FunctionIdent: names[1-i%2] + ":F"}}
		r.funcs[names[1-i%2]] = append(r.funcs[names[1-i%2]], f)
		r.reachable[f.FunctionIdent] = f
	}
	if nf == 0 {
		r.funcs[names[0]] = nil
	}
	for _, n := range names {
		r.flat = append(r.flat, r.funcs[n]...)
	}
	return r.funcs, nil, nil
}

func (r v20P2) PerformCallerStaticAnalysis(c Config, fs []*ModuleFunction) ([]*CallerFunction, ReachableModuleChange, error) {
	r.gotPassed = r.gotPassed && len(fs) == len(r.flat)
	for i := range fs {
		r.gotPassed = r.gotPassed && i < len(r.flat) && fs[i] == r.flat[i]
	}
	if err := r.step(v20Callers, c, 10*time.Millisecond); err != nil {
		return nil, nil, err
	}
	if vBool("callers") {
		r.callers = []*CallerFunction{{Function: Function{FunctionIdent: "w:c"}}}
	}
	return r.callers, r.reachable, nil
}

func (r v20P3) ProvideTests(c Config, cs []*CallerFunction) ([]*TestFunction, error) {
	r.gotPassed = r.gotPassed && v20SameCallers(cs, r.callers)
	if err := r.step(v20Tests, c, 100*time.Millisecond); err != nil {
		return nil, err
	}
	if vBool("have tests") {
		r.tests = []*TestFunction{{Function: Function{FunctionIdent: "w:t"}}}
	}
	return r.tests, nil
}

func v20SameCallers(a, b []*CallerFunction) bool {
	ok := len(a) == len(b)
	for i := range a {
		ok = ok && a[i] == b[i]
	}
	return ok
}

func v20SameTests(a, b []*TestFunction) bool {
	ok := len(a) == len(b)
	for i := range a {
		ok = ok && a[i] == b[i]
	}
	return ok
}

func (r *v20Run) NewStorage() (Storage, error) {
	if err := r.step(v20Store, r.cfg, 0); err != nil {
		return nil, err
	}
	r.open++
	return r.store, nil
}

func (r v20P4) RunModuleUpdateAnalysis(c Config, st Storage, changed []*ModuleChange, reach ReachableModuleChange, cs []*CallerFunction, ts []*TestFunction) (int, int, int, Storage, Storage, error) {
	r.gotPassed = r.gotPassed && st == Storage(r.store) && len(changed) == len(r.changed) && len(reach) == len(r.reachable) && v20SameCallers(cs, r.callers) && v20SameTests(ts, r.tests)
	if err := r.step(v20Update, c, 1000*time.Millisecond); err != nil {
		return 0, 0, 0, nil, nil, err
	}
	return r.checks, r.hit, r.skip, r.pre, r.post, nil
}

func (r v20P5) RunMutationTesting(c Config, fast, lines, targeted bool, fs []*ModuleFunction, ts []*TestFunction) (MutationResult, error) {
	r.fast, r.lines, r.target = fast, lines, targeted
	r.gotPassed = r.gotPassed && len(fs) == len(r.flat) && v20SameTests(ts, r.tests)
	if err := r.step(v20Mutate, c, 10000*time.Millisecond); err != nil {
		return MutationResult{}, err
	}
	return r.mut, nil
}

func (r *v20Run) CompareTestResults(pre, post Storage, mult int) (int, int, []TestReport, error) {
	r.gotPassed = r.gotPassed && pre == r.pre && post == r.post && mult == 3 && r.closed == 0
	if err := r.step(v20Compare, r.cfg, 0); err != nil {
		return 0, 0, nil, err
	}
	return r.same, r.diff, r.reports, nil
}

func (r *v20Run) WriteReportFiles(json, charts string, start time.Time, analysis, disc, exec, mutate time.Duration,
	changed []*ModuleChange, checked []string, count, hit, skip int, checks int, cs []*CallerFunction, ts []*TestFunction,
	same, diff int, reports []TestReport, mut MutationResult) error {
	p := &r.rep
	p.json, p.charts, p.start, p.analysis, p.disc, p.exec, p.mutate = json, charts, start, analysis, disc, exec, mutate
	p.changed, p.checked, p.count, p.hit, p.skip, p.checks = changed, checked, count, hit, skip, checks
	p.callers, p.tests, p.same, p.diff, p.reports, p.mut = cs, ts, same, diff, reports, mut
	r.reportCount++
	return r.step(v20Report, r.cfg, 0)
}

// An analysis goes through its steps in order, passes on what they found,
// writes one report of it and cleans up, whichever step fails.
//
//v:bounds one or two updated modules (asked for by name, perhaps with one the project does not use, or by an updated go.mod) with 0..2 changed functions, 0 or 1 callers and tests, any counts 0..9, every mutation setting, with and without temporary copy; any one step failing
//v:quick 60
//v:thorough 200
func VHRun() {
	v20Clock = 0
	files := map[string]string{"/w/go.mod": "module w\n\nrequire example.com/m0 v1.0.0\n\nrequire example.com/m1 v1.1.0 // indirect\n",
		"/u/go.mod": "module w\n\nrequire example.com/m0 v1.2.0\n\nrequire example.com/m1 v1.1.0 // indirect\n", "/go/pkg/mod/x": "x", "/out/x": ""}
	d := vNewFS(files)
	d.mkdirs("/tmp")
	r := &v20Run{fail: v20None, tmpOK: true, gotPassed: true}
	r.store = &v20Storage{NewMemStorage(), r}
	r.pre, r.post = KeyPrefixStorage(r.store, "a"), KeyPrefixStorage(r.store, "b")
	cfg := &Config{ProjectDir: "/w", ReportJsonFile: "/out/r.json", ReportChartsFile: "/out/r.png", Gopath: "/go", Gomodcache: "/go/pkg/mod",
		AstMonitorPort: 4444, MaxFieldRecurse: 5, MaxFieldLen: 100, CacheMB: 5, TimeMultiplier: 3}
	cfg.MutationScope = []string{"function", "line", "area", "none"}[vChoose("scope", 4)]
	cfg.MutationMode = []string{"full", "fast"}[vChoose("mode", 2)]
	cfg.MutationTests = []string{"full", "targeted"}[vChoose("tests", 2)]
	cfg.TmpCopy = vBool("copy")
	missing := false
	switch vChoose("flag", 4) {
	case 0:
		cfg.ModuleVersionFlag = "example.com/m0@v1.2.0"
	case 1:
		cfg.ModulesVersionFlag = "example.com/m1@v1.3.0, example.com/other@v1.0.0, example.com/m0@v1.2.0"
	case 2:
		cfg.ModuleVersionFlag = "example.com/other@v1.2.0"
		missing = true
	case 3:
		cfg.UpdatedGoModFile = "/u/go.mod"
	}
	count := func(n string) int { return vIntRange(n, 0, 9) }
	r.checks, r.hit, r.skip, r.same, r.diff = count("checks"), count("hit"), count("skip"), count("same"), count("diff")
	r.reports = []TestReport{{SameFieldCount: r.same}}
	r.mut = MutationResult{MutationCount: count("mutations"), SquashedCount: count("squashed")}

	before := d.snapshot()
	e := NewAnalysisEngineWithProviders(cfg, v20P1{r}, v20P2{r}, v20P3{r}, v20P4{r}, v20P5{r}, r, r, r)
	r.cfg = Config{}
	err := e.Run()

	// expected course
	var want []v20Step
	mutating := cfg.MutationScope != "none"
	stop := v20None
	for s := v20Change; s < v20None; s++ {
		if missing || s == v20Mutate && !mutating {
			continue
		}
		if stop != v20None && s != v20Report {
			continue
		}
		want = append(want, s)
		if s == r.fail {
			break
		}
		if s == v20Change && len(r.flat) == 0 || s == v20Callers && len(r.callers) == 0 || s == v20Tests && len(r.tests) == 0 {
			stop = s
		}
	}
	ok := len(want) == len(r.done)
	for i := range want {
		ok = ok && i < len(r.done) && want[i] == r.done[i]
	}
	vAssert("the steps are taken in order, up to the first that fails", ok)
	failed := len(want) > 0 && want[len(want)-1] == r.fail
	vAssert("an error is returned exactly when a step failed", (err != nil) == failed)
	if !ok {
		return
	}
	if err != nil {
		if r.hint == "" {
			vAssert("the error is the step's", errors.Is(err, errV20))
		} else {
			vAssert("the error tells the module version missing on disk", strings.Contains(err.Error(), r.hint))
		}
	}
	vAssert("every step gets what the ones before found", r.gotPassed)
	vAssert("the steps work on the right files", r.tmpOK)
	for _, s := range []v20Step{v20Change, v20Callers, v20Tests, v20Update, v20Mutate} {
		n := 0
		for _, w := range want {
			if w == s && s != r.fail {
				n++
			}
		}
		vAssert("every step that was taken is cleaned up once", r.cleaned[s] == n || s == r.fail && r.cleaned[s] <= 1)
	}
	vAssert("clean up comes last", !r.after)
	vAssert("the store is closed once, if opened", r.open == r.closed)
	vAssert("no files are left behind or lost", vSameFiles(before, d.snapshot()))
	if missing {
		return
	}
	names := v20Names
	vAssert("the update asked for is analysed", len(r.changed) > 0 && r.transitive == (cfg.UpdatedGoModFile == "") && r.radius == map[bool]int{true: 1}[cfg.MutationScope == "area"])
	if cfg.ModulesVersionFlag != "" {
		vAssert("every module asked for is analysed", len(r.changed) == 2 && *r.changed[0] == ModuleChange{Name: names[1], PriorVersion: "v1.1.0", NewVersion: "v1.3.0", Indirect: true} && *r.changed[1] == ModuleChange{Name: names[0], PriorVersion: "v1.0.0", NewVersion: "v1.2.0"})
	} else {
		vAssert("every module asked for is analysed", len(r.changed) == 1 && *r.changed[0] == ModuleChange{Name: names[0], PriorVersion: "v1.0.0", NewVersion: "v1.2.0"})
	}
	if r.reportCount == 0 {
		vAssert("a report is written unless a step fails", failed)
		return
	}
	vReach("report")
	p := r.rep
	vAssert("one report is written where asked", r.reportCount == 1 && p.json == "/out/r.json" && p.charts == "/out/r.png")
	vAssert("the report tells the modules", len(p.changed) == len(r.changed) && len(p.checked) == len(r.funcs) && (len(p.checked) < 2 || p.checked[0] == names[0] && p.checked[1] == names[1]))
	vAssert("the report tells how many functions changed", p.count == len(r.flat))
	if stop == v20Change {
		vAssert("a report without changes is empty", p.hit == 0 && p.skip == 0 && p.checks == 0 && len(p.callers) == 0 && len(p.tests) == 0 && p.same == 0 && p.diff == 0 && len(p.reports) == 0 && p.mut == MutationResult{})
		return
	}
	vAssert("the report tells the callers", v20SameCallers(p.callers, r.callers))
	vAssert("the report tells how long the analysis took", p.analysis == 11*time.Millisecond && p.start.Equal(time.Unix(1000, 0)))
	if stop != v20None {
		vAssert("a report without tests has no results", p.hit == 0 && p.skip == 0 && p.checks == 0 && len(p.tests) == 0 && p.same == 0 && p.diff == 0 && len(p.reports) == 0 && p.mut == MutationResult{})
		return
	}
	vAssert("the report tells the tests", v20SameTests(p.tests, r.tests))
	vAssert("the report tells what was checked, reached and skipped", p.checks == r.checks && p.hit == r.hit && p.skip == r.skip)
	vAssert("the report tells what is the same and what differs", p.same == r.same && p.diff == r.diff && len(p.reports) == 1)
	vAssert("the report tells how long the steps took", p.disc == 100*time.Millisecond && p.exec == 1000*time.Millisecond && p.mutate == map[bool]time.Duration{true: 10000 * time.Millisecond}[mutating])
	if mutating {
		vAssert("the report tells about the mutations", p.mut == r.mut)
		vAssert("mutations are made as configured", r.fast == (cfg.MutationMode == "fast") && r.lines == (cfg.MutationScope != "function") && r.target == (cfg.MutationTests == "targeted"))
	} else {
		vAssert("the report tells about the mutations", p.mut == MutationResult{})
	}
}
