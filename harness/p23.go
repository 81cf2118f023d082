package lens

import (
	"bytes"
	"errors"
	"net/http"
	"os/exec"
	"strings"
	"sync"
)

//v:use lib_fv.go
//v:use lib_exec.go
//v:use lib_fs.go

func vstub_lens__newDefaultStripedMutex() *stripedMutex { return newStripedMutex(7) }

func v23P(s string) *string { return &s }

func v23Server(port string) *astServer {
	return &astServer{server: &http.Server{Addr: "localhost:" + port}}
}

func v23Env(c *exec.Cmd, key string) (string, int) {
	v, n := "", 0
	for _, e := range c.Env {
		if strings.HasPrefix(e, key+"=") {
			v = e[len(key)+1:]
			n++
		}
	}
	return v, n
}

// v23TestCmd: the command runs exactly this test, uncached, in its package.
func v23TestCmd(c *exec.Cmd, name, dir string) bool {
	run, count := "", false
	for i, a := range c.Args {
		if a == "-run" && i+1 < len(c.Args) {
			run = c.Args[i+1]
		} else if strings.HasPrefix(a, "-run=") {
			run = a[5:]
		}
		count = count || a == "-count=1"
	}
	return len(c.Args) > 2 && c.Args[0] == "go" && c.Args[1] == "test" && run == "^"+name+"$" && count && c.Dir == dir
}

type v23Run struct {
	digits []byte // value of the field in each state message
	entry  bool
	msg    string
	fail   bool
	out    string
}

func (r *v23Run) send(h astPointHandler, id uint32) {
	for i, d := range r.digits {
		h.HandleFuncPointState(LensMonitorMessagePointState{PointID: id, TimeNS: int64(i) * 1000000,
			Stack:  []lensMonitorStackFrame{{File: "/w/a.go", Function: "fn", Line: 1}},
			Fields: []LensMonitorField{{Name: "x", Type: "int", Value: string([]byte{d})}, {Name: "k", Type: "int", Value: "1"}}})
	}
	if r.entry {
		h.HandleFuncPoint(LensMonitorMessagePoint{PointID: 7})
	}
	if r.msg != "" {
		h.HandleFuncPointPanic(LensMonitorMessagePointPanic{PointID: 5, Message: r.msg})
	}
}

func v23Outcome(max int) *v23Run {
	r := &v23Run{}
	n := vChoose("states", max+1)
	for i := 0; i < n; i++ {
		r.digits = append(r.digits, '0'+byte(vIntRange("value", 0, 9)))
	}
	r.entry = vBool("entry")
	if vBool("panic") {
		r.msg = "p" + string([]byte{'0' + byte(vIntRange("message", 0, 1))})
	}
	if r.fail = vBool("fails"); r.fail {
		r.out = " FAIL\nexit status 1\nout" + string([]byte{'0' + byte(vIntRange("out", 0, 9))}) + "\n"
	} else if vBool("prints") {
		r.out = "ok\n"
	}
	return r
}

// A test's result comes from its own runs: the stable part of two runs, or
// one run reduced to what was stable before.
//
//v:bounds each run with up to 1 (thorough: 2) states with a symbolic value, module entry, panic, failure and output; with and without stable results, and a forced second run
//v:outside several tests at once (see VHTests)
//v:quick 60
//v:thorough 200
func VHRunTest() {
	max := 1
	if vThorough() {
		max = 2
	}
	srv := v23Server("4444")
	var stable *monitorStableResults
	var sf byte
	if vBool("stable") {
		stable = &monitorStableResults{caller: map[string][]CallFrame{}, extension: map[string][]CallFrame{}}
		if vBool("stable frame") { // x was stable or not, k was
			sf = 1 + byte(vChoose("x stable", 2))
			fv := FieldValues{"k": &FieldValue{Value: "1"}}
			if sf == 2 {
				fv["x"] = &FieldValue{Value: "3"}
			}
			stable.caller["f"] = []CallFrame{{FieldValues: fv, Stack: []StackFrame{{File: "./a.go", Function: "fn", Line: 1}}}}
		}
	}
	force := vBool("force")
	var runs []*v23Run
	vExecRun = func(c *exec.Cmd) error {
		vAssert("the test is run, once at a time", v23TestCmd(c, "TestX", "/w/sub") && len(runs) < 2)
		v, n := v23Env(c, "K")
		vAssert("the environment is the one given", v == "v" && n == 1)
		r := v23Outcome(max)
		runs = append(runs, r)
		h := *srv.pointHandler.Load().(*astPointHandler)
		r.send(h, 1)
		if r.out != "" {
			_, _ = c.Stdout.Write([]byte(r.out))
		}
		if r.fail {
			return errors.New("exit status 1")
		}
		return nil
	}
	vEnviron = []string{"PATH=/bin", "K=old", "LD_PRELOAD=x"}
	tf := &TestFunction{Function: Function{FunctionIdent: "w:TestX", FunctionName: "TestX", FilePath: "/w/sub/x_test.go", PackageName: "w"}}
	var buf bytes.Buffer
	out, res, checks, reached, err := runMonitoredTest([]string{"K=v"}, "/gr", "/w", srv, &buf, stable, force,
		map[uint32]*string{1: v23P("f")}, map[uint32]*string{5: v23P("f")}, map[uint32]*string{7: v23P("m")}, map[uint32]*string{}, map[uint32]*string{}, tf)
	vAssert("the test is run and recorded", err == nil)
	if err != nil {
		return
	}
	want := 2
	if stable != nil && !force {
		want = 1
	}
	vAssert("a second run is made exactly when the stable fields are not known or it is asked for", len(runs) == want)
	if len(runs) != want {
		return
	}
	a, b := runs[0], runs[want-1]
	vAssert("a test fails when any of its runs fails", res.TestFailure == (a.fail || b.fail))
	vAssert("the result is of the test", res.TestFunction.FunctionIdent == "w:TestX")
	first := a
	if !a.fail {
		first = b
	}
	if a.fail || b.fail {
		vAssert("the output of the first failing run is told", out == strings.TrimSpace(first.out[len(" FAIL\nexit status 1\n"):]))
	} else {
		vAssert("no output is told unless the test fails", out == "")
	}
	vAssert("module functions reached in the first run count", a.entry == (len(reached) == 1 && *reached[0] == "m") && a.entry == (res.ModuleChangesHit == 1))
	nst := min(len(a.digits), len(b.digits))
	vAssert("the number of checks is that of both runs", checks == nst)
	frames := res.CallerResults["f"]
	if stable == nil || len(a.digits) == 0 {
		vAssert("every state of both runs is kept", len(frames) == nst)
	}
	for i, f := range frames {
		if i >= nst {
			break
		}
		x, k := f.FieldValues["x"], f.FieldValues["k"]
		same := want == 1 || a.digits[i] == b.digits[i]
		vAssert("no value that differs between runs is kept", x == nil || same && x.Value == string([]byte{a.digits[i]}))
		if stable == nil {
			vAssert("every value that is the same in both runs is kept", (x != nil) == same && k != nil && k.Value == "1")
		} else if i == 0 {
			vAssert("of a known call exactly the stable fields are kept", sf == 0 || (x != nil) == (same && sf == 2) && k != nil)
		}
	}
	if want == 1 {
		vAssert("panics are recorded", (len(res.ProjectPanics["f"]) == 1) == (a.msg != ""))
	} else {
		vAssert("panics of both runs are recorded", (len(res.ProjectPanics["f"]) == 1) == (a.msg != "" && a.msg == b.msg))
	}
}

type v23Storage struct {
	Storage
	mu   sync.Mutex
	fail string
	n    map[string]int
	slow bool // others may run while a result is stored
}

func (s *v23Storage) SaveState(k string, b []byte) error {
	if k == s.fail {
		return errVIO
	}
	s.mu.Lock()
	s.n[k]++
	s.mu.Unlock()
	if s.slow {
		vYield()
	}
	return s.Storage.SaveState(k, b)
}

// Every test is run with a monitor of its own and recorded under its name.
//
//v:bounds 3 tests on 2 (thorough: 1 or 2) servers, the last (thorough: each) failing or not, with 0 or 1 states of an extension point, and with stable results or not; with stable results, those of the first or last test may be unreadable; without, one result may fail to be stored; tests interleave where they run or wait (thorough: and with 1 preemption elsewhere)
//v:quick 60
//v:thorough 300
//v:iters 50
func VHTests() {
	vNewFS(nil)
	nt, ns := 3, 2 // the first test runs alone
	if vThorough() {
		ns = 1 + vChoose("servers", 2)
	}
	servers := []*astServer{v23Server("4444"), v23Server("4445")}
	ch := make(chan *astServer, ns)
	for i := 0; i < ns; i++ {
		ch <- servers[i]
	}
	var tests []*TestFunction
	outcome := map[string]*v23Run{}
	known := map[string]bool{}
	var stableStore Storage
	if vBool("second phase") {
		stableStore = NewMemStorage()
	}
	st := &v23Storage{Storage: NewMemStorage(), n: map[string]int{}, slow: stableStore == nil}
	for i := 0; i < nt; i++ {
		name := "Test" + string([]byte{'A' + byte(i)})
		tests = append(tests, &TestFunction{Function: Function{FunctionIdent: "w/p:" + name, FunctionName: name, FilePath: "/w/p/x_test.go", PackageName: "w/p"}})
		o := i * 3
		if i == 2 || vThorough() {
			o = vChoose("outcome", 3)
		}
		r := &v23Run{fail: o == 1 || o == 3}
		if o < 2 {
			r.digits = []byte{'1' + byte(i)}
		}
		outcome[name] = r
		if stableStore != nil && (i == 2 || vThorough()) && vBool("known") {
			known[name] = true
			b, err := (&TestResult{}).MarshalMsgpack()
			vAssert("marshal", err == nil)
			_ = stableStore.SaveState("w/p:"+name, b)
		}
	}
	bad := false
	if stableStore != nil {
		if k := vChoose("unreadable", 3); k > 0 { // in the first or a later test
			bad = true
			t := tests[(k-1)*(nt-1)]
			known[t.FunctionName] = false
			_ = stableStore.SaveState(t.FunctionIdent, []byte{0xc1})
		}
	} else if k := vChoose("storing fails", nt); k > 0 {
		st.fail = tests[k].FunctionIdent
	}
	var mu sync.Mutex
	busy, count := map[string]bool{}, map[string]int{}
	vExecRun = func(c *exec.Cmd) error {
		name := strings.Trim(c.Args[len(c.Args)-1], "^$")
		r := outcome[name]
		port, n := v23Env(c, "LENS_MONITOR_PORT")
		mu.Lock()
		vAssert("every test is run with a monitor of its own", r != nil && n == 1 && (port == "4444" || port == "4445") && !busy[port])
		vAssert("the test is run in its package", v23TestCmd(c, name, "/w/p"))
		busy[port] = true
		count[name]++
		mu.Unlock()
		vYield()
		for _, s := range servers {
			if s.server.Addr == "localhost:"+port {
				r.send(*s.pointHandler.Load().(*astPointHandler), 4)
			}
		}
		if vThorough() {
			vYield()
		}
		mu.Lock()
		busy[port] = false
		mu.Unlock()
		if r.fail {
			return errors.New("exit status 1")
		}
		return nil
	}
	if vThorough() {
		vSched(1, false)
	} else {
		vSched(0, false)
	}
	checks, _, err := runMonitoredTestAnalysis([]string{"GOPATH=/g"}, 3, 100, ch, "/gr", "/w", stableStore, st, nil, nil, tests,
		func(m *ASTModifier) (map[uint32]*string, error) { return map[uint32]*string{4: v23P("e")}, nil }, nil)
	vSchedOff()
	vAssert("an error is returned exactly when a result could not be stored or a stable result not read", (err != nil) == (bad || st.fail != ""))
	vAssert("every monitor is free again", len(ch) == ns)
	if err != nil {
		return
	}
	want := 0
	for _, t := range tests {
		r := outcome[t.FunctionName]
		runs := 2
		if known[t.FunctionName] {
			runs = 1
		}
		vAssert("every test is run as often as needed", count[t.FunctionName] == runs)
		vAssert("every result is stored once", st.n[t.FunctionIdent] == 1)
		b, ok, _ := st.LoadState(t.FunctionIdent)
		var res TestResult
		ok = ok && res.UnmarshalMsgpack(b) == nil
		vAssert("the result stored is readable", ok)
		if !ok {
			continue
		}
		vAssert("the result stored is the test's", res.TestFunction.FunctionName == t.FunctionName && res.TestFailure == r.fail)
		fs := res.ExtensionFrames["e"]
		vAssert("the states stored are the test's", len(fs) == len(r.digits) && (len(fs) == 0 || fs[0].FieldValues["x"] == nil && known[t.FunctionName] || fs[0].FieldValues["x"] != nil && fs[0].FieldValues["x"].Value == string(r.digits)))
		want += len(r.digits)
	}
	vAssert("all checks are counted", checks == want && len(st.n) == nt)
}

// Commands get the process's environment without loader settings, and with
// the settings given.
//
//v:bounds an environment of 2 and 1 or 2 settings given; symbolic names and values of up to 2 (thorough: 3) bytes, with or without the prefix LD_
//v:quick 60
//v:thorough 200
func VHEnvironment() {
	max := 2
	if vThorough() {
		max = 3
	}
	kv := func(tag string) (string, string) {
		k := vStr(tag+" name", 1+vChoose(tag+" name len", max))
		for i := 0; i < len(k); i++ {
			vAssume(k[i] != '=' && k[i] != 0)
		}
		if vBool(tag + " loader") {
			k = "LD_" + k
		}
		return k, vStr(tag+" value", vChoose(tag+" value len", 2))
	}
	k1, v1 := kv("a")
	k2, v2 := kv("b")
	vAssume(k1 != k2)
	vEnviron = []string{k1 + "=" + v1, k2 + "=" + v2}
	g, gv := kv("given")
	env := []string{g + "=" + gv}
	cmd := NewProjectExec("/d", env, "go", "x")
	got := cmd.Env
	has := func(s string) int {
		n := 0
		for _, e := range got {
			if e == s {
				n++
			}
		}
		return n
	}
	want := 1
	for _, e := range [][2]string{{k1, v1}, {k2, v2}} {
		keep := !strings.HasPrefix(e[0], "LD_") && e[0] != g
		if keep {
			want++
			vAssert("other settings are kept", has(e[0]+"="+e[1]) == 1)
		}
	}
	vAssert("the settings given are used", has(env[0]) == 1)
	vAssert("loader settings and overridden settings are dropped", len(got) == want)
	vAssert("the command runs in the directory given", cmd.Dir == "/d" && len(cmd.Args) == 2 && cmd.Args[0] == "go" && cmd.Args[1] == "x")
}
