package lens

import (
	"strings"
	"sync"
)

//v:use lib_fv.go

// Seven stripes instead of 8081: enough for three keys, and collisions occur.
func vstub_lens__newDefaultStripedMutex() *stripedMutex { return newStripedMutex(7) }

func v13P(s string) *string { return &s }

// Point ids 1, 2, 3 are state points of functions f, g, f; 4 and 9 extension
// points; 5 a project panic point; 6 a module panic point; 7 and 8 module entries.
func v13Monitor(stable *monitorStableResults) *testMonitor {
	return newTestMonitor(stable, "/gr", "/w",
		map[uint32]*string{1: v13P("f"), 2: v13P("g"), 3: v13P("f")},
		map[uint32]*string{5: v13P("f")},
		map[uint32]*string{7: v13P("m7"), 8: v13P("m8")},
		map[uint32]*string{6: v13P("m")},
		map[uint32]*string{4: v13P("e"), 9: v13P("e2")})
}

var v13Stacks = [][2]string{{"/w/a.go", "./a.go"}, {"/w/sub/b.go", "./sub/b.go"}, {"/gr/pkg/mod/x@v1/c.go", "x@v1/c.go"}}

type v13Model struct {
	caller, ext map[string][]CallFrame
	proj, mod   map[string][]string
	reached     [2]bool
	states      int
}

func v13New() *v13Model {
	return &v13Model{caller: map[string][]CallFrame{}, ext: map[string][]CallFrame{}, proj: map[string][]string{}, mod: map[string][]string{}}
}

func (m *v13Model) state(id uint32, cf CallFrame) {
	switch {
	case id == 1 || id == 3:
		m.caller["f"] = append(m.caller["f"], cf)
	case id == 2:
		m.caller["g"] = append(m.caller["g"], cf)
	case id == 4:
		m.ext["e"] = append(m.ext["e"], cf)
	case id == 9:
		m.ext["e2"] = append(m.ext["e2"], cf)
	default:
		return
	}
	m.states++
}

func v13EqFrames(a, b map[string][]CallFrame) bool {
	return v03EqFrames(a, b)
}

func v13Check(t *testMonitor, m *v13Model, fail bool) {
	r := t.makeTestResult(&TestFunction{Function: Function{FunctionIdent: "p:T", FunctionName: "T", PackageName: "p"}}, fail)
	vAssert("every caller state is recorded once, under its function, in order", v13EqFrames(r.CallerResults, m.caller))
	vAssert("every extension state is recorded once, in order", v13EqFrames(r.ExtensionFrames, m.ext))
	vAssert("project panics are recorded once, in order", v03EqStrs(r.ProjectPanics, m.proj))
	vAssert("module panics are recorded once, in order", v03EqStrs(r.ModulePanics, m.mod))
	vAssert("the failure flag is the test's", r.TestFailure == fail)
	vAssert("the result is of the test", r.TestFunction.FunctionIdent == "p:T")
	vAssert("the number of field checks is the number of states", int(t.fieldCheckCount.Load()) == m.states)
	var want []string
	for i, x := range m.reached {
		if x {
			want = append(want, []string{"m7", "m8"}[i])
		}
	}
	got := t.getModuleChangesReached()
	same := len(got) == len(want) && r.ModuleChangesHit == len(want)
	for i := 0; same && i < len(got); i++ {
		same = *got[i] == want[i]
	}
	vAssert("module functions are reported as reached exactly when their entry was", same)
}

// What the test process reports is recorded completely, once and in order.
//
//v:bounds 3 (thorough: 4) messages of any kind, ids symbolic in 0..9 including unknown ones, stacks of one frame out of 3, one field with a symbolic byte, times in symbolic nanoseconds below 2^40
//v:quick 60
func VHMonitorSequence() {
	t := v13Monitor(nil)
	m := v13New()
	n := 3
	if vThorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		switch vChoose("kind", 3) {
		case 0:
			k := vChoose("entry", 3)
			t.HandleFuncPoint(LensMonitorMessagePoint{PointID: uint32(7 + k)})
			if k < 2 {
				m.reached[k] = true
			}
		case 1:
			id := vU32("id")
			vAssume(id < 10)
			s := v13Stacks[vChoose("stack", len(v13Stacks))]
			ns := vI64("ns")
			vAssume(ns >= 0 && ns < 1<<40)
			line := vU8("line")
			v := vStr("v", 1)
			t.HandleFuncPointState(LensMonitorMessagePointState{PointID: id, TimeNS: ns,
				Stack:  []lensMonitorStackFrame{{File: s[0], Function: "fn", Line: uint(line)}},
				Fields: []LensMonitorField{{Name: "x", Type: "string", Value: v}}})
			m.state(id, CallFrame{FieldValues: FieldValues{"x": {Value: v}},
				Stack: []StackFrame{{File: s[1], Function: "fn", Line: uint32(line)}}, TimeMillis: uint32((ns + 500000) / 1000000)})
			if id == 0 || id > 4 && id != 9 {
				vReach("unknown state point")
			}
		case 2:
			id := vU32("id")
			vAssume(id < 10)
			msg := vStr("msg", 1)
			t.HandleFuncPointPanic(LensMonitorMessagePointPanic{PointID: id, Message: msg})
			if id == 5 {
				m.proj["f"] = append(m.proj["f"], msg)
			} else if id == 6 {
				m.mod["m"] = append(m.mod["m"], msg)
			}
		}
	}
	v13Check(t, m, vBool("fail"))
}

// The time of a state is that of its message in milliseconds, rounded, however
// long the process has been running.
//
//v:bounds a state of a caller or an extension point at any of 9 times from the start of the process to 40 days after it, 0..999 ns later
func VHMonitorTimes() {
	t := v13Monitor(nil)
	m := v13New()
	at := []int64{0, 1, 499_500, 1_499_999, 4_294_967_295, 4_294_967_000_000, 7_261_000_400_000, 86_400_000_499_001, 3_456_000_000_000_123}[vChoose("time", 9)]
	ns := at + []int64{0, 1, 499, 500, 999}[vChoose("later", 5)]
	id := []uint32{1, 2, 3, 4}[vChoose("id", 4)]
	s := v13Stacks[0]
	t.HandleFuncPointState(LensMonitorMessagePointState{PointID: id, TimeNS: ns,
		Stack:  []lensMonitorStackFrame{{File: s[0], Function: "fn", Line: 1}},
		Fields: []LensMonitorField{{Name: "x", Type: "string", Value: "v"}}})
	m.state(id, CallFrame{FieldValues: FieldValues{"x": {Value: "v"}},
		Stack: []StackFrame{{File: s[1], Function: "fn", Line: 1}}, TimeMillis: uint32((ns + 500000) / 1000000)})
	v13Check(t, m, false)
	vReach("recorded")
}

// Messages that come one after the other are recorded in that order, also
// when the work they leave to be done in the background overlaps.
//
//v:bounds two (thorough: three) states of the same or different functions one after the other, all orders of the background work
//v:quick 60
//v:iters 2000
func VHMonitorOrder() {
	t := v13Monitor(nil)
	m := v13New()
	n := 2
	if vThorough() {
		n = 3
	}
	ids := make([]uint32, n)
	for i := range ids {
		ids[i] = uint32(1 + vChoose("id", 4))
	}
	if vThorough() {
		vSched(1, false)
	} else {
		vSched(0, false)
	}
	for i, id := range ids {
		v := strings.Repeat("x", i+1)
		t.HandleFuncPointState(LensMonitorMessagePointState{PointID: id, TimeNS: int64(i) * 1000000,
			Stack:  []lensMonitorStackFrame{{File: "/w/a.go", Function: "fn", Line: 3}},
			Fields: []LensMonitorField{{Name: "x", Type: "string", Value: v}}})
		m.state(id, CallFrame{FieldValues: FieldValues{"x": {Value: v}},
			Stack: []StackFrame{{File: "./a.go", Function: "fn", Line: 3}}, TimeMillis: uint32(i)})
	}
	v13Check(t, m, false)
	vSchedOff()
}

// Messages handled at the same time are each recorded once.
//
//v:bounds two (thorough: three) handlers at once, any kinds and known ids, all interleavings with up to 1 (thorough: 2) preemptions at synchronisation
//v:quick 60
func VHMonitorConcurrent() {
	t := v13Monitor(nil)
	m := v13New()
	n := 2
	if vThorough() {
		n = 3
	}
	type ev struct {
		kind int
		id   uint32
	}
	evs := make([]ev, n)
	for i := range evs {
		evs[i] = ev{vChoose("kind", 3), []uint32{1, 2, 3, 4, 9}[vChoose("id", 5)]}
	}
	var wg sync.WaitGroup
	if vThorough() {
		vSched(2, false)
	} else {
		vSched(1, false)
	}
	for i := range evs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e := evs[i]
			tag := strings.Repeat("x", i+1)
			switch e.kind {
			case 0:
				t.HandleFuncPoint(LensMonitorMessagePoint{PointID: 7 + e.id%2})
			case 1:
				t.HandleFuncPointState(LensMonitorMessagePointState{PointID: e.id,
					Stack:  []lensMonitorStackFrame{{File: "/w/a.go", Function: "fn"}},
					Fields: []LensMonitorField{{Name: "x", Type: "string", Value: tag}}})
			case 2:
				t.HandleFuncPointPanic(LensMonitorMessagePointPanic{PointID: 5 + e.id%2, Message: tag})
			}
		}()
	}
	wg.Wait()
	r := t.makeTestResult(&TestFunction{}, false)
	vSchedOff()
	for i, e := range evs {
		tag := strings.Repeat("x", i+1)
		switch e.kind {
		case 0:
			m.reached[e.id%2] = true
		case 1:
			k := map[uint32]string{1: "f", 2: "g", 3: "f", 4: "e", 9: "e2"}[e.id]
			c := 0
			for _, fs := range []map[string][]CallFrame{r.CallerResults, r.ExtensionFrames} {
				for _, f := range fs[k] {
					if f.FieldValues["x"].Value == tag {
						c++
					}
				}
			}
			m.states++
			vAssert("a state handled at the same time as others is recorded once", c == 1)
		case 2:
			list := r.ProjectPanics["f"]
			if e.id%2 == 1 {
				list = r.ModulePanics["m"]
			}
			c := 0
			for _, x := range list {
				if x == tag {
					c++
				}
			}
			vAssert("a panic handled at the same time as others is recorded once", c == 1)
		}
	}
	total := 0
	for _, fs := range []map[string][]CallFrame{r.CallerResults, r.ExtensionFrames} {
		for _, f := range fs {
			total += len(f)
		}
	}
	vAssert("nothing else is recorded", total == m.states && int(t.fieldCheckCount.Load()) == m.states)
	hits := 0
	for _, x := range m.reached {
		if x {
			hits++
		}
	}
	vAssert("reached module functions are counted once", r.ModuleChangesHit == hits)
}

// With the stable results of an earlier run, a state keeps exactly the fields
// that were stable at the same occurrence of the same call path.
//
//v:bounds up to 2 (thorough: 3) stable frames over two functions, 2 stacks and 2 field names; 2 (thorough: 3) states with fields x and y; extension points are never filtered
//v:quick 60
func VHMonitorStable() {
	stable := &monitorStableResults{caller: map[string][]CallFrame{}}
	k := 3
	if vThorough() {
		k = 4
	}
	k = vChoose("stable frames", k)
	for i := 0; i < k; i++ {
		fn := []string{"f", "g"}[vChoose("fn", 2)]
		fv := FieldValues{}
		if vBool("x") {
			fv["x"] = &FieldValue{Value: "1"}
		}
		if vBool("y") {
			fv["y"] = &FieldValue{Value: "1"}
		}
		stable.caller[fn] = append(stable.caller[fn], CallFrame{FieldValues: fv,
			Stack: []StackFrame{{File: v13Stacks[vChoose("stack", 2)][1], Function: "fn", Line: 3}, {File: "x@v1/c.go", Function: "lib" + vStr("lib", 1)}}})
	}
	t := v13Monitor(stable)
	m := v13New()
	n := 2
	if vThorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		id := uint32([]int{1, 2, 4}[vChoose("id", 3)])
		s := v13Stacks[vChoose("mstack", 2)]
		t.HandleFuncPointState(LensMonitorMessagePointState{PointID: id,
			Stack:  []lensMonitorStackFrame{{File: s[0], Function: "fn", Line: 9}, {File: "/gr/pkg/mod/x@v2/c.go", Function: "lib"}},
			Fields: []LensMonitorField{{Name: "x", Type: "string", Value: "vx"}, {Name: "y", Type: "string", Value: "vy"}}})
		fv := FieldValues{"x": {Value: "vx"}, "y": {Value: "vy"}}
		if id != 4 {
			fn := map[uint32]string{1: "f", 2: "g"}[id]
			occ := 0
			for _, cf := range m.caller[fn] {
				if cf.Stack[0].File == s[1] {
					occ++
				}
			}
			var keep FieldValues
			for _, cf := range stable.caller[fn] {
				if cf.Stack[0].File == s[1] {
					if occ == 0 {
						keep = cf.FieldValues
						break
					}
					occ--
				}
			}
			for name := range fv {
				if _, ok := keep[name]; !ok {
					delete(fv, name)
				}
			}
		}
		m.state(id, CallFrame{FieldValues: fv, Stack: []StackFrame{{File: s[1], Function: "fn", Line: 9}, {File: "x@v2/c.go", Function: "lib"}}})
	}
	v13Check(t, m, false)
}
