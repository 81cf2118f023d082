package lens

import (
	"go/ast"
	"strconv"
	"strings"
)

//v:use lib_fs.go
//v:use lib_exec.go
//v:use lib_tmpl.go
//v:use lib_mini.go

func vstub_lens__newDefaultStripedMutex() *stripedMutex { return newStripedMutex(7) }

const v16Env = `package p

func e(k ...int) int { return 0 }

func pair(k int) (int, string) { return 0, "" }

func ch(k int) chan int { return nil }
`

const v16Client = `package p

type lensMonitorFieldSnapshot struct {
	Name string
	Val  any
}

func sendLensPointMessage(id uint32) {}

func sendLensPointStateMessage(id uint32, s ...lensMonitorFieldSnapshot) {}

func sendLensPointRecoveryMessage(id uint32, r any) {}
`

// The constructs a return is placed in; S stands for what is inside.
var v16Ctx = []string{
	"S",
	"{\n\tq := e(1)\n\t_ = q\n\tS\n}",
	"if y := e(1); y > 0 {\n\tS\n}",
	"if y := e(1); y > 0 {\n\tz := e(3)\n\t_ = z\n} else {\n\tS\n}",
	"if e(1) > 0 {\n\tz := e(3)\n\t_ = z\n} else if y := e(4); y > 0 {\n\tS\n}",
	"if e(1) > 0 {\n\te(3)\n} else if y := e(4); y > 0 {\n\te(5)\n} else if z := e(6); z > 0 {\n\tS\n} else {\n\tw := e(7)\n\t_ = w\n\tS\n}",
	"for i := 0; e(1) > i; i++ {\n\tif e(3) > 0 {\n\t\tcontinue\n\t}\n\tS\n}",
	"for i, v := range [2]int{4, 5} {\n\te(i, v)\n\tif e(3) > 0 {\n\t\tS\n\t}\n}",
	"switch e(1) {\ncase 1:\n\tz := e(3)\n\t_ = z\n\tfallthrough\ncase 2:\n\tS\ndefault:\n\te(5)\n}",
	"switch v := e(1); {\ncase v > 1:\n\te(3)\n\tbreak\ncase v > 0:\n\tz := e(4)\n\t_ = z\n\tS\ndefault:\n\tS\n}",
	"switch v := any(e(1)).(type) {\ncase string:\n\t_ = v\n\te(3)\ncase int:\n\tif v > 0 {\n\t\tS\n\t}\ndefault:\n\tS\n}",
	"select {\ncase w := <-ch(1):\n\t_ = w\n\te(3)\ncase ch(2) <- e(4):\n\tS\ncase u := <-ch(3):\n\te(u)\n\tS\ndefault:\n\tz := e(5)\n\t_ = z\n\tS\n}",
	"L:\n\tfor {\n\t\tif e(1) > 0 {\n\t\t\tbreak L\n\t\t}\n\t\tS\n\t}",
	"M:\n\tswitch {\n\tcase e(1) > 0:\n\t\tif e(3) > 0 {\n\t\t\tbreak M\n\t\t}\n\t\tS\n\t}",
	"f := func(g int) int {\n\tz := e(g)\n\tif z > 0 {\n\t\treturn z\n\t}\n\treturn 4\n}\ne(f(1))\nif e(3) > 0 {\n\tS\n}",
	"defer func() {\n\te(7)\n}()\nif e(1) > 0 {\n\tS\n}",
	"defer func() {\n\tif r := recover(); r != nil {\n\t\te(8)\n\t}\n}()\nif e(1) > 0 {\n\tpanic(\"boom\")\n}\nif e(3) > 0 {\n\tS\n}",
	"if e(1) > 0 {\n\tpanic(\"boom\")\n}\nif e(3) > 0 {\n\tS\n}",
	"string := e(1)\n_ = string\nif e(3) > 0 {\n\tS\n}",
	"any, int, error := e(1), e(3), e(4)\nif any > int+error {\n\tS\n}",
	"for {\n\ta := a + e(1)\n\tif a > 0 {\n\t\tS\n\t}\n\tif e(3) > 0 {\n\t\tbreak\n\t}\n}",
	"var g, h = e(1), 5\nconst k = 9\nif g > h {\n\tg = k\n\tg++\n\th += g\n\tS\n}",
}

type v16Sig struct {
	sig  string
	rets []string
	void bool
}

var v16Sigs = []v16Sig{
	{"(a int)", []string{"return"}, true},
	{"(a int) int", []string{"return a", "return 7", "return a + e(9)", "return F(e(9) - 1)"}, false},
	{"(a int) (int, string)", []string{"return pair(a)", "return a, \"s\"", "return e(8), \"t\"", "return F(e(9))"}, false},
	{"(a int) (r int)", []string{"r = e(8)\nreturn", "return e(9)", "return r", "r = e(8)\nreturn a"}, false},
	{"(a int) (r int, err error)", []string{"r = e(8)\nreturn", "return 1, nil", "return r, err"}, false},
	{"(a int) (_ int, s string)", []string{"s = \"x\"\nreturn", "return e(9), \"y\""}, false},
	{"(a int) any", []string{"return a", "return nil", "return 3", "return \"s\""}, false},
	{"(a int) (any, error)", []string{"return e(9), nil", "return nil, nil"}, false},
	{"[T any](a T) T", []string{"return a"}, false},
	{"(a int) int64", []string{"return 5", "return 'x'"}, false},
	{"(a int) (int64, float64, error)", []string{"return 5, 2, nil"}, false},
	{"(a int, nilq bool) bool", []string{"return true", "return !nilq", "return nilq"}, false},
}

func v16Body(ctx []int, ret, tail string) string {
	s := "x := e(2)\n_ = x\n" + ret
	for i := len(ctx) - 1; i >= 0; i-- {
		parts := strings.Split(v16Ctx[ctx[i]], "S")
		out := parts[0]
		for k, p := range parts[1:] {
			t := s
			for _, l := range []string{"L", "M"} { // labels are unique
				n := l + strconv.Itoa(k)
				t = strings.ReplaceAll(strings.ReplaceAll(t, l+":", n+":"), "break "+l+"\n", "break "+n+"\n")
			}
			out += t + p
		}
		s = out
	}
	return s + "\n" + tail
}

func v16Event(e vmEvent) bool {
	switch e.kind {
	case "state", "entry", "recovery":
		return false
	}
	return true
}

func v16Kind(es []vmEvent, kind string) (out []vmEvent) {
	for _, e := range es {
		if e.kind == kind {
			out = append(out, e)
		}
	}
	return
}

func v16Plain(es []vmEvent) (out []vmEvent) {
	for _, e := range es {
		if v16Event(e) {
			out = append(out, e)
		}
	}
	return
}

func v16SameVals(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vmEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func v16Field(e vmEvent, name string) (any, bool) {
	for i, n := range e.names {
		if n == name {
			return e.args[i], true
		}
	}
	return nil, false
}

var v16Bare bool // the function's body is the construct alone

var v16Calls = 7 // the environment answers 0 afterwards

// v16Run instruments F as chosen and runs the original and the instrumented
// program in the same environment.
func v16Run(src string, sig int, typed bool, inject func(m *ASTModifier, f *Function) error) (orig, inst *vMachine, done bool) {
	files := map[string]string{"/w/p/f.go": src, "/w/p/env.go": v16Env}
	if !typed {
		files["/w/p/bad.go"] = "package p\n\nimport \"example.com/unresolved\"\n\nvar _ unresolved.T\n"
	}
	vNewFS(files)
	m := &ASTModifier{}
	f := &Function{FilePath: "/w/p/f.go", PackageName: "p", FunctionIdent: "p:F", FunctionName: "F"}
	err := inject(m, f)
	vAssert("instrumentation succeeds", err == nil)
	vAssert("commit succeeds", m.Commit() == nil)
	out := string(vDisk.nodes["/w/p/f.go"].data)
	_, fo, erro := vmParse(src)
	_, fi, erri := vmParse(out)
	vAssert("the example parses", erro == nil)
	vAssert("the instrumented source parses", erri == nil)
	if err != nil || erro != nil || erri != nil {
		return nil, nil, false
	}
	cerr := vmCompiles(out, v16Env, v16Client)
	if cerr != nil && vmCompiles(src, v16Env) != nil {
		vAssert("the example compiles", false)
	}
	vAssert("the instrumented source compiles", cerr == nil)
	env := make([]int, v16Calls)
	for i := range env {
		env[i] = int(vI16("env" + strconv.Itoa(i)))
	}
	a := int(vI16("a"))
	args := []any{a}
	if sig == 11 {
		args = append(args, vBool("b"))
	}
	orig, inst = vmNew(fo, "F", env), vmNew(fi, "F", env)
	ro, po := orig.run(args...)
	ri, pi := inst.run(args...)
	vAssert("the example runs", orig.stuck == "" || orig.stuck == "fuel")
	if orig.stuck == "fuel" {
		return nil, nil, false // does not end within the bound
	}
	vAssert("the instrumented function runs", inst.stuck == "")
	if inst.stuck != "" {
		return nil, nil, false
	}
	vAssert("the instrumented function panics exactly when the original does, with the same value", (po == nil) == (pi == nil) && (po == nil || vmEq(po.v, pi.v)))
	vAssert("the instrumented function returns what the original does", v16SameVals(ro, ri))
	eo, ei := v16Plain(orig.events), v16Plain(inst.events)
	same := len(eo) == len(ei)
	if same {
		for i := range eo {
			same = same && eo[i].kind == ei[i].kind && eo[i].id == ei[i].id && (eo[i].kind == "exit" || v16SameVals(eo[i].args, ei[i].args))
		}
	}
	vAssert("the instrumented function makes the same calls in the same order", same)
	return orig, inst, same
}

// v16CheckStates: every return is reported once, at that moment, with the
// values of the variables in scope and of the results.
func v16CheckStates(orig, inst *vMachine, ids []uint32) {
	exits := v16Kind(orig.events, "exit")
	vAssert("every return is reported once", len(v16Kind(inst.events, "state")) == len(exits))
	k := 0
	for i, e := range inst.events {
		if e.kind != "exit" {
			continue
		}
		o := exits[k]
		k++
		ok := i > 0 && inst.events[i-1].kind == "state" && inst.events[i-1].depth == e.depth
		vAssert("a return is reported when its values are known", ok)
		if !ok {
			continue
		}
		s := inst.events[i-1]
		known := false
		for _, id := range ids {
			known = known || int(id) == s.id
		}
		vAssert("a reported point is a known point", known)
		for n, v := range o.scope {
			if n == "f" || n == "F" { // functions
				continue
			}
			got, has := v16Field(s, n)
			vAssert("variables in scope are reported with their value", has && vmEq(got, v))
		}
		for j, v := range o.args {
			name := ""
			if j < len(o.result) {
				if id, ok := o.result[j].(*ast.Ident); ok {
					if id.Name == "nil" || id.Name == "true" || id.Name == "false" {
						continue
					}
					name = id.Name
				}
			}
			js := strconv.Itoa(j)
			got, has := v16Field(s, "ret"+js)
			if !has {
				got, has = v16Field(s, "rec"+js)
			}
			if !has && name != "" {
				got, has = v16Field(s, name)
			}
			vAssert("results are reported with their value", has && vmEq(got, v))
		}
		for n := range s.names {
			for _, q := range s.names[:n] {
				vAssert("a name is reported once", q != s.names[n])
			}
		}
	}
}

func v16Source(sig int, ctx []int, ret, tail string) string {
	if v16Bare && v16Sigs[sig].void { // nothing but the construct
		body := strings.TrimSuffix(v16Body(ctx, ret, ""), "\n")
		body = strings.ReplaceAll(strings.ReplaceAll(body, "x := e(2)\n", ""), "_ = x\n", "")
		return "package p\n\n// F is an example.\nfunc F" + v16Sigs[sig].sig + " {\n" + body + "\n}\n"
	}
	return "package p\n\n// F is an example.\nfunc F" + v16Sigs[sig].sig + " {\n" + v16Body(ctx, ret, tail) + "\n}\n\nfunc G() int {\n\treturn e(99)\n}\n"
}

func v16States(sig int, ctx []int, ret, tail string, typed, panics bool) {
	var ids []uint32
	pid := uint32(0)
	orig, inst, ok := v16Run(v16Source(sig, ctx, ret, tail), sig, typed, func(m *ASTModifier, f *Function) (err error) {
		if ids, err = m.InjectFuncPointReturnStates(f); err != nil {
			return err
		}
		if panics {
			pid, err = m.InjectFuncPointPanic(f)
		}
		return err
	})
	if !ok {
		return
	}
	v16CheckStates(orig, inst, ids)
	if panics {
		v16CheckPanics(orig, inst, pid)
	}
}

func v16CheckPanics(orig, inst *vMachine, pid uint32) {
	recs, pans := v16Kind(inst.events, "recovery"), v16Kind(orig.events, "panic")
	same := len(recs) == len(pans)
	vAssert("every panic leaving the function is reported once", same)
	if same {
		for i := range recs {
			vAssert("a panic is reported under its point with its value", recs[i].id == int(pid) && vmEq(recs[i].args[0], pans[i].args[0]))
		}
	}
}

func v16Tail(sig int) string {
	s := v16Sigs[sig]
	if s.void && vBool("fall off") {
		return "t := e(6)\n_ = t"
	}
	return "t := e(6)\n_ = t\n" + s.rets[len(s.rets)-1]
}

// Every construct with a return in it, for a function with and without result.
//
//v:bounds 22 constructs (blocks, if chains, loops, switches, select, labels, closures, defers, panics) around a return, two signatures, alone in the function or among other statements, with and without type information; all results of the called functions (16 bit), up to 7 calls per run
//v:quick 60
//v:thorough 300
func VHConstructs() {
	sig := vChoose("sig", 2)
	ctx := []int{vChoose("ctx", len(v16Ctx))}
	typed := vBool("typed")
	ret := v16Sigs[sig].rets[0]
	v16Bare = sig == 0 && typed && vBool("bare")
	v16States(sig, ctx, ret, v16Tail(sig), typed, true)
}

// Every form of result, in a few constructs.
//
//v:bounds 28 forms of return over 12 signatures in 4 constructs (thorough: all), with and without type information; all results of the called functions (16 bit), up to 7 calls per run
//v:quick 120
//v:thorough 400
func VHResults() {
	sig := vChoose("sig", len(v16Sigs))
	ret := v16Sigs[sig].rets[vChoose("ret", len(v16Sigs[sig].rets))]
	c := 0
	if vThorough() {
		c = vChoose("ctx", len(v16Ctx))
	} else {
		c = []int{2, 11, 18, 19}[vChoose("ctx", 4)]
	}
	if sig == 8 && c == 20 {
		return // adds to the parameter
	}
	v16States(sig, []int{c}, ret, v16Tail(sig), vBool("typed"), false)
}

// Constructs within constructs.
//
//v:bounds every pair of the 22 constructs one inside the other (quick: every construct around an else-if chain or a select), a function with and without result; up to 7 (quick: 4) calls per run with arbitrary results
//v:quick 90
//v:thorough 900
func VHNested() {
	sig := vChoose("sig", 2)
	c, d := 0, 0
	if vThorough() {
		c, d = vChoose("outer", len(v16Ctx)), vChoose("inner", len(v16Ctx))
	} else {
		v16Calls = 4
		some := []int{5, 11}
		c, d = vChoose("outer", len(v16Ctx)), some[vChoose("inner", len(some))]
	}
	v16States(sig, []int{c, d}, v16Sigs[sig].rets[0], v16Tail(sig), vThorough() && vBool("typed"), false)
}

// Entry, end and panic points of a function; repeated injection.
//
//v:bounds 7 constructs with a return, one recovering and one leaving a panic, two signatures, alone in the function or among other statements, any subset of the points in the order of injection entry, end, panic; state points injected twice
//v:quick 60
//v:thorough 300
func VHPoints() {
	sig := vChoose("sig", 2)
	ctx := []int{[]int{2, 6, 14, 15, 16, 17, 5}[vChoose("ctx", 7)]}
	entry, finish, pan, state := vBool("entry"), vBool("finish"), vBool("panic"), vBool("state")
	v16Bare = sig == 0 && !state && vBool("bare")
	src := v16Source(sig, ctx, v16Sigs[sig].rets[0], v16Tail(sig))
	eid, fid, pid := uint32(0), uint32(0), uint32(0)
	var ids []uint32
	orig, inst, ok := v16Run(src, sig, true, func(m *ASTModifier, f *Function) (err error) {
		if state {
			if ids, err = m.InjectFuncPointReturnStates(f); err != nil {
				return err
			}
			again, err := m.InjectFuncPointReturnStates(f)
			vAssert("a second injection adds nothing", err == nil && len(again) == 0)
		}
		if entry {
			if eid, err = m.InjectFuncPointEntry(f); err != nil {
				return err
			}
		}
		if finish {
			if fid, err = m.InjectFuncPointFinish(f); err != nil {
				return err
			}
		}
		if pan {
			pid, err = m.InjectFuncPointPanic(f)
		}
		return err
	})
	if !ok {
		return
	}
	if state {
		v16CheckStates(orig, inst, ids)
	} else {
		vAssert("no state is reported", len(v16Kind(inst.events, "state")) == 0)
	}
	if pan {
		v16CheckPanics(orig, inst, pid)
	} else {
		vAssert("no panic is reported", len(v16Kind(inst.events, "recovery")) == 0)
	}
	runs := len(v16Kind(orig.events, "done")) + len(v16Kind(orig.events, "panic"))
	ne, nf := 0, 0
	for _, e := range inst.events {
		if e.kind != "entry" {
			continue
		}
		if entry && e.id == int(eid) {
			ne++
		} else if finish && e.id == int(fid) {
			nf++
		} else {
			vAssert("a reported point is a known point", false)
		}
	}
	vAssert("every entry is reported once", !entry || ne == runs)
	vAssert("every end is reported once", !finish || nf == runs)
	if entry {
		vAssert("an entry is reported before anything else", len(inst.events) > 0 && inst.events[0].kind == "entry" && inst.events[0].id == int(eid))
	}
	if finish && len(inst.events) > 1 {
		vAssert("the end is reported after everything else", inst.events[len(inst.events)-2].kind == "entry" && inst.events[len(inst.events)-2].id == int(fid) || pan)
	}
}
