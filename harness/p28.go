package lens

import (
	"errors"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

//v:use lib_fs.go
//v:use lib_exec.go
//v:use lib_sh.go

// Packages are loaded from the files of the module's directory.
func vstub_golang_D_org_S_x_S_tools_S_go_S_packages__Load(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	pkg := &packages.Package{PkgPath: "example.com/m0", Fset: token.NewFileSet()}
	for _, name := range []string{"a.go", "b.go"} {
		if n := vDisk.get(cfg.Dir + "/" + name); n != nil {
			f, err := parser.ParseFile(pkg.Fset, cfg.Dir+"/"+name, n.data, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			pkg.Syntax = append(pkg.Syntax, f)
		}
	}
	return []*packages.Package{pkg}, nil
}

// What the mutation tool was run with.
type v28Tool struct {
	runs   int
	dir    string
	env    []string
	match  string
	script string
	files  []string
	off    []string
	other  []string
	disk   map[string]string // the files while it ran
	perm   bool              // the script could be run
	out    string
	err    error
	hook   func()
}

var v28 *v28Tool

func vstub_os_S_exec__Cmd__CombinedOutput(c *exec.Cmd) ([]byte, error) {
	if c.Args[0] != "go-mutesting" {
		return nil, nil
	}
	v28.runs++
	vDisk.budget = 0
	v28.dir, v28.env = c.Dir, c.Env
	v28.disk = vDisk.snapshot()
	for a := c.Args[1:]; len(a) > 0; a = a[1:] {
		switch {
		case a[0] == "--exec" && len(a) > 1:
			v28.script, a = a[1], a[1:]
		case a[0] == "--match" && len(a) > 1:
			v28.match, a = a[1], a[1:]
		case a[0] == "--disable" && len(a) > 1:
			v28.off, a = append(v28.off, a[1]), a[1:]
		case strings.HasPrefix(a[0], "-"):
			v28.other = append(v28.other, a[0])
		default:
			v28.files = append(v28.files, a[0])
		}
	}
	if n := vDisk.get(v28.script); n != nil {
		v28.perm = n.perm&0o100 != 0
	}
	if v28.hook != nil {
		v28.hook()
	}
	return []byte(v28.out), v28.err
}

func vstub_fmt__Fprintf(w io.Writer, format string, args ...any) (int, error) {
	s := fmt.Sprintf(format, args...)
	if f, ok := w.(*os.File); ok {
		return vstub_os__File__WriteString(f, s)
	}
	return w.Write([]byte(s))
}

const v28Old, v28New = "/mc/example.com/m0@v1.0.0", "/mc/example.com/m0@v1.1.0"

// A line of a function's source.
type v28Line struct {
	text string // with X for a digit
	code bool   // has code
	lit  bool   // starts within a literal: nothing can be put before it
}

var v28Gaps = [][]v28Line{
	nil,
	{{text: "\t// one"}, {text: "\t// two"}},
	{{text: ""}, {text: "\t// one"}},
	{{text: "\t/* one"}, {text: "\t two"}, {text: "\t three */"}},
	{{text: "\t// one"}},
	{{text: ""}},
}

// v28Stmt is statement kind k, told apart by n.
func v28Stmt(k int, n string) []v28Line {
	switch k {
	case 1:
		return []v28Line{{"\tv = g(v, " + n + ",", true, false}, {"\t\tX" + n + ")", true, false}}
	case 2:
		return []v28Line{{"\ts += `a", true, false}, {"b` + h(X" + n + ")", true, true}}
	case 3:
		return []v28Line{{"\tif v > " + n + " {", true, false}, {"\t\tv = X" + n + " // here", true, false}, {"\t}", false, false}}
	}
	return []v28Line{{"\tv = X" + n, true, false}}
}

func v28Text(lines []v28Line, d byte) string {
	var b strings.Builder
	for _, l := range lines {
		b.WriteString(strings.Replace(l.text, "X", string([]byte{d}), 1) + "\n")
	}
	return b.String()
}

// The lines mutation testing excludes, and the functions and files it names.
//
//v:bounds an update of a module with three functions in two files, one's name part of the other's; bodies of two statements (assignments, statements and raw strings over two lines, blocks; quick: one of a fixed kind) after no or blank lines or line or block comments, present in both versions or the old one only; any digit 1..9 in each statement before and after; lines only added, or only the signature changed; line or function scope; reduced or full mutations
//v:quick 150
//v:thorough 300
func VHMutated() {
	var lines [2][]v28Line
	mode := vChoose("mode", 4) // line scope, function scope, lines added, signature changed
	stay := true
	for i := range lines {
		k, gap := 0, 1
		if mode == 0 {
			if i == 0 || vThorough() {
				k = vChoose("statement", 4)
			}
			if i == 0 || vThorough() {
				gap = vChoose("gap", len(v28Gaps))
			} else {
				gap = vChoose("gap", 3)
			}
		}
		lines[i] = append(append([]v28Line{}, v28Gaps[gap]...), v28Stmt(k, strconv.Itoa(i+1))...)
	}
	if mode == 0 {
		stay = vBool("comments stay")
	}
	var old, upd [3]byte // F has two statements
	for i := range old {
		old[i], upd[i] = '0'+byte(vIntRange("old", 1, 9)), '0'+byte(vIntRange("new", 1, 9))
	}
	src := func(d [3]byte, gaps bool) (a, b string) {
		a = "package p\n\n// Doc\n// of F.\nfunc F(v int, s string) {\n"
		for i, ls := range lines {
			if !gaps {
				var c []v28Line
				for _, l := range ls {
					if l.code || l.text == "\t}" {
						c = append(c, l)
					}
				}
				ls = c
			}
			a += v28Text(ls, d[i])
		}
		a += "}\n\nfunc FG() int { return 1 }\n"
		b = "package p\n\nfunc (t *T) G() (v int) {\n\tv = " + string([]byte{d[2]}) + "\n\treturn\n}\n"
		return
	}
	oldA, oldB := src(old, true)
	newA, newB := src(upd, stay)
	added, sig := mode == 2, mode == 3
	if added || sig { // G only gets lines, or another signature
		old[2] = '1'
		upd[2] = '1'
		_, oldB = src(old, true)
		if vBool("short") {
			oldB = strings.Replace(oldB, "\tv = 1\n", "", 1)
		}
		if newB = strings.Replace(oldB, "\treturn\n", "\tv++\n\treturn\n", 1); sig {
			newB = strings.Replace(oldB, "(v int)", "(v uint)", 1)
		}
	}
	vNewFS(map[string]string{
		"/w/go.mod":       "module w\n\nrequire example.com/m0 v1.0.0\n",
		v28Old + "/go.mod": "module example.com/m0\n\ngo 1.20\n", v28Old + "/a.go": oldA, v28Old + "/b.go": oldB,
		v28New + "/go.mod": "module example.com/m0\n\ngo 1.20\n", v28New + "/a.go": newA, v28New + "/b.go": newB,
	})
	vDisk.mkdirs("/tmp")
	got, _, err := AnalyzeModuleChanges("/mc", false, "/w", []*ModuleChange{{Name: "example.com/m0", PriorVersion: "v1.0.0", NewVersion: "v1.1.0"}}, 0)
	if err != nil {
		return
	}
	changes := got["example.com/m0"]
	v28 = &v28Tool{}
	v28.out = "The mutation score is 0.500000 (1 passed, 2 failed, 0 duplicated, 0 skipped, total is 3)\n"
	byLine, fast := mode == 0, false
	if mode > 0 {
		byLine, fast = vBool("line scope"), vBool("fast")
	}
	before := vDisk.snapshot()
	res, err := RunMutationTesting("/g", "/mc", "/w", fast, byLine, false, changes, nil)
	vAssert("the sources are as before afterwards and no script is left", vSameFiles(before, vDisk.snapshot()))

	fLine := old[0] != upd[0] || old[1] != upd[1]
	gLine := old[2] != upd[2]
	inF, inG := fLine, gLine
	if !byLine {
		inG = inG || added
	}
	inG = inG || sig
	if !inF && !inG {
		vAssert("without lines to mutate the tool is not run", v28.runs == 0 && err == nil && res == MutationResult{})
		return
	}
	vAssert("the tool is run once in the project", v28.runs == 1 && v28.dir == "/w")
	if v28.runs != 1 {
		return
	}
	vAssert("the mutations are counted", err == nil && res.MutationCount == 3)
	for fn, in := range map[string]bool{"F": inF, "FG": false, "G": inG, "GG": false} {
		m, err := regexp.MatchString(v28.match, fn)
		vAssert("exactly the functions with changes are mutated", err == nil && m == in)
	}
	want := ""
	if inF {
		want += v28Old + "/a.go "
	}
	if inG {
		want += v28Old + "/b.go "
	}
	fs := strings.Join(v28.files, " ") + " "
	vAssert("exactly the files of these functions are mutated", fs == want || len(v28.files) == 2 && inF && inG && fs == v28Old+"/b.go "+v28Old+"/a.go ")
	vAssert("mutations are left out only when asked", (len(v28.off) > 0) == fast && len(v28.other) == 0)
	s, ok := v28.disk[v28.script]
	vAssert("the tool gets a script it can run", ok && v28.perm && strings.HasPrefix(s, "#!"))
	vAssert("the tool uses the caches in place", v28Has(v28.env, "GOPATH=/g") && v28Has(v28.env, "GOMODCACHE=/mc"))
	for p, d := range before {
		if p != v28Old+"/a.go" && p != v28Old+"/b.go" {
			vAssert("no other file is changed for the tool", v28.disk[p] == d)
		}
	}
	all := []v28Line{{"package p", true, false}, {}, {}, {}, {}}
	digits := []int{-1, -1, -1, -1, -1}
	for i, ls := range lines {
		for _, l := range ls {
			all = append(all, l)
			digits = append(digits, i)
		}
	}
	v28File("a.go", oldA, v28.disk[v28Old+"/a.go"], byLine && inF, 5, func(k int) (code, lit, changed bool) {
		if k >= len(all) {
			return
		}
		return all[k].code, all[k].lit, strings.Contains(all[k].text, "X") && old[digits[k]] != upd[digits[k]]
	})
	v28File("b.go", oldB, v28.disk[v28Old+"/b.go"], byLine && inG, 3, func(k int) (code, lit, changed bool) {
		return k == 3 || k == 4 && strings.Contains(oldB, "v = "), false, k == 3 && !sig
	})
	vReach("mutated")
}

// What the tool tells, and what tests it is to run.
//
//v:bounds two changed functions in two files; up to 2 (thorough: 3) tests, two perhaps of the same name, covering any of them through any of two callers; targeted or full tests; the tool succeeds with figures 0..99, fails with or without figures, or succeeds and tells none; a project of one or two modules
//v:quick 60
//v:thorough 300
func VHTests() {
	n := 2
	if vThorough() {
		n = 3
	}
	files := map[string]string{"/w/go.mod": "module w\n", "/m/a.go": "package p\n\nfunc F() {\n}\n\nfunc F2() {\n}\n", "/m/b.go": "package p\n\nfunc G() {\n}\n\nfunc G2() {\n}\n"}
	two := vBool("workspace")
	if two {
		files["/w/go.work"] = "go 1.20\n\nuse (\n\t.\n\t./sub\n)\n"
		files["/w/sub/go.mod"] = "module w/sub\n"
	}
	vNewFS(files)
	vDisk.mkdirs("/tmp")
	changes := []*ModuleFunction{
		{Function: Function{FilePath: "/m/a.go", PackageName: "p", FunctionName: "F", FunctionIdent: "p:F"}, LineChangeBitmap: []bool{true}},
		{Function: Function{FilePath: "/m/b.go", PackageName: "p", FunctionName: "G", FunctionIdent: "p:G"}, LineChangeBitmap: []bool{true}},
	}
	switch vChoose("two in a file", 3) {
	case 1:
		changes = append(changes, &ModuleFunction{Function: Function{FilePath: "/m/a.go", PackageName: "p", FunctionName: "F2", FunctionIdent: "p:F2"}, LineChangeBitmap: []bool{true}})
	case 2:
		changes = append(changes, &ModuleFunction{Function: Function{FilePath: "/m/b.go", PackageName: "p", FunctionName: "G2", FunctionIdent: "p:G2"}, LineChangeBitmap: []bool{true}})
	}
	cover := map[string]map[string]bool{"/m/a.go": {}, "/m/b.go": {}}
	var tests []*TestFunction
	targeted := vBool("targeted")
	for i := 0; i < n && targeted; i++ {
		name := "Test" + string([]byte{'A' + byte(i)})
		if i > 0 && vBool("same name") {
			name = "TestA"
		}
		t := &TestFunction{Function: Function{FunctionName: name}}
		for j := 0; j < 2; j++ {
			c := &CallerFunction{}
			for _, ch := range changes[:2] {
				if vBool("calls") {
					c.ChangeFunctions = append(c.ChangeFunctions, ch)
					cover[ch.FilePath][name] = true
				}
			}
			t.Targets = append(t.Targets, c)
		}
		tests = append(tests, t)
	}
	v28 = &v28Tool{}
	outcome := 0
	passed, failed, total := 1, 2, 3
	if !targeted {
		outcome = vChoose("outcome", 4)
		passed, failed, total = vIntRange("passed", 0, 99), vIntRange("failed", 0, 99), vIntRange("total", 0, 99)
	}
	two2 := func(n int) string { return string([]byte{'0' + byte(n/10), '0' + byte(n%10)}) }
	v28.out = "x\nThe mutation score is 0.5 (" + two2(passed) + " passed, " + two2(failed) + " failed, 4 duplicated, 5 skipped, total is " + two2(total) + ")\n"
	if outcome&1 > 0 {
		v28.err = errors.New("exit status 1")
	}
	if outcome >= 2 {
		v28.out = "nothing to tell\n"
	}
	before := vDisk.snapshot()
	res, err := RunMutationTesting("/g", "/mc", "/w", false, false, targeted, changes, tests)
	vAssert("the sources are as before afterwards and no script is left", vSameFiles(before, vDisk.snapshot()))
	vAssert("a tool that fails or tells nothing is an error", v28.runs == 1 && (err == nil) == (outcome == 0))
	if v28.runs != 1 {
		return
	}
	if err == nil {
		vAssert("the figures are the tool's", res.MutationCount == total && (res.SquashedCount == passed || res.SquashedCount == failed))
	}
	fs := strings.Join(v28.files, " ")
	vAssert("each file is mutated once", fs == "/m/a.go /m/b.go" || fs == "/m/b.go /m/a.go")
	script := v28.disk[v28.script]
	for _, l := range strings.Split(script, "\n") {
		if strings.HasPrefix(l, "PKGS=") {
			vAssert("tests of every module of the project are run", (l == "PKGS=\"./... ./sub/...\"") == two && (l == "PKGS=\"./...\"") == !two)
		}
	}
	for f, names := range cover {
		got := map[string]bool{}
		for _, l := range strings.Split(script, "\n") {
			i := strings.Index(l, f)
			if i < 0 {
				continue
			}
			for _, w := range strings.FieldsFunc(l[i+len(f):], func(r rune) bool { return !(r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z') }) {
				vAssert("a test is named once for a file", !got[w])
				got[w] = true
			}
		}
		same := len(got) == len(names)
		for w := range names {
			same = same && got[w]
		}
		vAssert("for each file exactly the tests covering a change in it are run", same)
	}
	vReach("done")
}

// What the script handed to the tool does with a mutation.
//
//v:bounds two files with changes, one of them covered by no or up to two tests, in targeted or full mode; a mutation of either; the tests pass, fail, do not compile or end with another code; putting the mutation in place fails in either step or not; time limit given or not, told to be verbose or not
//v:outside the script is run by an interpreter of the part of the shell language it uses
//v:quick 60
//v:thorough 120
func VHScript() {
	vNewFS(map[string]string{"/w/go.mod": "module w\n", "/m/a.go": "package p\n\nfunc F() {\n}\n", "/m/b.go": "package p\n\nfunc G() {\n}\n", "/tmp/mutant.go": "mutant"})
	changes := []*ModuleFunction{
		{Function: Function{FilePath: "/m/a.go", PackageName: "p", FunctionName: "F", FunctionIdent: "p:F"}, LineChangeBitmap: []bool{true}},
		{Function: Function{FilePath: "/m/b.go", PackageName: "p", FunctionName: "G", FunctionIdent: "p:G"}, LineChangeBitmap: []bool{true}},
	}
	targeted := vBool("targeted")
	names := [][]string{nil, {"TestA"}, {"TestA", "TestB"}}[vChoose("tests", 3)]
	tests := []*TestFunction{{Function: Function{FunctionName: "TestG"}, Targets: []*CallerFunction{{ChangeFunctions: changes[1:]}}}}
	for _, n := range names {
		tests = append(tests, &TestFunction{Function: Function{FunctionName: n}, Targets: []*CallerFunction{{ChangeFunctions: changes[:1]}}})
	}
	orig := "/m/a.go"
	if vBool("other file") {
		orig, names = "/m/b.go", []string{"TestG"}
	}
	result := vChoose("result", 4)
	fails := vChoose("fails", 3) // nothing, the first or the second step
	v28 = &v28Tool{out: "The mutation score is 0.5 (1 passed, 2 failed, 4 duplicated, 5 skipped, total is 3)\n"}
	vars := map[string]string{"MUTATE_ORIGINAL": orig, "MUTATE_CHANGED": "/tmp/mutant.go", "MUTATE_PACKAGE": "p"}
	limit := "30s"
	if vBool("limit") {
		vars["MUTATE_TIMEOUT"] = "7"
		limit = "7s"
	}
	if vBool("verbose") {
		vars["MUTATE_VERBOSE"] = "true"
	}
	src := vDisk.get(orig).data
	v28.hook = func() {
		steps, runs := 0, 0
		status, bad := vShRun(v28.disk[v28.script], vars, func(args []string, in string) (string, int) {
			switch {
			case args[0] == "diff":
				return "diff\n", 1
			case (args[0] == "mv" || args[0] == "cp") && len(args) == 3:
				steps++
				n := vDisk.get(args[1])
				if steps == fails || n == nil {
					if args[0] == "cp" {
						vDisk.set(args[2], &vNode{data: "half"})
					}
					return "", 1
				}
				vDisk.set(args[2], &vNode{data: n.data})
				if args[0] == "mv" {
					vDisk.del(args[1])
				}
				return "", 0
			case args[0] == "go" && args[1] == "test":
				runs++
				n := vDisk.get(orig)
				vAssert("the tests run with the mutation in place", n != nil && n.data == "mutant")
				vAssert("the tests run uncached and with a time limit", v28Has(args, "-count=1") && v28Has(args, "-timeout="+limit))
				vAssert("the tests of the project run", args[len(args)-1] == "./...")
				pattern := "."
				for i, a := range args {
					if a == "-run" {
						pattern = args[i+1]
					}
				}
				for _, name := range []string{"TestA", "TestB", "TestG", "TestAB", "XTestA"} {
					m, err := regexp.MatchString(pattern, name)
					vAssert("exactly the tests asked for run", err == nil && m == (!targeted || v28Has(names, name)))
				}
				return "output\n", result
			}
			return "", 127
		})
		if bad != "" {
			vObs("not interpreted", bad)
			return
		}
		vReach("interpreted")
		skip := targeted && len(names) == 0
		n, rest := vDisk.get(orig), vDisk.get(orig+".mbkp")
		vAssert("the file has its contents back and no copy is left", n != nil && n.data == src && rest == nil)
		switch {
		case skip || fails > 0:
			vAssert("a mutation no test can be run for is skipped", runs == 0 && status == 2)
		default:
			want := []int{1, 0, 2, 3}[result]
			vAssert("a mutation counts as detected exactly when the tests run and fail", runs == 1 && status == want)
		}
	}
	_, err := RunMutationTesting("/g", "/mc", "/w", false, false, targeted, changes, tests)
	vAssert("the tool is run", err == nil && v28.runs == 1)
}

// File operations that fail before the tool is run.
//
//v:bounds two changed functions in one or two files, mapped out by line or not; targeted or full tests; one file operation before the tool is run fails, cleanly or half way
//v:quick 60
//v:thorough 300
func VHFaults() {
	files := map[string]string{"/w/go.mod": "module w\n", "/m/a.go": "package p\n\nfunc F() {\n\ta()\n\tb()\n}\n\nfunc G() {\n\tc()\n}\n", "/m/b.go": "package p\n\nfunc H() {\n\td()\n\te()\n}\n"}
	if vBool("excluded before") {
		files["/m/a.go"] = strings.Replace(files["/m/a.go"], "\ta()", "\t// mutator-disable-next-line *\n\ta()", 1)
	}
	vNewFS(files)
	vDisk.mkdirs("/tmp")
	changes := []*ModuleFunction{{Function: Function{FilePath: "/m/a.go", PackageName: "p", FunctionName: "F", FunctionIdent: "p:F"}, LineChangeBitmap: []bool{false, true, false}}}
	if vBool("two files") {
		changes = append(changes, &ModuleFunction{Function: Function{FilePath: "/m/b.go", PackageName: "p", FunctionName: "H", FunctionIdent: "p:H"}, LineChangeBitmap: []bool{false, false, true}})
	} else {
		changes = append(changes, &ModuleFunction{Function: Function{FilePath: "/m/a.go", PackageName: "p", FunctionName: "G", FunctionIdent: "p:G"}, LineChangeBitmap: []bool{false, true}})
	}
	tests := []*TestFunction{{Function: Function{FunctionName: "TestA"}, Targets: []*CallerFunction{{ChangeFunctions: changes}}}}
	v28 = &v28Tool{out: "The mutation score is 0.5 (1 passed, 2 failed, 4 duplicated, 5 skipped, total is 3)\n"}
	byLine, targeted := vBool("line scope"), vBool("targeted")
	before := vDisk.snapshot()
	vDisk.budget = 1
	_, err := RunMutationTesting("/g", "/mc", "/w", false, byLine, targeted, changes, tests)
	faults := vDisk.faults
	vAssert("a failing file operation is an error and the tool is not run", (err != nil) == (faults > 0) && (v28.runs == 0) == (faults > 0))
	vAssert("the sources are as before afterwards and no script is left", vSameFiles(before, vDisk.snapshot()))
	if faults > 0 {
		vReach("failed")
	}
}

// v28File checks the source given to the tool against the original.
func v28File(name, orig, now string, scoped bool, first int, line func(k int) (code, lit, changed bool)) {
	off := map[int]bool{}
	var rest []string
	for _, l := range strings.Split(now, "\n") {
		if strings.HasPrefix(strings.TrimSpace(l), "// mutator-disable-next-line ") {
			off[len(rest)] = true
		} else {
			rest = append(rest, l)
		}
	}
	ol := strings.Split(orig, "\n")
	same := len(rest) == len(ol)
	for i := range rest {
		same = same && i < len(ol) && ol[i] == rest[i]
	}
	vAssert("the sources given to the tool are the original ones, but for comments", same)
	if !scoped {
		vAssert("nothing is excluded without line scope or in other functions", len(off) == 0)
		return
	}
	for k := range ol {
		if k < first {
			vAssert("nothing is excluded outside the function", !off[k])
			continue
		}
		code, lit, changed := line(k)
		switch {
		case lit:
			vAssert("nothing is put into a literal", !off[k])
		case code:
			vAssert("exactly the unchanged lines of code are excluded", off[k] == !changed)
		}
	}
}

func v28Has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}
