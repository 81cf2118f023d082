package lens

import (
	"context"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

//v:use lib_fs.go
//v:use lib_exec.go
//v:use lib_tmpl.go

func vstub_context__WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithCancel(parent)
}

const v10Src = "package p\n\nfunc A(x int) int {\n\treturn x\n}\n"

var errV10 = errors.New("injected failure")

// Whatever fails, and wherever, the project's go.mod and go.sum files are what
// they were, and the sources too.
//
//v:bounds a project of one or two modules (go.work), each with or without a go.sum, with or without a foreign go.mod.bkp; one caller function; 1 or 2 changed modules, indirect or not; extension hooks before and after the update that may fail; `go get` writes go.mod and go.sum, possibly creating the latter, and `go mod tidy` rewrites go.mod; at most one failing file operation, command or hook at any point of the analysis, cleanly or half done
//v:assume reading metadata does not fail; no test functions (test execution is another property's subject); go.mod is not a symlink
//v:outside the go command itself; go.work.sum; file modes; more than one failure; the one file whose own restoring operation fails
//v:quick 100
//v:thorough 600
func VHModFiles() {
	files := map[string]string{"/w/go.mod": "module w\n\ngo 1.21\n", "/w/p/a.go": v10Src}
	two := vBool("two modules")
	if two {
		files["/w/go.work"] = "go 1.21\n\nuse (\n\t.\n\t./m\n)\n"
		files["/w/m/go.mod"] = "module w/m\n\ngo 1.21\n"
		if vBool("sum of m") {
			files["/w/m/go.sum"] = "ms"
		}
	}
	if vBool("sum of root") {
		files["/w/go.sum"] = "ws"
	}
	if vBool("foreign") {
		files["/w/go.mod.bkp"] = "something else"
	}
	d := vNewFS(files)
	before := d.snapshot()
	d.budget = 1
	gets, posts := 0, 0
	vExecRun = func(c *exec.Cmd) error {
		if len(c.Args) < 2 || (c.Args[1] != "get" && c.Args[1] != "mod") {
			if d.fault("/-", false) != 0 {
				return errV10
			}
			return nil
		}
		vAssert("the project is updated with its sources as they were", d.faults > 0 || d.nodes["/w/p/a.go"].data == v10Src)
		if d.fault("/-", false) != 0 {
			return errV10
		}
		saved := d.budget
		d.budget = 0
		mod := filepath.Join(c.Dir, "go.mod")
		old, _ := os.ReadFile(mod)
		_ = os.WriteFile(mod, []byte(string(old)+strings.Join(append([]string{"go"}, c.Args[1:]...), " ")+"\n"), 0o644)
		if c.Args[1] == "get" {
			gets++
			_ = os.WriteFile(filepath.Join(c.Dir, "go.sum"), []byte("new"), 0o644)
		}
		d.budget = saved
		if d.fault("/-", false) != 0 {
			return errV10
		}
		return nil
	}
	hook := func(m *ASTModifier) (map[uint32]*string, error) {
		if d.fault("/-", false) != 0 {
			return nil, errV10
		}
		return nil, nil
	}
	changed := []*ModuleChange{{Name: "x.y/z", PriorVersion: "v1", NewVersion: "v2"}}
	if vBool("two changes") {
		changed[0].Indirect = vBool("indirect")
		changed = append(changed, &ModuleChange{Name: "x.y/t", PriorVersion: "v3", NewVersion: "v4"})
	}
	updated := func(mod string) bool {
		s := d.nodes[mod].data
		for _, c := range changed {
			if !strings.Contains(s, "go get "+c.Name+"@"+c.NewVersion+"\n") {
				return false
			}
		}
		return strings.HasSuffix(s, "go mod tidy\n")
	}
	post := func(m *ASTModifier) (map[uint32]*string, error) {
		posts++
		vAssert("the second run sees the updated module", updated("/w/go.mod"))
		if two {
			vAssert("the second run sees every module updated", updated("/w/m/go.mod"))
		}
		return hook(m)
	}
	callers := []*CallerFunction{{Function: Function{FilePath: "/w/p/a.go", PackageName: "p", FunctionIdent: "p:A", FunctionName: "A",
		ReturnPoints: nil}}}
	_, _, _, _, _, err := RunModuleUpdateAnalysis("/gp", "/gp/pkg/mod", "/w", 44000, NewMemStorage(), 3, 8,
		changed, nil, callers, nil, hook, post)
	d.budget = 0
	vAssert("a successful analysis ran the tests after the update", err != nil || posts == 1)
	vAssert("without a failure the analysis succeeds", err == nil || d.faults > 0)
	if err == nil {
		vReach("done")
	} else {
		vReach("failed")
	}
	after := d.snapshot()
	own := "" // the file whose own restoration failed, if any
	if d.moved || (err == nil && d.faults > 0) {
		own = d.failed
		if i := strings.Index(own, ".bkp"); i >= 0 {
			own = own[:i]
		}
	}
	for p, s := range before {
		vAssert("every original file is back with its contents", after[p] == s || (own != "" && strings.HasPrefix(p, own)))
	}
	for p := range after {
		_, ok := before[p]
		vAssert("nothing is left behind", ok || (own != "" && strings.HasPrefix(p, own)))
	}
}
