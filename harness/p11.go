package lens

import (
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"
	"sync"
)

//v:use lib_fs.go
//v:use lib_exec.go
//v:use lib_tmpl.go

func vstub_lens__newDefaultStripedMutex() *stripedMutex { return newStripedMutex(7) }

// Point ids are never zero, never given twice, and run out with an error.
//
//v:bounds two (thorough: three) concurrent requesters of two ids each; the counter starts fresh, after 0..2 ids or within 3 of its limit; all interleavings with up to 2 preemptions at synchronisation
func VHPointIds() {
	m := &ASTModifier{}
	start := uint32(0)
	switch vChoose("start", 3) {
	case 1:
		start = 2 + uint32(vChoose("used", 3))
	case 2:
		start = ^uint32(0) - uint32(vChoose("left", 4))
	}
	m.currPointId.Store(start)
	n := 2
	if vThorough() {
		n = 3
	}
	type res struct {
		id  uint32
		err error
	}
	out := make([]res, 2*n)
	var wg sync.WaitGroup
	vSched(2, false)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 2; j++ {
				id, err := m.nextPointId()
				out[2*i+j] = res{id, err}
			}
		}()
	}
	wg.Wait()
	vSchedOff()
	free := 2 * n
	if start != 0 && uint64(^uint32(0))-uint64(start) < uint64(free) {
		free = int(^uint32(0) - start)
		vReach("exhausted")
	}
	given := 0
	for i, r := range out {
		if r.err != nil {
			vAssert("ids run out only at the limit", free < 2*n)
			continue
		}
		given++
		vAssert("an id is not zero", r.id != 0)
		vAssert("an id is new", start == 0 || r.id >= start)
		for _, q := range out[:i] {
			vAssert("ids are distinct", q.err != nil || q.id != r.id)
		}
	}
	vAssert("every free id is given", given == free)
}

var v11Files = map[string]string{
	"/w/p/a.go": "package p\n\nfunc A(x int) int {\n\treturn x\n}\n\nfunc A2() {\n\tprintln(1)\n}\n",
	"/w/p/b.go": "package p\n\ntype T struct{}\n\nfunc (t *T) B() string {\n\treturn \"b\"\n}\n",
	"/w/q/c.go": "package q\n\nfunc C() (int, error) {\n\treturn 1, nil\n}\n",
	"/m/x/x.go": "package x\n\nfunc X() int {\n\treturn 1\n}\n\nfunc Y() {\n}\n",
	"/m/x/z.go": "package x\n\nfunc Z() {\n}\n",
}

type v11Fn struct {
	file, pkg, ident, name string
}

var v11Callers = []v11Fn{{"/w/p/a.go", "p", "p:A", "A"}, {"/w/p/a.go", "p", "p:A2", "A2"}, {"/w/p/b.go", "p", "p:*T.B", "B"}, {"/w/q/c.go", "q", "q:C", "C"}}
var v11Mods = []v11Fn{{"/m/x/x.go", "x", "x:X", "X"}, {"/m/x/x.go", "x", "x:Y", "Y"}, {"/m/x/z.go", "x", "x:Z", "Z"}}

// v11Points lists the points in the function's source by kind of call.
func v11Points(f v11Fn) map[string][]uint32 {
	out := map[string][]uint32{}
	file, err := parser.ParseFile(token.NewFileSet(), f.file, vDisk.nodes[f.file].data, 0)
	vAssert("instrumented source parses", err == nil)
	if err != nil {
		return out
	}
	for _, d := range file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Name.Name != f.name {
			continue
		}
		ast.Inspect(fd, func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return true
			}
			id, ok := c.Fun.(*ast.Ident)
			if !ok || !strings.HasPrefix(id.Name, "sendLens") {
				return true
			}
			v, err := strconv.ParseUint(c.Args[0].(*ast.BasicLit).Value, 10, 32)
			vAssert("point ids are numbers", err == nil)
			out[id.Name] = append(out[id.Name], uint32(v))
			return true
		})
	}
	return out
}

// v11Same: ids in the source are those the map has for the function.
func v11Same(ids []uint32, m map[uint32]*string, ident string) bool {
	n := 0
	for _, p := range m {
		if *p == ident {
			n++
		}
	}
	if n != len(ids) {
		return false
	}
	for _, id := range ids {
		if p := m[id]; p == nil || *p != ident {
			return false
		}
	}
	return true
}

func v11Check(sel []bool, panics []bool, msel []bool, mpanics []bool, state, pan, ent, mpan map[uint32]*string) {
	seen := map[uint32]bool{}
	for _, m := range []map[uint32]*string{state, pan, ent, mpan} {
		for id := range m {
			vAssert("a point id is not zero and belongs to one point", id != 0 && !seen[id])
			seen[id] = true
		}
	}
	for i, f := range v11Callers {
		pts := v11Points(f)
		s, r := pts["sendLensPointStateMessage"], pts["sendLensPointRecoveryMessage"]
		if sel[i] && !panics[i] {
			vAssert("a calling function reports its state and panics", len(s) >= 1 && len(r) == 1)
		} else {
			vAssert("other functions are left alone", len(s) == 0 && len(r) == 0 && len(pts["sendLensPointMessage"]) == 0)
		}
		vAssert("state points are known under their function", v11Same(s, state, f.ident))
		vAssert("panic points are known under their function", v11Same(r, pan, f.ident))
	}
	for i, f := range v11Mods {
		pts := v11Points(f)
		s, r := pts["sendLensPointMessage"], pts["sendLensPointRecoveryMessage"]
		if msel[i] {
			vAssert("a changed module function reports its entry, and its panics unless it always panics", len(s) == 1 && (len(r) == 1) == !mpanics[i])
		} else {
			vAssert("other module functions are left alone", len(s) == 0 && len(r) == 0)
		}
		vAssert("entry points are known under their function", v11Same(s, ent, f.ident))
		vAssert("module panic points are known under their function", v11Same(r, mpan, f.ident))
	}
}

func v11Select(name string, fns []v11Fn) (sel, pan []bool, order []int) {
	sel, pan = make([]bool, len(fns)), make([]bool, len(fns))
	for i := range fns {
		if sel[i] = vBool(name); sel[i] {
			order = append(order, i)
		}
	}
	if len(order) > 0 {
		pan[order[vChoose(name+" panics", len(order))]] = vBool(name + " panic")
		k := vChoose(name+" first", len(order))
		order[0], order[k] = order[k], order[0]
	}
	return
}

func v11Run(sel, pan []bool, order []int, msel, mpan []bool, morder []int) {
	var callers []*CallerFunction
	for _, i := range order {
		f := v11Callers[i]
		callers = append(callers, &CallerFunction{Function: Function{FilePath: f.file, PackageName: f.pkg, FunctionIdent: f.ident, FunctionName: f.name, ReturnPanic: pan[i]}})
	}
	var mods []*ModuleFunction
	for _, i := range morder {
		f := v11Mods[i]
		mods = append(mods, &ModuleFunction{Function: Function{FilePath: f.file, PackageName: f.pkg, FunctionIdent: f.ident, FunctionName: f.name, ReturnPanic: mpan[i]}})
	}
	m := &ASTModifier{}
	state, pn, ent, mpn, _, err := injectMonitorPoints(m, 3, 8, mods, callers, nil, nil)
	vAssert("injection succeeds", err == nil)
	if err != nil {
		return
	}
	vAssert("commit succeeds", m.Commit() == nil)
	v11Check(sel, pan, msel, mpan, state, pn, ent, mpn)
	for i, f := range v11Callers {
		if sel[i] && !pan[i] {
			n := 0
			for p := range vDisk.nodes {
				if strings.HasPrefix(p, f.file[:strings.LastIndex(f.file, "/")]+"/"+injectedFilenamePrefix) {
					n++
				}
			}
			vAssert("the client is in every package with points", n == 2)
		}
	}
}

// Exactly the requested functions get points, and every point in the sources is
// known under the function that contains it.
//
//v:bounds any subset of 4 project functions in 3 files of 2 packages, in orders with any first element, one of them possibly a function that always panics; any subset of 3 module functions in 2 files
//v:quick 90
//v:thorough 300
func VHInject() {
	vNewFS(v11Files)
	sel, pan, order := v11Select("caller", v11Callers)
	msel, mpan := make([]bool, 3), make([]bool, 3)
	var morder []int
	if vThorough() || len(order) <= 1 {
		msel, mpan, morder = v11Select("module", v11Mods)
	}
	v11Run(sel, pan, order, msel, mpan, morder)
}

// Injection does the same whatever the interleaving of the files' edits.
//
//v:bounds two or three functions in two files of one package, or in two packages; all interleavings in which a switch happens where a goroutine waits, ends or is in the middle of writing a file (thorough: and 1 preemption elsewhere)
//v:quick 60
//v:thorough 300
func VHInjectConcurrent() {
	d := vNewFS(v11Files)
	d.slow = true
	sel, pan := make([]bool, 4), make([]bool, 4)
	order := [][]int{{0, 2}, {2, 3}}[vChoose("functions", 2)]
	if vThorough() {
		order = [][]int{{0, 2}, {2, 3}, {0, 1, 2}, {0, 2, 3}}[vChoose("tfunctions", 4)]
	}
	for _, i := range order {
		sel[i] = true
	}
	pre := 0
	if vThorough() {
		pre = 1
	}
	vSched(pre, false)
	v11Run(sel, pan, order, make([]bool, 3), make([]bool, 3), nil)
	vSchedOff()
}

var v11Small = map[string]string{
	"/w/p/a.go": "package p\n\nfunc A() {\n}\n\nfunc A2() {\n}\n",
	"/w/p/b.go": "package p\n\nfunc B() {\n}\n",
}

// Pending edits of several files are all written and put back.
//
//v:bounds two files with a pending edit each, written at once; all interleavings with up to 1 (thorough: 2) preemption at synchronisation, and switches while a file is being written
//v:quick 60
//v:thorough 200
func VHCommitAll() {
	d := vNewFS(v11Small)
	d.slow = true
	before := d.snapshot()
	m := &ASTModifier{}
	for _, f := range []v11Fn{v11Callers[0], {"/w/p/b.go", "p", "p:B", "B"}} {
		_, err := m.InjectFuncPointEntry(&Function{FilePath: f.file, PackageName: f.pkg, FunctionIdent: f.ident, FunctionName: f.name})
		vAssert("injection succeeds", err == nil)
	}
	pre := 1
	if vThorough() {
		pre = 2
	}
	vSched(pre, false)
	err := m.Commit()
	vSchedOff()
	vAssert("commit succeeds", err == nil)
	for _, f := range []v11Fn{v11Callers[0], {"/w/p/b.go", "p", "p:B", "B"}} {
		vAssert("the function has its point", len(v11Points(f)["sendLensPointMessage"]) == 1)
	}
	vAssert("restoring reports no error", len(m.Restore(nil)) == 0)
	vAssert("every file is as before", vSameFiles(before, d.snapshot()))
}

// Points put in by several users of one modifier are all there, and all of
// the originals come back.
//
//v:bounds two concurrent users of one modifier, each putting an entry or panic point into a function of the same or of another file and committing that file (thorough: or everything); all interleavings with up to 1 preemption at synchronisation, and switches while a file is being written
//v:quick 60
//v:thorough 300
func VHModifierConcurrent() {
	d := vNewFS(v11Small)
	d.slow = true
	before := d.snapshot()
	m := &ASTModifier{}
	fns := []v11Fn{v11Callers[0], v11Callers[1]}
	if vBool("other file") {
		fns[1] = v11Fn{"/w/p/b.go", "p", "p:B", "B"}
	}
	kind := []int{vChoose("point", 2), vChoose("point", 2)}
	all := vThorough() && vBool("commit all")
	ids := make([]uint32, 2)
	var wg sync.WaitGroup
	vSched(1, false)
	for i, f := range fns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fn := &Function{FilePath: f.file, PackageName: f.pkg, FunctionIdent: f.ident, FunctionName: f.name}
			inject := m.InjectFuncPointEntry
			if kind[i] == 1 {
				inject = m.InjectFuncPointPanic
			}
			id, err := inject(fn)
			vAssert("injection succeeds", err == nil)
			ids[i] = id
			if all {
				err = m.Commit()
			} else {
				err = m.CommitFile(f.file)
			}
			vAssert("commit succeeds", err == nil)
		}()
	}
	wg.Wait()
	vSchedOff()
	vAssert("ids differ", ids[0] != ids[1] && ids[0] != 0 && ids[1] != 0)
	for i, f := range fns {
		pts := v11Points(f)
		has := append(pts["sendLensPointMessage"], pts["sendLensPointRecoveryMessage"]...)
		vAssert("the function has its point", len(has) == 1 && has[0] == ids[i])
		vAssert("the point is of the wanted kind", len(pts["sendLensPointMessage"]) == 1-kind[i])
	}
	vReach("instrumented")
	vAssert("restoring reports no error", len(m.Restore(nil)) == 0)
	vAssert("every file is as before", vSameFiles(before, d.snapshot()))
}
