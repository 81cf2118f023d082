package lens

//v:use lib_fs.go
//v:use lib_exec.go
//v:use lib_tmpl.go

const v09A = "package p\n\nfunc A(x int) int {\n\tif x > 1 {\n\t\treturn 2\n\t}\n\treturn x\n}\n\nfunc A2() { println(1) }\n"
const v09B = "package p\n\nfunc B() string {\n\treturn \"b\"\n}\n"

func v09Func(file, name string) *Function {
	return &Function{FilePath: file, PackageName: "p", FunctionIdent: "p:" + name, FunctionName: name, ReturnPoints: []FunctionReturn{{Line: 5}}}
}

// After Restore the project is exactly as it was, wherever in the injection
// and commit an operation failed.
//
//v:bounds a package of two files, one possibly a symlink, with or without a foreign file at the backup's name; five edit sequences over {inject client, inject entry/panic/return points, insert lines, commit one file, commit all}; at most one failing file operation at any point before Restore, cleanly or half done; thorough: two rounds of edit and restore by the same modifier
//v:assume reading metadata does not fail; Restore's own operations succeed; the client template is short
//v:outside file modes; several failures
//v:quick 90
//v:thorough 600
func VHRestore() {
	files := map[string]string{"/w/p/a.go": v09A, "/w/p/b.go": v09B}
	if vBool("foreign") {
		files["/w/p/a.go.bkp"] = "something else"
	}
	link := vBool("link")
	if link {
		files["/o/b.go"] = v09B
		delete(files, "/w/p/b.go")
	}
	d := vNewFS(files)
	if link {
		d.nodes["/w/p/b.go"] = &vNode{link: "/o/b.go"}
	}
	before := d.snapshot()
	m := &ASTModifier{}
	rounds := 1
	if vThorough() {
		rounds = 2
	}
	d.budget, d.kinds = 1, true
	budget := 1
	for r := 0; r < rounds; r++ {
		d.budget, d.faults = budget, 0
		v09Edit(m)
		budget, d.budget = d.budget, 0
		if d.faults == 0 {
			vAssert("the instrumented file differs", d.nodes["/w/p/a.go"].data != v09A)
			vReach("edited")
		}
		errs := m.Restore(nil)
		vAssert("restore reports no error", len(errs) == 0)
		after := d.snapshot()
		for p, s := range before {
			vAssert("every original file is back with its contents", after[p] == s)
		}
		vAssert("nothing is left behind", len(after) == len(before))
	}
}

func v09Edit(m *ASTModifier) {
	if vBool("client") {
		if err := m.InjectASTClient("/w/p", 7, 3, 4); err != nil {
			return
		}
	}
	if _, err := m.InjectFuncPointEntry(v09Func("/w/p/a.go", "A")); err != nil {
		return
	}
	mode := vChoose("mode", 5)
	if mode == 1 { // two commits of the same file
		if m.CommitFile("/w/p/a.go") != nil {
			return
		}
		if _, err := m.InjectFuncPointPanic(v09Func("/w/p/a.go", "A2")); err != nil {
			return
		}
	}
	if mode == 2 {
		if _, err := m.InjectFuncPointEntry(v09Func("/w/p/b.go", "B")); err != nil {
			return
		}
	}
	if mode == 3 { // insertion of lines commits and writes the file
		if m.InsertFuncLines(v09Func("/w/p/a.go", "A"), func(i int, line string) (string, bool) { return "// x", i < 3 }) != nil {
			return
		}
	}
	if mode == 4 {
		if _, err := m.InjectFuncPointReturnStates(v09Func("/w/p/b.go", "B")); err != nil {
			return
		}
	}
	_ = m.Commit()
}

// A file that cannot be put back keeps no other file from being put back, and
// its contents are not lost.
//
//v:bounds a package of two files and the client, both files instrumented; one file operation of Restore failing (with an input/output error or a denied permission), at any point
//v:assume reading metadata does not fail; the client template is short
//v:outside file modes; several failures
//v:quick 60
//v:thorough 60
func VHRestoreFailure() {
	d := vNewFS(map[string]string{"/w/p/a.go": v09A, "/w/p/b.go": v09B})
	before := d.snapshot()
	m := &ASTModifier{}
	vAssert("the client is put in", !vBool("client") || m.InjectASTClient("/w/p", 7, 3, 4) == nil)
	names := [][2]string{{"/w/p/a.go", "A"}, {"/w/p/b.go", "B"}}
	if vBool("order") {
		names[0], names[1] = names[1], names[0]
	}
	for _, n := range names {
		_, err := m.InjectFuncPointEntry(v09Func(n[0], n[1]))
		vAssert("a point is put in", err == nil && m.CommitFile(n[0]) == nil)
	}
	d.budget, d.kinds = 1, true
	errs := m.Restore(nil)
	d.budget = 0
	vAssert("an error is reported exactly when something failed", (len(errs) > 0) == (d.faults > 0))
	after := d.snapshot()
	wrong := 0
	for p, s := range before {
		if after[p] == s {
			continue
		}
		wrong++
		vAssert("only what failed is not put back", d.faults > 0)
		kept := false
		for _, t := range after {
			kept = kept || t == s
		}
		vAssert("what could not be put back is still there", kept)
	}
	vAssert("everything else is put back", wrong <= 1)
	if d.faults > 0 {
		vReach("failed")
	}
}
