package lens

import (
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

//v:use lib_fs.go
//v:use lib_exec.go

// Packages are loaded from the files of the module's directory.
func vstub_golang_D_org_S_x_S_tools_S_go_S_packages__Load(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	var out []*packages.Package
	mod := strings.TrimPrefix(cfg.Dir, "/mc/")
	mod = mod[:strings.Index(mod, "@")]
	for _, sub := range []string{"", "/sub"} {
		var pkg *packages.Package
		for _, name := range []string{"a.go", "b.go"} {
			n := vDisk.get(cfg.Dir + sub + "/" + name)
			if n == nil {
				continue
			}
			if pkg == nil {
				pkg = &packages.Package{PkgPath: mod + sub, Fset: token.NewFileSet()}
				out = append(out, pkg)
			}
			f, err := parser.ParseFile(pkg.Fset, cfg.Dir+sub+"/"+name, n.data, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			pkg.Syntax = append(pkg.Syntax, f)
		}
	}
	return out, nil
}

type v18Fun struct {
	sub, file   string
	ident, name string
	src         string // with X for the digit
}

var v18Funs = []v18Fun{
	{"", "a.go", "F", "F", "func F() int {\n\treturn X\n}\n"},
	{"", "b.go", "*T.F", "F", "func (t *T) F() int {\n\treturn X\n}\n"},
	{"/sub", "a.go", "F", "F", "func F() int {\n\tv := 1\n\treturn v + X\n}\n"},
	{"", "a.go", "T.G", "G", "func (T) G() (a, b int) {\n\treturn 1, X\n}\n"},
}

// v18Module writes a version of a module; digits decides each function's
// definition, 0 leaving it out.
func v18Module(files map[string]string, name, ver, gomod string, digits []byte, doc bool) {
	dir := "/mc/" + name + "@" + ver
	files[dir+"/go.mod"] = "module " + name + "\n" + gomod
	for i, f := range v18Funs[:len(digits)] {
		p := dir + f.sub + "/" + f.file
		if files[p] == "" {
			files[p] = "package p\n"
		}
		if digits[i] == 0 {
			continue
		}
		if doc {
			files[p] += "\n// Comment of the function.\n"
		}
		src := strings.Replace(f.src, "X", string([]byte{digits[i]}), 1)
		if doc {
			src = strings.Replace(src, "{\n", "{\n\t// inner comment\n", 1)
		}
		files[p] += "\n" + src
	}
}

// The changed functions of an update.
//
//v:bounds a module with 3 (thorough: 4) functions and methods in several files and packages, each added, removed, or with any digit 0..9 in its body before and after; comments changed or not; the module listed once or twice
//v:quick 120
//v:thorough 300
func VHChanged() {
	n := 3
	if vThorough() {
		n = 4
	}
	files := map[string]string{"/w/go.mod": "module w\n\nrequire example.com/m0 v1.0.0\n"}
	doc := vBool("doc")
	old, upd := make([]byte, n), make([]byte, n)
	for i := range old {
		switch vChoose("kind", 3) {
		case 0:
			old[i], upd[i] = v18Digit("old"), v18Digit("new")
		case 1:
			old[i] = v18Digit("old")
		case 2:
			upd[i] = v18Digit("new")
		}
	}
	v18Module(files, "example.com/m0", "v1.0.0", "\ngo 1.20\n", old, false)
	v18Module(files, "example.com/m0", "v1.1.0", "\ngo 1.21\n", upd, doc)
	vNewFS(files)
	mc := &ModuleChange{Name: "example.com/m0", PriorVersion: "v1.0.0", NewVersion: "v1.1.0"}
	changes := []*ModuleChange{mc}
	if n == 3 && vBool("twice") {
		changes = append(changes, &ModuleChange{Name: "example.com/m0", PriorVersion: "v1.0.0", NewVersion: "v1.1.0"})
	}
	got, _, err := AnalyzeModuleChanges("/mc", vBool("transitive"), "/w", changes, 1)
	vAssert("the change is analysed", err == nil)
	if err != nil {
		return
	}
	fs, ok := got["example.com/m0"]
	vAssert("the module counts as checked", ok && len(got) == 1)
	vAssert("the module's Go version is the oldest", mc.GoVersion == "1.20")
	want := 0
	for i, f := range v18Funs[:n] {
		var hit []*ModuleFunction
		ident := "example.com/m0" + f.sub + ":" + f.ident
		for _, g := range fs {
			if g.FunctionIdent == ident {
				hit = append(hit, g)
			}
		}
		changed := old[i] != 0 && upd[i] != 0 && old[i] != upd[i]
		if !changed {
			vAssert("functions that did not change are not analysed", len(hit) == 0)
			continue
		}
		want++
		vAssert("every changed function is analysed once", len(hit) == 1)
		if len(hit) != 1 {
			continue
		}
		h := hit[0]
		src := strings.TrimSuffix(strings.Replace(f.src, "X", string([]byte{old[i]}), 1), "\n")
		vAssert("a changed function is known with its old definition and place", h.Definition == src && h.FunctionName == f.name &&
			h.PackageName == "example.com/m0"+f.sub && h.FilePath == "/mc/example.com/m0@v1.0.0"+f.sub+"/"+f.file && h.Module.Name == "example.com/m0")
		lines := strings.Split(f.src, "\n")
		ok := len(h.LineChangeBitmap) == len(lines)-1
		vAssert("every line of the definition is marked or not", ok)
		if ok {
			for k, l := range lines[:len(lines)-1] {
				vAssert("exactly the changed line is marked, besides those where comments are put", h.LineChangeBitmap[k] == strings.Contains(l, "X") || doc && h.LineChangeBitmap[k])
			}
		}
	}
	vAssert("nothing else is analysed", len(fs) == want)
}

func v18Digit(name string) byte { return '0' + byte(vIntRange(name, 0, 9)) }

// v18Count is the number of functions of module m.
func v18Count(m int) int {
	if m == 1 {
		return 3 // in two packages
	}
	return 1
}

// Which modules an update with its transitive changes covers.
//
//v:bounds three modules of one or three functions; the updated one and its dependencies require each other in any versions out of 1..2 or not at all; the project requires each dependency in version 1 or 2 or not (quick: not both in version 2); a required version may be missing on disk (quick: only if the project requires both in version 1); all iteration orders of the dependencies
//v:quick 150
//v:thorough 300
func VHTransitive() {
	names := []string{"example.com/m0", "example.com/m1", "example.com/m2"}
	files := map[string]string{}
	// req[m][v][d]: version of d required by version v of m, 0 none
	var req [3][2][3]int
	for m := range names {
		for v := 0; v < 2; v++ {
			for d := range names {
				if d == m || d == 0 && m != 2 {
					continue
				}
				if v == 1 {
					if req[m][v][d] = vChoose("new requires", 3); d == 0 && !vThorough() && req[m][v][d] == 1 {
						return
					}
				} else if m == 0 && (d == 1 || vThorough()) && vBool("old requires same") {
					req[m][v][d] = 1
				}
			}
		}
	}
	proj := [3]int{1, vChoose("project has m1", 3), 0}
	if proj[2] = vChoose("project has m2", 3); !vThorough() && proj[1] == 2 && proj[2] == 2 {
		return
	}
	gm := "module w\n"
	for d, v := range proj {
		if v > 0 {
			gm += "\nrequire " + names[d] + " v1." + strconv.Itoa(v) + ".0\n"
		}
	}
	files["/w/go.mod"] = gm
	missing := 2 // m2 version 2, m1 version 2, none
	if vThorough() || proj[1] == 1 && proj[2] == 1 {
		missing = vChoose("missing", 3)
	}
	for m, name := range names {
		for v := 0; v < 2; v++ {
			if v == 1 && (missing == 0 && m == 2 || missing == 1 && m == 1) {
				continue
			}
			s := ""
			for d, r := range req[m][v] {
				if r > 0 {
					s += "\nrequire " + names[d] + " v1." + strconv.Itoa(r) + ".0\n"
				}
			}
			v18Module(files, name, "v1."+strconv.Itoa(v+1)+".0", s, []byte{'1' + byte(v), '1' + byte(v), '1' + byte(v)}[:v18Count(m)], false)
		}
	}
	vNewFS(files)
	got, _, err := AnalyzeModuleChanges("/mc", true, "/w", []*ModuleChange{{Name: names[0], PriorVersion: "v1.1.0", NewVersion: "v1.2.0"}}, 0)
	// modules reached by changed requirements of versions the project does not
	// use, level by level: the version required closer to the update counts
	reached := [3]int{2}
	for level := []int{0}; len(level) > 0; {
		var next [3]int
		for _, m := range level {
			for d := range names {
				r, was := req[m][reached[m]-1][d], req[m][proj[m]-1][d]
				if r == 0 || r == was || proj[d] == 0 || r == proj[d] || reached[d] > 0 {
					continue
				}
				if next[d] > 0 && next[d] != r {
					return // either would do
				}
				next[d] = r
			}
		}
		level = nil
		for d, r := range next {
			if r > 0 {
				reached[d] = r
				level = append(level, d)
			}
		}
	}
	// both versions of an analysed module are needed
	bad := missing == 0 && reached[2] > 0 || missing == 1 && reached[1] > 0
	vAssert("a version missing on disk is an error, if needed", (err != nil) == bad)
	if err != nil {
		return
	}
	vReach("analysed")
	for m, name := range names {
		fs := got[name]
		in := reached[m] > 0
		vAssert("exactly the modules the update changes are analysed, once", len(fs) == v18Count(m) && in || len(fs) == 0 && !in)
		vAssert("a module is analysed from the version in use to the one the update brings", !in || len(fs) == 0 || fs[0].Module.Name == name && fs[0].Module.PriorVersion == "v1."+strconv.Itoa(proj[m])+".0" && fs[0].Module.NewVersion == "v1."+strconv.Itoa(reached[m])+".0")
	}
}

// Where the files of a module version are.
//
//v:bounds module paths and versions (pre-releases) that end in any two letters or digits; the version's directory present or not, or a file
//v:quick 30
//v:thorough 120
func VHCache() {
	tail := func(name string) (string, string) {
		var plain, esc []byte
		for k := 0; k < 2; k++ {
			c := vU8(name)
			switch vChoose("kind", 3) {
			case 0:
				vAssume(c >= 'a' && c <= 'z')
				esc = append(esc, c)
			case 1:
				vAssume(c >= 'A' && c <= 'Z')
				esc = append(esc, '!', c+32) // capital letters are written so in the cache
			case 2:
				vAssume(c >= '1' && c <= '9')
				esc = append(esc, c)
			}
			plain = append(plain, c)
		}
		return string(plain), string(esc)
	}
	mod, modEsc := tail("module")
	ver, verEsc := tail("version")
	dir := "/mc/example.com/x" + modEsc + "@v1.2.3-x" + verEsc
	files := map[string]string{"/mc/example.com/other@v1.0.0/go.mod": "module example.com/other\n"}
	have := vChoose("there", 3)
	switch have {
	case 1:
		files[dir] = "a file"
	case 2:
		files[dir+"/go.mod"] = "module example.com/x" + mod + "\n"
	}
	vNewFS(files)
	got, err := FindModulePathInCache("/mc", "example.com/x"+mod, "v1.2.3-x"+ver)
	vAssert("a version is found exactly if its directory is there", (err == nil) == (have == 2))
	vAssert("the directory is that of the version", err != nil || got == dir)
}

// Which lines of a definition count as changed.
//
//v:bounds definitions of up to 3 (thorough: 4) lines on either side, every line one of two letters; neighbourhood 0..2
//v:quick 60
//v:thorough 300
func VHBitmap() {
	max := 3
	if vThorough() {
		max = 4
	}
	def := func(tag string) []string {
		n := 1 + vChoose(tag+" lines", max)
		out := make([]string, n)
		for i := range out {
			out[i] = string([]byte{'a' + byte(vChoose(tag, 2))})
		}
		return out
	}
	old, upd := def("old"), def("new")
	radius := vChoose("radius", 3)
	bm := computeChangeLineBitmap(strings.Join(old, "\n"), strings.Join(upd, "\n"), false, radius)
	vAssert("every line of the old definition is marked or not", len(bm) == len(old))
	nm := computeChangeLineBitmap(strings.Join(old, "\n"), strings.Join(upd, "\n"), true, radius)
	vAssert("every line of the new definition is marked or not", len(nm) == len(upd))
	same := strings.Join(old, "\n") == strings.Join(upd, "\n")
	any, anyNew := false, false
	var keptOld, keptNew []string
	for i, b := range bm {
		any = any || b
		if !b {
			keptOld = append(keptOld, old[i])
		}
	}
	for i, b := range nm {
		anyNew = anyNew || b
		if !b {
			keptNew = append(keptNew, upd[i])
		}
	}
	vAssert("equal definitions have no changed line", !same || !any && !anyNew)
	vAssert("lines not marked occur in the other version, in order", v18Sub(keptOld, upd) && v18Sub(keptNew, old))
	if radius == 0 {
		vAssert("without neighbourhood, the lines not marked are those in common", strings.Join(keptOld, "") == strings.Join(keptNew, ""))
	} else if !same {
		vAssert("with a neighbourhood, a change marks some line", any)
	}
	if radius > 0 {
		b0 := computeChangeLineBitmap(strings.Join(old, "\n"), strings.Join(upd, "\n"), false, 0)
		for i := range b0 {
			vAssert("a neighbourhood only adds lines", !b0[i] || bm[i])
		}
	}
}

func v18Sub(a, b []string) bool {
	i := 0
	for _, x := range b {
		if i < len(a) && a[i] == x {
			i++
		}
	}
	return i == len(a)
}

var _ ast.Node
