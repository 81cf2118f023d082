package lens

import (
	"errors"
	"go/ast"
	"go/build"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

//v:use lib_fs.go

var v25Graph *callgraph.Graph

// The call graph is what the analysis of the Go tools found.
func vstub_lens__LoadProjectCallGraph(projectDir, gopath, gomodcache string, includeTests bool) (*callgraph.Graph, *ssa.Program, []*packages.Package, []*packages.Package, error) {
	return v25Graph, nil, nil, nil, nil
}

func vstub_go_S_build__Context__MatchFile(c *build.Context, dir, name string) (bool, error) {
	if strings.Contains(name, "unreadable") {
		return false, errors.New("cannot read " + name)
	}
	return !strings.Contains(name, "windows"), nil
}

// v25Set sets an unexported field of a type of the Go tools.
func v25Set(p any, field string, val any) {
	v := reflect.ValueOf(p).Elem()
	i := 0
	for v.Type().Field(i).Name != field {
		i++
	}
	f := v.Field(i)
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(val))
}

type v25Prog struct {
	fset  *token.FileSet
	prog  *ssa.Program
	graph *callgraph.Graph
	nodes []*callgraph.Node
	edge  [][]bool // [caller][callee]
}

func v25New() *v25Prog {
	fset := token.NewFileSet()
	return &v25Prog{fset: fset, prog: &ssa.Program{Fset: fset}, graph: &callgraph.Graph{Nodes: map[*ssa.Function]*callgraph.Node{}}}
}

var v25Testing = types.NewPackage("testing", "testing")

func v25Ptr(p *types.Package, name string) types.Type {
	return types.NewPointer(types.NewNamed(types.NewTypeName(0, p, name, nil), types.NewStruct(nil, nil), nil))
}

// fn makes a function declared on line 3 of a file of its own.
func (p *v25Prog) fn(pkg, pkgName, file, name, recv string, syntax ast.Node, params ...types.Type) *ssa.Function {
	f := &ssa.Function{Prog: p.prog}
	if pkg != "" {
		f.Pkg = &ssa.Package{Pkg: types.NewPackage(pkg, pkgName)}
	}
	tf := p.fset.AddFile(file, p.fset.Base(), 60)
	tf.SetLines([]int{0, 10, 20, 30, 40, 50})
	v25Set(f, "name", name)
	v25Set(f, "pos", tf.Pos(25))
	if syntax == nil {
		d := &ast.FuncDecl{Name: &ast.Ident{Name: name}, Type: &ast.FuncType{Params: &ast.FieldList{}}}
		if len(params) > 0 {
			d.Type.Params.List = []*ast.Field{{Type: &ast.Ident{Name: "x"}}}
		}
		if recv != "" {
			var t ast.Expr = &ast.Ident{Name: strings.TrimPrefix(recv, "*")}
			if recv[0] == '*' {
				t = &ast.StarExpr{X: t}
			}
			d.Recv = &ast.FieldList{List: []*ast.Field{{Type: t}}}
		}
		syntax = d
	}
	v25Set(f, "syntax", syntax)
	var vs []*types.Var
	for _, t := range params {
		vs = append(vs, types.NewVar(0, nil, "p", t))
	}
	var rv *types.Var
	if recv != "" {
		rv = types.NewVar(0, nil, "r", types.Typ[types.Int])
	}
	f.Signature = types.NewSignatureType(rv, nil, nil, types.NewTuple(vs...), nil, false)
	return f
}

func (p *v25Prog) add(f *ssa.Function) int {
	n := &callgraph.Node{Func: f, ID: len(p.nodes)}
	p.nodes = append(p.nodes, n)
	p.graph.Nodes[f] = n
	return n.ID
}

func (p *v25Prog) call(from, to int) {
	e := &callgraph.Edge{Caller: p.nodes[from], Callee: p.nodes[to]}
	p.nodes[from].Out = append(p.nodes[from].Out, e)
	p.nodes[to].In = append(p.nodes[to].In, e)
	p.edge[from][to] = true
}

func (p *v25Prog) edges() {
	p.edge = make([][]bool, len(p.nodes))
	for i := range p.edge {
		p.edge[i] = make([]bool, len(p.nodes))
	}
}

// above tells from which functions one can be reached without passing through a root.
func (p *v25Prog) above(to int, root []bool) []bool {
	out := make([]bool, len(p.nodes))
	out[to] = true
	for range p.nodes {
		for i := range p.nodes {
			for j := range p.nodes {
				if p.edge[i][j] && out[j] && !root[j] {
					out[i] = true
				}
			}
		}
	}
	return out
}

// Exactly the project functions that may lead to a change are found.
//
//v:bounds 4 functions with up to 9 (thorough: 10) call edges in any combination (cycles included); 2 changed module functions, one project function, and one function of 13 kinds; the project directory plain or with a dot segment
//v:assume the call graph of the Go tools is given
//v:quick 100
//v:thorough 400
func VHCallers() {
	vNewFS(map[string]string{"/p/go.mod": ""})
	p := v25New()
	a := p.add(p.fn("m", "m", "/c/m/a.go", "A", "", nil))
	b := p.add(p.fn("m", "m", "/c/m/b.go", "B", "*T", nil))
	f := p.add(p.fn("w/q", "q", "/p/q/f.go", "F", "", nil))
	kind := vChoose("kind", 13)
	var x int
	ident := ""
	found, root, bad := false, false, false
	switch kind {
	case 0:
		x, ident, found = p.add(p.fn("w", "w", "/p/g.go", "G", "", nil)), "w:G", true
	case 1:
		x, ident, found = p.add(p.fn("w/q", "q", "/p/q/f.go", "F", "*T", nil)), "w/q:*T.F", true
	case 2:
		x = p.add(p.fn("w", "w", "/p/g.go", "G$1", "", &ast.FuncLit{}))
	case 3:
		x, root = p.add(p.fn("w", "main", "/p/main.go", "main", "", nil)), true
	case 4:
		x, root = p.add(p.fn("w", "w", "/p/g.go", "init", "", nil)), true
	case 5:
		x = p.add(p.fn("w", "w", "/p/g.pb.go", "G", "", nil))
	case 6:
		x = p.add(p.fn("w", "w", "/p/g_windows.go", "G", "", nil))
	case 7:
		x = p.add(p.fn("n", "n", "/c/n/g.go", "G", "", nil))
	case 8:
		x = p.add(p.fn("w2", "w2", "/p2/g.go", "G", "", nil))
	case 9:
		x = p.add(p.fn("", "", "/p/g.go", "G", "", nil))
	case 10:
		x, bad = p.add(p.fn("w", "w", "/p/unreadable.go", "G", "", nil)), true
	case 11: // no main function
		x, ident, found = p.add(p.fn("w", "w", "/p/g.go", "main", "", nil)), "w:main", true
	case 12: // a helper of tests
		x, ident, found = p.add(p.fn("w", "w", "/p/g_test.go", "helper", "", nil)), "w:helper", true
	}
	p.edges()
	all := [][2]int{{f, a}, {f, b}, {f, x}, {x, a}, {x, b}, {x, f}, {b, a}, {b, x}, {a, f}, {b, f}}
	if !vThorough() {
		all = all[:9]
	}
	for _, e := range all {
		if vBool("edge") {
			p.call(e[0], e[1])
		}
	}
	v25Graph = p.graph
	changes := []*ModuleFunction{{Function: Function{FunctionIdent: "m:Gone"}}, {Function: Function{FunctionIdent: "m:A"}}}
	ids := []int{-1, a}
	if vBool("b changes") {
		changes = append(changes, &ModuleFunction{Function: Function{FunctionIdent: "m:*T.B"}})
		ids = append(ids, b)
	}
	roots := []bool{false, false, false, root}
	want := map[int][]*ModuleFunction{}
	fails := false
	reach := 0
	for i, c := range changes {
		if ids[i] < 0 {
			continue
		}
		up := p.above(ids[i], roots)
		if up[f] {
			want[f] = append(want[f], c)
		}
		if up[x] && found {
			want[x] = append(want[x], c)
		}
		if up[f] || up[x] && found {
			reach++
		}
		fails = fails || up[x] && bad
	}
	dir := "/p"
	if kind == 0 {
		dir = []string{"/p", "/p/./"}[vChoose("dir", 2)]
	}
	got, reachable, _, _, _, err := CallerStaticAnalysis(changes, dir, "/g", "/c")
	vAssert("an error is returned exactly when a file could not be read", (err != nil) == fails)
	if err != nil {
		return
	}
	vAssert("as many functions are found as lead to a change", len(got) == len(want))
	seen := map[string]bool{}
	for _, c := range got {
		vAssert("each is found once", !seen[c.FunctionIdent])
		seen[c.FunctionIdent] = true
		n := -1
		if c.FunctionIdent == "w/q:F" {
			n = f
		} else if c.FunctionIdent == ident && ident != "" {
			n = x
		}
		vAssert("only functions of the project leading to a change are found", n >= 0 && len(want[n]) > 0)
		if n < 0 {
			return
		}
		vAssert("its changes are told exactly", len(c.ChangeFunctions) == len(want[n]))
		for _, w := range want[n] {
			k := 0
			for _, g := range c.ChangeFunctions {
				if g == w {
					k++
				}
			}
			vAssert("each of its changes is told once", k == 1)
		}
		fn := p.nodes[n].Func
		vAssert("its place is told", c.FunctionName == fn.Name() && c.PackageName == fn.Pkg.Pkg.Path() && c.FilePath == p.fset.Position(fn.Pos()).Filename && c.EntryLineNumber == 3 && !c.ReturnPanic)
	}
	vAssert("exactly the changes reached are reachable", len(reachable) == reach)
	for _, c := range changes {
		if r, ok := reachable[c.FunctionIdent]; ok {
			vAssert("reachable changes are the changes given", r == c)
		}
	}
	if len(want) == 2 {
		vReach("both")
	}
}

// Exactly the tests that may run a function are found.
//
//v:bounds 4 functions with up to 10 call edges in any combination: one or two callers, a test, and one function of 11 kinds
//v:assume the call graph of the Go tools is given
//v:quick 100
//v:thorough 400
func VHTests() {
	vNewFS(map[string]string{"/p/go.mod": ""})
	p := v25New()
	tt := v25Ptr(v25Testing, "T")
	c := p.add(p.fn("w", "w", "/p/c.go", "C", "", nil))
	h := p.add(p.fn("w", "w", "/p/h.go", "H", "", nil))
	t := p.add(p.fn("w", "w", "/p/t_test.go", "TestT", "", nil, tt))
	var x int
	ident := ""
	test, root := false, false
	kind := vChoose("kind", 11)
	switch kind {
	case 0:
		x, ident, test = p.add(p.fn("w/q", "q", "/p/q/t_test.go", "TestT", "", nil, tt)), "w/q:TestT", true
	case 1:
		x = p.add(p.fn("n", "n", "/c/n/t_test.go", "TestN", "", nil, tt)) // a test of a module
	case 2:
		x, root = p.add(p.fn("w", "main", "/p/main.go", "main", "", nil)), true
	case 3:
		x, root = p.add(p.fn("w", "w", "/p/g.go", "init", "", nil)), true
	case 4:
		x = p.add(p.fn("w", "w", "/p/t_test.go", "TestB", "", nil, v25Ptr(v25Testing, "B")))
	case 5:
		x = p.add(p.fn("w", "w", "/p/t.go", "TestX", "", nil, tt))
	case 6:
		x = p.add(p.fn("w", "w", "/p/t_test.go", "TestX", "S", nil, tt)) // a method
	case 7:
		x = p.add(p.fn("w", "w", "/p/t_test.go", "Testing", "", nil, tt)) // a helper
	case 8:
		x = p.add(p.fn("w", "w", "/p/t_test.go", "TestT$1", "", &ast.FuncLit{}, tt))
	case 9:
		x, ident, test = p.add(p.fn("w", "w", "/p/t_test.go", "Test", "", nil, tt)), "w:Test", true
	case 10:
		x = p.add(p.fn("w", "w", "/p/t_test.go", "checkT", "", nil, tt))
	}
	p.edges()
	for _, e := range [][2]int{{t, c}, {t, h}, {t, x}, {x, c}, {x, h}, {x, t}, {h, c}, {h, x}, {c, h}, {c, x}} {
		if vBool("edge") {
			p.call(e[0], e[1])
		}
	}
	v25Graph = p.graph
	callers := []*CallerFunction{{Function: Function{FunctionIdent: "w:C"}}}
	ids := []int{c}
	if vBool("two callers") {
		callers = append(callers, &CallerFunction{Function: Function{FunctionIdent: "w:H"}})
		ids = append(ids, h)
	}
	roots := []bool{false, false, true, root || test}
	want := map[int][]*CallerFunction{}
	for i, cf := range callers {
		up := p.above(ids[i], roots)
		if up[t] {
			want[t] = append(want[t], cf)
		}
		if up[x] && test {
			want[x] = append(want[x], cf)
		}
	}
	got, err := TestStaticAnalysis(callers, "/p", "/g", "/c")
	vAssert("the tests are found", err == nil)
	vAssert("as many tests are found as may run a caller", len(got) == len(want))
	seen := map[string]bool{}
	for _, g := range got {
		vAssert("each test is found once", !seen[g.FunctionIdent])
		seen[g.FunctionIdent] = true
		n := -1
		if g.FunctionIdent == "w:TestT" {
			n = t
		} else if g.FunctionIdent == ident && ident != "" {
			n = x
		}
		vAssert("only tests of the project that may run a caller are found", n >= 0 && len(want[n]) > 0)
		if n < 0 {
			return
		}
		vAssert("its callers are told exactly", len(g.Targets) == len(want[n]))
		for _, w := range want[n] {
			k := 0
			for _, y := range g.Targets {
				if y == w {
					k++
				}
			}
			vAssert("each of its callers is told once", k == 1)
		}
		fn := p.nodes[n].Func
		vAssert("its place is told", g.FunctionName == fn.Name() && g.PackageName == fn.Pkg.Pkg.Path() && g.FilePath == p.fset.Position(fn.Pos()).Filename && g.EntryLineNumber == 3)
	}
}

// The calls of the graph are told by name.
//
//v:bounds 3 functions, the third of 4 kinds, any calls between them
func VHEdges() {
	p := v25New()
	p.add(p.fn("w", "w", "/p/a.go", "A", "", nil))
	p.add(p.fn("w", "w", "/p/b.go", "B", "*T", nil))
	names := []string{"w:A", "w:*T.B", ""}
	key := true
	switch vChoose("kind", 4) {
	case 0:
		p.add(p.fn("n", "n", "/c/c.go", "C", "", nil))
		names[2] = "n:C"
	case 1:
		p.add(p.fn("w", "w", "/p/a.go", "A$1", "", &ast.FuncLit{}))
		names[2], key = "w:A$1", false
	case 2:
		p.nodes = append(p.nodes, &callgraph.Node{ID: 2})
		p.graph.Nodes[nil] = p.nodes[2]
		key = false
	case 3:
		p.add(p.fn("w", "w", "/p/b.go", "B", "", nil))
		names[2] = "w:B"
	}
	p.edges()
	for i := range p.nodes {
		for j := range p.nodes {
			if vBool("edge") {
				p.call(i, j)
				if i == 0 && vBool("again") {
					p.call(i, j)
				}
			}
		}
	}
	got := extractCallGraphEdges(p.graph)
	n := 0
	for i, name := range names {
		if i == 2 && !key {
			continue
		}
		n++
		list, ok := got[name]
		vAssert("every declared function is told", ok)
		k := 0
		for j, to := range names {
			c := 0
			for _, y := range list {
				if y == to && to != "" {
					c++
				}
			}
			if p.edge[i][j] && to != "" {
				k++
				vAssert("every call is told once", c == 1)
			} else {
				vAssert("no other call is told", c == 0)
			}
		}
		vAssert("nothing but calls is told", len(list) == k && (k > 0 || list == nil))
	}
	vAssert("no other function is told", len(got) == n)
}

// The returns of a function are told by line, with the calls in them.
//
//v:bounds up to 3 (thorough: 4) blocks ending in a return or panic, on any of 3 lines, with up to 2 results being calls or not
func VHReturnPoints() {
	p := v25New()
	f := p.fn("w", "w", "/p/a.go", "A", "", nil)
	base := f.Pos() - 25
	hasResults := vBool("results")
	if hasResults {
		f.Signature = types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Int])), false)
	}
	max := 4
	if vThorough() {
		max = 5
	}
	returns, panics := 0, 0
	calls := map[uint32]int{}
	lines := map[uint32]bool{}
	for i := vChoose("blocks", max); i > 0; i-- {
		line := 3 + vChoose("line", 3)
		pos := base + token.Pos(10*(line-1)+5)
		switch vChoose("end", 3) {
		case 0:
			r := &ssa.Return{}
			v25Set(r, "pos", pos)
			if vBool("call") {
				r.Results = append(r.Results, &ssa.Call{})
				calls[uint32(line)]++
			}
			returns++
			lines[uint32(line)] = true
			f.Blocks = append(f.Blocks, &ssa.BasicBlock{Instrs: []ssa.Instruction{&ssa.Call{}, r}})
		case 1:
			r := &ssa.Panic{}
			v25Set(r, "pos", pos)
			panics++
			lines[uint32(line)] = true
			f.Blocks = append(f.Blocks, &ssa.BasicBlock{Instrs: []ssa.Instruction{r}})
		case 2: // not at the end of a path, or an implicit return
			f.Blocks = append(f.Blocks, &ssa.BasicBlock{Instrs: []ssa.Instruction{&ssa.Return{}}})
		}
	}
	entry, points, inPanic := analyzeSSAFunctionReturnPoints(f)
	vAssert("the entry is told", entry == 3)
	vAssert("a function ends in a panic exactly when it has results, panics and never returns", inPanic == (hasResults && returns == 0 && panics > 0))
	vAssert("every line of a return is told once", len(points) == len(lines))
	for i, q := range points {
		vAssert("returns are told in order with their calls", lines[q.Line] && (i == 0 || points[i-1].Line < q.Line) && int(q.CallCount) == calls[q.Line])
	}
}

// Functions are told apart by package, receiver and name.
//
//v:bounds all pairs out of 3 packages, 5 receivers and 2 names
func VHIdents() {
	mk := func(n string) (string, string) {
		pkg := []string{"w", "w/q", "q"}[vChoose(n+" package", 3)]
		recv := []string{"", "T", "*T", "U", "*pkg"}[vChoose(n+" receiver", 5)]
		name := []string{"F", "G"}[vChoose(n+" name", 2)]
		p := v25New()
		fn := p.fn(pkg, "x", "/p/a.go", name, recv, nil)
		id, ok := MakeSSAFunctionIdent(fn)
		vAssert("a declared function has an identity", ok && id == MakeFunctionIdent(pkg, fn.Syntax().(*ast.FuncDecl)))
		return id, pkg + "," + recv + "," + name
	}
	a, ka := mk("a")
	b, kb := mk("b")
	vAssert("functions have the same identity exactly when they are the same", (a == b) == (ka == kb))
}

// Long ways to a change are followed to their end.
//
//v:bounds a chain of up to 24 (thorough: 60) calls through functions declared or anonymous, of a module or the project, and a test or helper on top
func VHChain() {
	vNewFS(map[string]string{"/p/go.mod": ""})
	p := v25New()
	max := 24
	if vThorough() {
		max = 60
	}
	names := make([]string, max)
	for i := range names {
		names[i] = "F" + strconv.Itoa(i)
	}
	n := 1 + vChoose("length", max)
	kind := vChoose("kind", 3)
	p.add(p.fn("m", "m", "/c/m/a.go", "Changed", "", nil))
	callers := map[string]bool{}
	for i := 0; i < n; i++ {
		switch {
		case kind == 0 || i == n-1:
			p.add(p.fn("w", "w", "/p/a.go", names[i], "", nil))
			callers["w:"+names[i]] = true
		case kind == 1:
			p.add(p.fn("w", "w", "/p/a.go", names[i]+"$1", "", &ast.FuncLit{}))
		case kind == 2:
			p.add(p.fn("n", "n", "/c/n/a.go", names[i], "", nil))
		}
	}
	t := p.add(p.fn("w", "w", "/p/t_test.go", "TestT", "", nil, v25Ptr(v25Testing, "T")))
	p.edges()
	for i := 0; i < n; i++ {
		p.call(i+1, i)
	}
	v25Graph = p.graph
	got, _, _, _, _, err := CallerStaticAnalysis([]*ModuleFunction{{Function: Function{FunctionIdent: "m:Changed"}}}, "/p", "/g", "/c")
	vAssert("the callers are found", err == nil && len(got) == len(callers))
	for _, g := range got {
		vAssert("every caller on the way is found", callers[g.FunctionIdent])
	}
	p.call(t, n)
	tests, err := TestStaticAnalysis(got, "/p", "/g", "/c")
	vAssert("the test on top is found", err == nil && len(tests) == 1 && tests[0].FunctionIdent == "w:TestT" && len(tests[0].Targets) == len(got))
}

// Files made by generators are told by the end of their names.
//
//v:bounds names ending in any of 7 known endings or 6 similar ones, after up to 3 symbolic bytes
func VHGenerated() {
	ends := []string{".pb.go", ".pb.gw.go", "_grpc.pb.go", "_mock.go", "_gen.go", ".gen.go", GeneratedTestFileSuffix,
		"pb.go", "mock.go", "gen.go", ".go", "_test.go", ".pb"}
	k := vChoose("end", len(ends))
	name := vStr("name", 3) + ends[k]
	want := k < 7
	for _, e := range ends[:7] {
		want = vOr(want, vHasSuffix(name, e))
	}
	vAssert("exactly the files with a known ending are generated ones", IsGeneratedFile(name) == want)
}

func vHasSuffix(s, e string) bool { return len(s) >= len(e) && s[len(s)-len(e):] == e }
