package lens

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strconv"
)

// An interpreter of the part of Go the examples are written in.  The values of
// e(k), pair(k) and channel operations come from the environment, which is the
// same for the original and the instrumented program.

type vmPanic struct{ v any }

type vmEvent struct {
	kind   string // e, chan, exit, panic, state, entry, recovery
	id     int
	args   []any
	names  []string // of a state
	scope  map[string]any
	result []ast.Expr
	depth  int
}

type vmScope struct {
	up   *vmScope
	vars map[string]*any
}

func (s *vmScope) find(n string) *any {
	for ; s != nil; s = s.up {
		if p, ok := s.vars[n]; ok {
			return p
		}
	}
	return nil
}

func (s *vmScope) define(n string, v any) {
	if n != "_" {
		s.vars[n] = &v
	}
}

func (s *vmScope) all() map[string]any {
	out := map[string]any{}
	for ; s != nil; s = s.up {
		for n, p := range s.vars {
			if _, ok := out[n]; !ok {
				out[n] = *p
			}
		}
	}
	return out
}

type vmFunc struct {
	name string // of a declared function
	typ  *ast.FuncType
	body *ast.BlockStmt
	env  *vmScope
	recv string
	self any
}

type vmFrame struct {
	fn      *vmFunc
	defers  []func()
	results *vmScope
	// panic seen by a deferred function called from this frame
	deferOf   *vmFrame
	panicking *vmPanic
	depth     int
	body      *vmScope
}

type vmCtl struct {
	kind  string // "", break, continue, return, fallthrough
	label string
	vals  []any
}

type vMachine struct {
	funcs  map[string]*ast.FuncDecl
	target string
	env    []int
	n      int
	depth  int
	events []vmEvent
	fuel   int
	stuck  string
}

func vmParse(src string) (*token.FileSet, *ast.File, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	return fset, f, err
}

// vmCompiles reports whether the sources form a valid package.
func vmCompiles(srcs ...string) error {
	fset := token.NewFileSet()
	var files []*ast.File
	for i, s := range srcs {
		f, err := parser.ParseFile(fset, "x"+strconv.Itoa(i)+".go", s, 0)
		if err != nil {
			return err
		}
		files = append(files, f)
	}
	cfg := &types.Config{}
	_, err := cfg.Check("p", fset, files, nil)
	return err
}

func vmNew(f *ast.File, target string, env []int) *vMachine {
	m := &vMachine{funcs: map[string]*ast.FuncDecl{}, target: target, env: env, fuel: 400}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			m.funcs[fd.Name.Name] = fd
		}
	}
	return m
}

func (m *vMachine) ask() int {
	if m.n < len(m.env) {
		m.n++
		return m.env[m.n-1]
	}
	m.n++
	return 0
}

func (m *vMachine) event(e vmEvent) {
	e.depth = m.depth
	m.events = append(m.events, e)
}

func (m *vMachine) fail(why string) {
	if m.stuck == "" {
		m.stuck = why
	}
	panic(vmPanic{"stuck: " + why})
}

// run calls the target and returns its results, or the panic it ended with.
func (m *vMachine) run(args ...any) (res []any, pan *vmPanic) {
	defer func() {
		if r := recover(); r != nil {
			p, ok := r.(vmPanic)
			if !ok {
				panic(r)
			}
			pan = &p
		}
	}()
	return m.call(&vmFunc{name: m.target, typ: m.funcs[m.target].Type, body: m.funcs[m.target].Body}, args, nil), nil
}

func (m *vMachine) call(f *vmFunc, args []any, deferOf *vmFrame) (res []any) {
	m.fuel--
	if m.fuel < 0 {
		m.fail("fuel")
	}
	fr := &vmFrame{fn: f, deferOf: deferOf}
	sc := &vmScope{up: f.env, vars: map[string]*any{}}
	i := 0
	if f.recv != "" {
		sc.define(f.recv, f.self)
	}
	for _, p := range f.typ.Params.List {
		for _, n := range p.Names {
			sc.define(n.Name, args[i])
			i++
		}
		if len(p.Names) == 0 {
			i++
		}
	}
	var named []string
	nres := 0
	if f.typ.Results != nil {
		for _, p := range f.typ.Results.List {
			if len(p.Names) == 0 {
				nres++
			}
			for _, n := range p.Names {
				named = append(named, n.Name)
				nres++
				z := vmZero(p.Type)
				sc.vars["="+strconv.Itoa(len(named)-1)] = &z
				if n.Name != "_" {
					sc.vars[n.Name] = &z
				}
			}
		}
	}
	m.depth++
	isTarget := f.name == m.target
	func() {
		defer func() {
			if r := recover(); r != nil {
				p, ok := r.(vmPanic)
				if !ok {
					panic(r)
				}
				fr.panicking = &p
			}
		}()
		c := m.block(f.body.List, sc, fr)
		if c.kind == "return" {
			if named != nil && c.vals != nil {
				for k := range named {
					*sc.vars["="+strconv.Itoa(k)] = c.vals[k]
				}
			}
			res = c.vals
		} else {
			if nres > 0 && named == nil {
				m.fail("missing return")
			}
			if isTarget {
				m.event(vmEvent{kind: "exit", scope: vmVisible(fr.body)})
			}
		}
	}()
	for k := len(fr.defers) - 1; k >= 0; k-- {
		func() {
			defer func() {
				if r := recover(); r != nil {
					p, ok := r.(vmPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = &p
				}
			}()
			fr.defers[k]()
		}()
	}
	if named != nil {
		res = make([]any, len(named))
		for k := range named {
			res[k] = *sc.vars["="+strconv.Itoa(k)]
		}
	}
	if named == nil && len(res) != nres && fr.panicking == nil { // recovered
		res = nil
		for _, p := range f.typ.Results.List {
			res = append(res, vmZero(p.Type))
		}
	}
	if fr.panicking != nil {
		if isTarget {
			m.event(vmEvent{kind: "panic", args: []any{fr.panicking.v}})
		}
		m.depth--
		panic(*fr.panicking)
	}
	if isTarget {
		m.event(vmEvent{kind: "done", args: res})
	}
	m.depth--
	return res
}

func vmVisible(sc *vmScope) map[string]any {
	all := sc.all()
	for n := range all {
		if n[0] == '=' {
			delete(all, n)
		}
	}
	return all
}

func vmZero(t ast.Expr) any {
	if id, ok := t.(*ast.Ident); ok {
		switch id.Name {
		case "int":
			return 0
		case "string":
			return ""
		case "bool":
			return false
		}
	}
	return nil
}

func (m *vMachine) block(list []ast.Stmt, up *vmScope, fr *vmFrame) vmCtl {
	sc := &vmScope{up: up, vars: map[string]*any{}}
	if fr.body == nil {
		fr.body = sc
	}
	for _, s := range list {
		if c := m.stmt(s, sc, fr, ""); c.kind != "" {
			return c
		}
	}
	return vmCtl{}
}

func (m *vMachine) inner(sc *vmScope) *vmScope { return &vmScope{up: sc, vars: map[string]*any{}} }

func (m *vMachine) stmt(s ast.Stmt, sc *vmScope, fr *vmFrame, label string) vmCtl {
	m.fuel--
	if m.fuel < 0 {
		m.fail("fuel")
	}
	switch s := s.(type) {
	case nil:
	case *ast.EmptyStmt:
	case *ast.BlockStmt:
		c := m.block(s.List, sc, fr)
		if c.kind == "break" && c.label != "" && c.label == label {
			return vmCtl{}
		}
		return c
	case *ast.ExprStmt:
		m.exprs(s.X, sc, fr)
	case *ast.DeclStmt:
		for _, sp := range s.Decl.(*ast.GenDecl).Specs {
			v, ok := sp.(*ast.ValueSpec)
			if !ok {
				continue
			}
			var vals []any
			for _, x := range v.Values {
				vals = append(vals, m.exprs(x, sc, fr)...)
			}
			for i, n := range v.Names {
				if vals == nil {
					sc.define(n.Name, vmZero(v.Type))
				} else {
					sc.define(n.Name, vals[i])
				}
			}
		}
	case *ast.AssignStmt:
		var vals []any
		for _, x := range s.Rhs {
			vals = append(vals, m.exprs(x, sc, fr)...)
		}
		for i, l := range s.Lhs {
			id, ok := l.(*ast.Ident)
			if !ok {
				m.fail("assignment")
			}
			if id.Name == "_" {
				continue
			}
			switch s.Tok {
			case token.DEFINE:
				if p, ok := sc.vars[id.Name]; ok {
					*p = vals[i]
				} else {
					sc.define(id.Name, vals[i])
				}
			case token.ASSIGN:
				p := sc.find(id.Name)
				if p == nil {
					m.fail("undefined " + id.Name)
				}
				*p = vals[i]
			case token.ADD_ASSIGN:
				p := sc.find(id.Name)
				if p == nil {
					m.fail("undefined " + id.Name)
				}
				*p = (*p).(int) + vals[i].(int)
			default:
				m.fail("assignment operator")
			}
		}
	case *ast.IncDecStmt:
		p := sc.find(s.X.(*ast.Ident).Name)
		if s.Tok == token.INC {
			*p = (*p).(int) + 1
		} else {
			*p = (*p).(int) - 1
		}
	case *ast.ReturnStmt:
		var vals []any
		for _, x := range s.Results {
			vals = append(vals, m.exprs(x, sc, fr)...)
		}
		if fr.fn.name == m.target {
			m.event(vmEvent{kind: "exit", args: vals, result: s.Results, scope: vmVisible(sc)})
		}
		return vmCtl{kind: "return", vals: vals}
	case *ast.IfStmt:
		in := m.inner(sc)
		if s.Init != nil {
			m.stmt(s.Init, in, fr, "")
		}
		if m.expr(s.Cond, in, fr).(bool) {
			return m.block(s.Body.List, in, fr)
		} else if s.Else != nil {
			return m.stmt(s.Else, in, fr, "")
		}
	case *ast.ForStmt:
		in := m.inner(sc)
		if s.Init != nil {
			m.stmt(s.Init, in, fr, "")
		}
		for s.Cond == nil || m.expr(s.Cond, in, fr).(bool) {
			c := m.block(s.Body.List, in, fr)
			if c.kind == "break" && (c.label == "" || c.label == label) {
				break
			} else if c.kind != "" && !(c.kind == "continue" && (c.label == "" || c.label == label)) {
				return c
			}
			if s.Post != nil {
				m.stmt(s.Post, in, fr, "")
			}
		}
	case *ast.RangeStmt:
		xs := m.expr(s.X, sc, fr).([]any)
		for i, x := range xs {
			in := m.inner(sc)
			if id, ok := s.Key.(*ast.Ident); ok {
				in.define(id.Name, i)
			}
			if id, ok := s.Value.(*ast.Ident); ok {
				in.define(id.Name, x)
			}
			c := m.block(s.Body.List, in, fr)
			if c.kind == "break" && (c.label == "" || c.label == label) {
				break
			} else if c.kind != "" && !(c.kind == "continue" && (c.label == "" || c.label == label)) {
				return c
			}
		}
	case *ast.SwitchStmt:
		in := m.inner(sc)
		if s.Init != nil {
			m.stmt(s.Init, in, fr, "")
		}
		var tag any = true
		if s.Tag != nil {
			tag = m.expr(s.Tag, in, fr)
		}
		sel := -1
		for i, cl := range s.Body.List {
			cc := cl.(*ast.CaseClause)
			if cc.List == nil && sel < 0 {
				sel = -2 - i
			}
			for _, x := range cc.List {
				if vmEq(m.expr(x, in, fr), tag) {
					sel = i
					break
				}
			}
			if sel >= 0 {
				break
			}
		}
		if sel < -1 {
			sel = -2 - sel
		}
		return m.clauses(s.Body.List, sel, in, fr, label)
	case *ast.TypeSwitchStmt:
		in := m.inner(sc)
		if s.Init != nil {
			m.stmt(s.Init, in, fr, "")
		}
		name := ""
		var x ast.Expr
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			name = a.Lhs[0].(*ast.Ident).Name
			x = a.Rhs[0].(*ast.TypeAssertExpr).X
		case *ast.ExprStmt:
			x = a.X.(*ast.TypeAssertExpr).X
		}
		v := m.expr(x, in, fr)
		sel := -1
		for i, cl := range s.Body.List {
			cc := cl.(*ast.CaseClause)
			if cc.List == nil && sel < 0 {
				sel = -2 - i
			}
			for _, t := range cc.List {
				ok := false
				switch t.(*ast.Ident).Name {
				case "int":
					_, ok = v.(int)
				case "string":
					_, ok = v.(string)
				case "nil":
					ok = v == nil
				}
				if ok {
					sel = i
					break
				}
			}
			if sel >= 0 {
				break
			}
		}
		if sel < -1 {
			sel = -2 - sel
		}
		in2 := m.inner(in)
		if name != "" {
			in2.define(name, v)
		}
		return m.clauses(s.Body.List, sel, in2, fr, label)
	case *ast.SelectStmt:
		// operands are evaluated, then the environment picks a clause
		type op struct{ val any }
		n := len(s.Body.List)
		vals := make([]any, n)
		for i, cl := range s.Body.List {
			cc := cl.(*ast.CommClause)
			switch c := cc.Comm.(type) {
			case *ast.SendStmt:
				m.expr(c.Chan, sc, fr)
				vals[i] = m.expr(c.Value, sc, fr)
			case *ast.AssignStmt:
				m.expr(c.Rhs[0].(*ast.UnaryExpr).X, sc, fr)
			case *ast.ExprStmt:
				m.expr(c.X.(*ast.UnaryExpr).X, sc, fr)
			}
		}
		k := m.ask()
		sel := n - 1
		for i := 0; i < n-1; i++ {
			if k == i {
				sel = i
				break
			}
		}
		cc := s.Body.List[sel].(*ast.CommClause)
		in := m.inner(sc)
		got := 0
		if a, ok := cc.Comm.(*ast.AssignStmt); ok {
			got = m.ask()
			in.define(a.Lhs[0].(*ast.Ident).Name, got)
		}
		m.event(vmEvent{kind: "chan", id: sel, args: []any{vals[sel], got}})
		c := m.block(cc.Body, in, fr)
		if c.kind == "break" && (c.label == "" || c.label == label) {
			return vmCtl{}
		}
		return c
	case *ast.LabeledStmt:
		c := m.stmt(s.Stmt, sc, fr, s.Label.Name)
		if c.kind == "break" && c.label == s.Label.Name {
			return vmCtl{}
		}
		return c
	case *ast.BranchStmt:
		c := vmCtl{kind: s.Tok.String()}
		if s.Label != nil {
			c.label = s.Label.Name
		}
		return c
	case *ast.DeferStmt:
		var run func(deferOf *vmFrame)
		if id, ok := s.Call.Fun.(*ast.Ident); ok && vmBuiltin(id.Name) {
			args := m.args(s.Call, sc, fr)
			run = func(*vmFrame) { m.builtin(id.Name, s.Call, args, fr) }
		} else {
			f := m.expr(s.Call.Fun, sc, fr).(*vmFunc)
			args := m.args(s.Call, sc, fr)
			run = func(d *vmFrame) { m.call(f, args, d) }
		}
		fr.defers = append(fr.defers, func() { run(fr) })
	default:
		m.fail("statement")
	}
	return vmCtl{}
}

func (m *vMachine) clauses(list []ast.Stmt, sel int, sc *vmScope, fr *vmFrame, label string) vmCtl {
	for sel >= 0 && sel < len(list) {
		c := m.block(list[sel].(*ast.CaseClause).Body, sc, fr)
		if c.kind == "fallthrough" {
			sel++
			continue
		} else if c.kind == "break" && (c.label == "" || c.label == label) {
			return vmCtl{}
		}
		return c
	}
	return vmCtl{}
}

func vmEq(a, b any) bool {
	switch x := a.(type) {
	case int:
		y, ok := b.(int)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case nil:
		return b == nil
	case *vmFunc:
		_, ok := b.(*vmFunc)
		return ok
	case []any:
		_, ok := b.([]any)
		return ok
	}
	return false
}

func (m *vMachine) expr(x ast.Expr, sc *vmScope, fr *vmFrame) any {
	r := m.exprs(x, sc, fr)
	if len(r) != 1 {
		m.fail("single value")
	}
	return r[0]
}

func (m *vMachine) args(c *ast.CallExpr, sc *vmScope, fr *vmFrame) []any {
	var out []any
	for _, a := range c.Args {
		out = append(out, m.exprs(a, sc, fr)...)
	}
	return out
}

func vmBuiltin(n string) bool {
	switch n {
	case "e", "pair", "ch", "recover", "panic", "any", "new", "print", "len", "sendLensPointMessage", "sendLensPointStateMessage", "sendLensPointRecoveryMessage":
		return true
	}
	return false
}

func (m *vMachine) builtin(name string, c *ast.CallExpr, args []any, fr *vmFrame) []any {
	switch name {
	case "e":
		v := m.ask()
		m.event(vmEvent{kind: "e", args: append([]any{}, args...)})
		return []any{v}
	case "pair":
		v := m.ask()
		m.event(vmEvent{kind: "pair", args: append([]any{}, args...)})
		return []any{v, "two"}
	case "ch":
		m.event(vmEvent{kind: "ch", args: append([]any{}, args...)})
		return []any{nil}
	case "any":
		return args
	case "len":
		return []any{len(args[0].([]any))}
	case "recover":
		if fr.deferOf == nil || fr.deferOf.panicking == nil {
			return []any{nil}
		}
		v := fr.deferOf.panicking.v
		fr.deferOf.panicking = nil
		return []any{v}
	case "panic":
		panic(vmPanic{args[0]})
	case "sendLensPointMessage":
		m.event(vmEvent{kind: "entry", id: args[0].(int)})
		return nil
	case "sendLensPointRecoveryMessage":
		m.event(vmEvent{kind: "recovery", id: args[0].(int), args: args[1:]})
		return nil
	case "sendLensPointStateMessage":
		e := vmEvent{kind: "state", id: args[0].(int)}
		for _, s := range args[1:] {
			f := s.([2]any)
			e.names = append(e.names, f[0].(string))
			e.args = append(e.args, f[1])
		}
		m.event(e)
		return nil
	}
	m.fail("builtin " + name)
	return nil
}

func (m *vMachine) exprs(x ast.Expr, sc *vmScope, fr *vmFrame) []any {
	switch x := x.(type) {
	case *ast.Ident:
		if p := sc.find(x.Name); p != nil {
			return []any{*p}
		}
		switch x.Name {
		case "true":
			return []any{true}
		case "false":
			return []any{false}
		case "nil":
			return []any{nil}
		}
		if d, ok := m.funcs[x.Name]; ok {
			return []any{&vmFunc{name: x.Name, typ: d.Type, body: d.Body}}
		}
		m.fail("undefined " + x.Name)
	case *ast.BasicLit:
		if x.Kind == token.INT {
			v, _ := strconv.Atoi(x.Value)
			return []any{v}
		} else if x.Kind == token.CHAR {
			return []any{int(x.Value[1])}
		} else if x.Kind == token.STRING {
			v, _ := strconv.Unquote(x.Value)
			return []any{v}
		}
	case *ast.ParenExpr:
		return m.exprs(x.X, sc, fr)
	case *ast.UnaryExpr:
		v := m.expr(x.X, sc, fr)
		switch x.Op {
		case token.NOT:
			return []any{!v.(bool)}
		case token.SUB:
			return []any{-v.(int)}
		}
	case *ast.StarExpr: // *new(T)
		if c, ok := x.X.(*ast.CallExpr); ok {
			return []any{vmZero(c.Args[0])}
		}
	case *ast.BinaryExpr:
		a := m.expr(x.X, sc, fr)
		switch x.Op {
		case token.LAND:
			if !a.(bool) {
				return []any{false}
			}
			return []any{m.expr(x.Y, sc, fr).(bool)}
		case token.LOR:
			if a.(bool) {
				return []any{true}
			}
			return []any{m.expr(x.Y, sc, fr).(bool)}
		}
		b := m.expr(x.Y, sc, fr)
		switch x.Op {
		case token.ADD:
			if s, ok := a.(string); ok {
				return []any{s + b.(string)}
			}
			return []any{a.(int) + b.(int)}
		case token.SUB:
			return []any{a.(int) - b.(int)}
		case token.GTR:
			return []any{a.(int) > b.(int)}
		case token.LSS:
			return []any{a.(int) < b.(int)}
		case token.EQL:
			return []any{vmEq(a, b)}
		case token.NEQ:
			return []any{!vmEq(a, b)}
		}
	case *ast.FuncLit:
		return []any{&vmFunc{typ: x.Type, body: x.Body, env: sc}}
	case *ast.CompositeLit:
		if id, ok := x.Type.(*ast.Ident); ok && id.Name == "lensMonitorFieldSnapshot" {
			var f [2]any
			for _, el := range x.Elts {
				kv := el.(*ast.KeyValueExpr)
				if kv.Key.(*ast.Ident).Name == "Name" {
					f[0] = m.expr(kv.Value, sc, fr)
				} else {
					f[1] = m.expr(kv.Value, sc, fr)
				}
			}
			return []any{f}
		}
		if at, ok := x.Type.(*ast.ArrayType); ok {
			var out []any
			for _, el := range x.Elts {
				out = append(out, m.expr(el, sc, fr))
			}
			if l, ok := at.Len.(*ast.BasicLit); ok {
				n, _ := strconv.Atoi(l.Value)
				for len(out) < n {
					out = append(out, vmZero(at.Elt))
				}
			}
			return []any{out}
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && vmBuiltin(id.Name) && sc.find(id.Name) == nil {
			if id.Name == "new" {
				return []any{nil}
			}
			return m.builtin(id.Name, x, m.args(x, sc, fr), fr)
		}
		f, ok := m.expr(x.Fun, sc, fr).(*vmFunc)
		if !ok {
			m.fail("call")
		}
		return m.call(f, m.args(x, sc, fr), nil)
	}
	m.fail("expression")
	return nil
}
