package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	okSlot opKind = iota
	okConst
	okGlobal
	okFunc
	okBuiltin
	okFresh // aggregate constant: needs a fresh zero value
)

type opnd struct {
	kind opKind
	idx  int
	val  Value
	typ  types.Type
	g    *ssa.Global
}

type cinstr struct {
	in   ssa.Instruction
	dst  int
	ops  []opnd
	aux  any
	flag bool
}

type cblock struct {
	phis   []cinstr
	ins    []cinstr
	preds  []*ssa.BasicBlock
	hit    *bool
	retPos bool
}

type fnInfo struct {
	fn       *ssa.Function
	nslots   int
	blocks   []cblock
	hasDefer bool
	intr     intrinsic
	name     string
	target   bool
	raced    bool // accesses are checked for races
	noBody   bool
	body     *fnInfo
}

type intrinsic func(p *Path, fr *frame, fn *ssa.Function, args []Value) Value

var (
	fnMu    sync.RWMutex
	fnCache = map[*ssa.Function]*fnInfo{}
	glMu    sync.Mutex
	glIdx   = map[*ssa.Global]int{}
	glList  []*ssa.Global
)

func globalIndex(g *ssa.Global) int {
	glMu.Lock()
	defer glMu.Unlock()
	if i, ok := glIdx[g]; ok {
		return i
	}
	i := len(glList)
	glIdx[g] = i
	glList = append(glList, g)
	return i
}

type deferred struct {
	fn   Value
	ssaf *ssa.Function
	args []Value
	blt  *ssa.Builtin
	in   *ssa.Defer
}

type frame struct {
	p         *Path
	fi        *fnInfo
	env       []Value
	caller    *frame
	defers    []deferred
	result    Value
	panicking bool
	panicVal  any
	recovered bool
	block     int
	prev      *ssa.BasicBlock
	pc        int
	curIn     ssa.Instruction
	runFrom   bool
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	fnMu.RLock()
	fi := fnCache[fn]
	fnMu.RUnlock()
	if fi != nil {
		return fi
	}
	fi = m.compile(fn)
	fnMu.Lock()
	if o := fnCache[fn]; o != nil {
		fi = o
	} else {
		fnCache[fn] = fi
	}
	fnMu.Unlock()
	return fi
}

func (m *Machine) isTargetFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	pk := fn.Pkg
	if pk == nil {
		if o := fn.Origin(); o != nil {
			pk = o.Pkg
		}
	}
	return pk != nil && m.target[pk]
}

func (m *Machine) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, name: fnName(fn)}
	fi.target = m.isTargetFn(fn)
	fi.raced = raceChecked(fi)
	if in := m.lookupIntrinsic(fi.name, fn); in != nil {
		fi.intr = in
		return fi
	}
	return m.compileBody(fi)
}

// bodyInfo compiles a function's own body even when it has an intrinsic.
func (m *Machine) bodyInfo(fn *ssa.Function) *fnInfo {
	fi := m.info(fn)
	if fi.intr == nil {
		return fi
	}
	fnMu.Lock()
	b := fi.body
	fnMu.Unlock()
	if b == nil {
		b = m.compileBody(&fnInfo{fn: fn, name: fi.name, target: fi.target, raced: fi.raced})
		fnMu.Lock()
		fi.body = b
		fnMu.Unlock()
	}
	return b
}

func (m *Machine) compileBody(fi *fnInfo) *fnInfo {
	fn := fi.fn
	if fn.Blocks == nil {
		// bodies of packages not built yet (or assembly)
		if fn.Pkg != nil {
			fn.Pkg.Build()
		}
		if fn.Blocks == nil && fn.Pkg != nil { // the portable form of an assembly function
			if g := fn.Pkg.Func(fn.Name() + "_g"); g != nil && types.Identical(g.Signature, fn.Signature) {
				fn, fi.fn = g, g
			}
		}
		if fn.Blocks == nil {
			fi.noBody = true
			return fi
		}
	}
	slots := map[ssa.Value]int{}
	n := 0
	for _, x := range fn.Params {
		slots[x] = n
		n++
	}
	for _, x := range fn.FreeVars {
		slots[x] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				slots[v] = n
				n++
			}
		}
	}
	fi.nslots = n
	mkop := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{kind: okConst}
		case *ssa.Const:
			val, fresh := constVal(x)
			if fresh {
				return opnd{kind: okFresh, typ: x.Type()}
			}
			return opnd{kind: okConst, val: val, typ: x.Type()}
		case *ssa.Global:
			return opnd{kind: okGlobal, idx: globalIndex(x), g: x}
		case *ssa.Function:
			return opnd{kind: okFunc, val: &Closure{fn: x}}
		case *ssa.Builtin:
			return opnd{kind: okBuiltin, val: x}
		}
		i, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %s in %s", v, fn))
		}
		return opnd{kind: okSlot, idx: i}
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := cblock{preds: b.Preds}
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				for _, e := range x.Edges {
					ci.ops = append(ci.ops, mkop(e))
				}
				cb.phis = append(cb.phis, ci)
				continue
			case *ssa.Slice:
				ci.ops = []opnd{mkop(x.X)}
				for _, o := range []ssa.Value{x.Low, x.High, x.Max} {
					ci.ops = append(ci.ops, mkop(o))
				}
			case *ssa.Defer:
				fi.hasDefer = true
				ci.ops = callOps(&x.Call, mkop)
			case *ssa.Call:
				ci.ops = callOps(&x.Call, mkop)
			case *ssa.Go:
				ci.ops = callOps(&x.Call, mkop)
			case *ssa.Select:
				for _, s := range x.States {
					ci.ops = append(ci.ops, mkop(s.Chan), mkop(s.Send))
				}
			case *ssa.IndexAddr:
				ci.ops = []opnd{mkop(x.X), mkop(x.Index)}
				ci.flag = onlyLoadStore(x)
			default:
				for _, o := range in.Operands(nil) {
					ci.ops = append(ci.ops, mkop(*o))
				}
			}
			cb.ins = append(cb.ins, ci)
		}
		fi.blocks[bi] = cb
	}
	return fi
}

func onlyLoadStore(x *ssa.IndexAddr) bool {
	et := x.Type().Underlying().(*types.Pointer).Elem()
	if _, ok := et.Underlying().(*types.Basic); !ok {
		return false
	}
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if u.Addr != ssa.Value(x) || u.Val == ssa.Value(x) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func callOps(c *ssa.CallCommon, mkop func(ssa.Value) opnd) []opnd {
	ops := []opnd{mkop(c.Value)}
	for _, a := range c.Args {
		ops = append(ops, mkop(a))
	}
	return ops
}

// constVal converts an SSA constant; fresh means "zero aggregate".
func constVal(c *ssa.Const) (Value, bool) {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Tuple:
			return nil, true
		case *types.TypeParam, *types.Interface:
			return Iface{}, false
		}
		var p *Path
		return p.zero(c.Type()), false
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.Basic); ok {
		switch {
		case tp.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value)), false
		case tp.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return strC(constant.StringVal(c.Value)), false
			}
			return strC(string(rune(c.Int64()))), false
		case tp.Info()&types.IsFloat != 0:
			f := c.Float64()
			w := basicWidth(tp)
			return mkConst(w, tobits(w, f)), false
		case tp.Info()&types.IsComplex != 0:
			z := c.Complex128()
			w := uint8(64)
			if tp.Kind() == types.Complex64 {
				w = 32
			}
			return Cplx{mkConst(w, tobits(w, real(z))), mkConst(w, tobits(w, imag(z)))}, false
		case tp.Kind() == types.UnsafePointer:
			return UPtr{}, false
		}
		w := basicWidth(tp)
		if tp.Info()&types.IsUnsigned != 0 {
			return mkConst(w, c.Uint64()), false
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return mkConst(w, uint64(i)), false
		}
		u, _ := constant.Uint64Val(v)
		return mkConst(w, u), false
	}
	panic(fmt.Sprintf("constVal %s : %s", c, c.Type()))
}

func (fr *frame) get(o *opnd) Value {
	switch o.kind {
	case okSlot:
		return fr.env[o.idx]
	case okConst:
		return o.val
	case okGlobal:
		return fr.p.globalCell(o.g, o.idx)
	case okFunc:
		return o.val
	case okFresh:
		return fr.p.zero(o.typ)
	}
	return o.val
}

// globalCell returns the storage of a global, running the package's
// initialisation on first use.
func (p *Path) globalCell(g *ssa.Global, idx int) *Value {
	w := p.w
	for idx >= len(w.gl) {
		w.gl = append(w.gl, nil)
	}
	if c := w.gl[idx]; c != nil {
		if lc, ok := (*c).(*lazyCall); ok && p.inInit == 0 {
			p.inInit++
			saved := p.mapND
			p.mapND = false
			*c = p.callFn(nil, lc.fn, nil, nil)
			p.mapND = saved
			p.inInit--
		}
		return c
	}
	p.initPackage(g.Pkg)
	if idx >= len(w.gl) || w.gl[idx] == nil {
		// global created after initialisation (should not happen)
		c := new(Value)
		*c = p.zero(g.Type().Underlying().(*types.Pointer).Elem())
		for idx >= len(w.gl) {
			w.gl = append(w.gl, nil)
		}
		w.gl[idx] = c
	}
	return p.globalCell(g, idx)
}

var (
	prof    = os.Getenv("VSYM_PROF") != ""
	profMu  sync.Mutex
	profCnt = map[string]int64{}
)

// lazyCall is a global's initialiser that has not run yet.
type lazyCall struct{ fn *ssa.Function }

func lazyInitCall(in *ssa.Call) bool {
	if in.Call.StaticCallee() == nil || len(in.Call.Args) != 0 {
		return false
	}
	rs := in.Referrers()
	if rs == nil || len(*rs) != 1 {
		return false
	}
	st, ok := (*rs)[0].(*ssa.Store)
	if !ok {
		return false
	}
	_, ok = st.Addr.(*ssa.Global)
	return ok
}

var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "syscall": true, "internal/godebug": true, "internal/poll": true,
	"net": true, "crypto/tls": true, "internal/testlog": true, "internal/runtime/atomic": true, "runtime/debug": true,
	"net/http": true, "reflect": true, "internal/abi": true, "log": false,
}

func (p *Path) initPackage(pk *ssa.Package) {
	w := p.w
	target := w.m.target[pk]
	for _, mem := range pk.Members {
		if g, ok := mem.(*ssa.Global); ok {
			i := globalIndex(g)
			for i >= len(w.gl) {
				w.gl = append(w.gl, nil)
			}
			if w.gl[i] == nil {
				c := new(Value)
				*c = p.zero(g.Type().Underlying().(*types.Pointer).Elem())
				w.gl[i] = c
				if target {
					w.tgl = append(w.tgl, i)
				}
			}
		}
	}
	path := pk.Pkg.Path()
	if skipInit[path] {
		return
	}
	pk.Build()
	fn := pk.Func("init")
	if fn == nil {
		return
	}
	p.inInit++
	saved := p.mapND
	p.mapND = false
	func() {
		defer func() {
			if e := recover(); e != nil {
				if a, ok := e.(abort); ok && a.kind == "unsupported" {
					w.m.initNote(path + ": " + a.why)
					return
				}
				if gp, ok := e.(goPanic); ok {
					w.m.initNote(path + ": panic " + dispVal(gp.v))
					return
				}
				panic(e)
			}
		}()
		p.callFn(nil, fn, nil, nil)
	}()
	p.mapND = saved
	p.inInit--
}

func (m *Machine) initNote(s string) {
	m.mu.Lock()
	m.initNotes[s] = true
	m.mu.Unlock()
}

func (p *Path) callClosure(fr *frame, f Value, args []Value) Value {
	c, ok := f.(*Closure)
	if !ok {
		panic(abort{kind: "unsupported", why: fmt.Sprintf("call of %T", f)})
	}
	if c == nil {
		p.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.nat != nil {
		return c.nat(p, fr, args)
	}
	return p.callFn(fr, c.fn, args, c.env)
}

func (p *Path) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := p.w.m.info(fn)
	if fi.intr != nil {
		return fi.intr(p, caller, fn, args)
	}
	return p.callBody(caller, fi, args, env)
}

// callBody interprets the function's own body.
func (p *Path) callBody(caller *frame, fi *fnInfo, args []Value, env []Value) Value {
	fn := fi.fn
	if fi.noBody {
		panic(abort{kind: "unsupported", why: "no body: " + fi.name})
	}
	if p.inInit > 0 && fn.Name() == "init" && fn.Synthetic == "package initializer" && caller != nil && caller.fi.fn.Synthetic == "package initializer" {
		return nil // imports initialise lazily
	}
	p.cur.depth++
	if p.cur.depth > p.w.m.maxDepth {
		panic(abort{kind: "limit", why: "call depth in " + fi.name})
	}
	if fi.target && p.inInit == 0 {
		p.w.noteFn(fi)
	}
	fr := &frame{p: p, fi: fi, caller: caller}
	fr.env = make([]Value, fi.nslots)
	copy(fr.env, args)
	copy(fr.env[len(fn.Params):], env)
	if fi.hasDefer {
		fr.runWithDefers()
	} else {
		fr.run()
	}
	p.cur.depth--
	return fr.result
}

func (fr *frame) runWithDefers() {
	p := fr.p
	depth := p.cur.depth
	for {
		normal := func() (ok bool) {
			defer func() {
				if ok {
					return
				}
				e := recover()
				if _, is := e.(goPanic); !is {
					if _, isA := e.(abort); isA {
						panic(e)
					}
					panic(wrapHost(e))
				}
				p.cur.depth = depth
				fr.panicking = true
				fr.panicVal = e
				fr.recovered = false
				fr.runDefers() // may itself panic: then that panic propagates
				if fr.recovered {
					fr.panicking = false
					return
				}
				panic(fr.panicVal)
			}()
			fr.run()
			return true
		}()
		if normal {
			return
		}
		// recovered: continue at the recover block, if any
		if rb := fr.fi.fn.Recover; rb != nil {
			fr.block = rb.Index
			fr.prev = nil
			fr.runFrom = true
			fr.run()
			return
		}
		fr.result = p.zeroResult(fr.fi.fn)
		return
	}
}

type hostErr struct {
	e  any
	st string
}

func wrapHost(e any) any {
	if _, ok := e.(hostErr); ok {
		return e
	}
	if _, ok := e.(killed); ok {
		return e
	}
	return hostErr{e, string(debug.Stack())}
}

type killed struct{}

func (p *Path) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return p.zero(r.At(0).Type())
	}
	return p.zero(r)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
}

func (fr *frame) runDefer(d deferred) {
	defer func() {
		if e := recover(); e != nil {
			if gp, ok := e.(goPanic); ok {
				// a new panic replaces the current one; remaining defers still run
				fr.panicking = true
				fr.panicVal = gp
				fr.recovered = false
				fr.runDefers()
				if fr.recovered {
					return
				}
				panic(fr.panicVal)
			}
			panic(e)
		}
	}()
	if d.blt != nil {
		fr.p.builtin(fr, d.blt, d.args, d.in.Call.Args)
		return
	}
	if d.ssaf != nil {
		fr.p.callFn(fr, d.ssaf, d.args, nil)
		return
	}
	fr.p.callClosure(fr, d.fn, d.args)
}

func (p *Path) posOf(in ssa.Instruction) string {
	pos := p.w.m.prog.Fset.Position(in.Pos())
	f := pos.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d:%d", f, pos.Line, pos.Column)
}

// run executes from the entry (or fr.block if runFrom).
func (fr *frame) run() {
	if !fr.runFrom {
		fr.block = 0
		fr.prev = nil
	}
	p := fr.p
	fi := fr.fi
	var next int
	for {
		cb := &fi.blocks[fr.block]
		blk := fi.fn.Blocks[fr.block]
		if fi.target {
			p.w.noteBlk(fi, fr.block)
		}
		if len(cb.phis) > 0 {
			pi := 0
			for i, b := range cb.preds {
				if b == fr.prev {
					pi = i
					break
				}
			}
			if len(cb.phis) == 1 {
				ph := &cb.phis[0]
				fr.env[ph.dst] = fr.get(&ph.ops[pi])
			} else {
				tmp := make([]Value, len(cb.phis))
				for i := range cb.phis {
					tmp[i] = fr.get(&cb.phis[i].ops[pi])
				}
				for i := range cb.phis {
					fr.env[cb.phis[i].dst] = tmp[i]
				}
			}
		}
		p.steps += int64(len(cb.ins))
		if prof {
			profMu.Lock()
			profCnt[fi.name] += int64(len(cb.ins))
			profMu.Unlock()
		}
		if p.steps > p.w.m.maxSteps {
			panic(abort{kind: "limit", why: "steps in " + fi.name})
		}
		next = -1
		for i := range cb.ins {
			ci := &cb.ins[i]
			switch in := ci.in.(type) {
			case *ssa.Jump:
				next = blk.Succs[0].Index
			case *ssa.If:
				cv, ok := fr.get(&ci.ops[0]).(*Term)
				if !ok {
					fr.bad(in, "if on non-term")
				}
				if cv.op == OConst {
					if cv.val != 0 {
						next = blk.Succs[0].Index
					} else {
						next = blk.Succs[1].Index
					}
				} else if p.branch(cv) {
					next = blk.Succs[0].Index
				} else {
					next = blk.Succs[1].Index
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for j := range ci.ops {
						t[j] = fr.get(&ci.ops[j])
					}
					fr.result = t
				}
				return
			default:
				fr.curIn = ci.in
				if p.inInit > 0 {
					fr.execInit(ci)
				} else {
					fr.exec(ci)
				}
			}
		}
		if next < 0 {
			panic(hostErr{e: "fell off block in " + fi.name})
		}
		fr.prev = blk
		fr.block = next
	}
}

// execInit tolerates unsupported operations while initialising packages: the
// result becomes a poison value whose use is unsupported.
func (fr *frame) execInit(ci *cinstr) {
	if fr.fi.fn.Synthetic != "package initializer" {
		fr.exec(ci)
		return
	}
	defer func() {
		if e := recover(); e != nil {
			a, ok := e.(abort)
			if !ok || a.kind != "unsupported" {
				panic(e)
			}
			fr.p.w.m.initNote(fr.fi.fn.Pkg.Pkg.Path() + ": " + a.why)
			if ci.dst >= 0 {
				fr.env[ci.dst] = Poison{a.why}
			}
		}
	}()
	fr.exec(ci)
}

func (fr *frame) bad(in ssa.Instruction, why string) {
	panic(abort{kind: "unsupported", why: fmt.Sprintf("%s: %s at %s (%s)", fr.fi.name, why, fr.p.posOf(in), in)})
}

func (p *Path) rtError(msg string) Iface {
	t := p.w.m.rtErrType
	return Iface{t: t, v: strC(msg)}
}
func (p *Path) rtPanic(msg string) {
	panic(goPanic{v: p.rtError(msg), st: p.stackStr()})
}
func (p *Path) rtPanicPlain(msg string) {
	panic(goPanic{v: p.rtError(msg), st: p.stackStr()})
}
func (p *Path) stackStr() string { return "" }

func (p *Path) derefPtr(fr *frame, v Value) *Value {
	switch x := v.(type) {
	case *Value:
		if x == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		return x
	case Poison:
		panic(abort{kind: "unsupported", why: "poison: " + x.why})
	}
	panic(abort{kind: "unsupported", why: fmt.Sprintf("deref %T in %s", v, fr.fi.name)})
}

func (p *Path) load(fr *frame, v Value) Value {
	if sp, ok := v.(*SymPtr); ok {
		return p.symLoad(sp)
	}
	r := *p.derefPtr(fr, v)
	if po, ok := r.(Poison); ok {
		why := "poison: " + po.why
		if os.Getenv("VSYM_DEBUG") != "" {
			for f := fr; f != nil; f = f.caller {
				why += " < " + f.fi.name
			}
		}
		panic(abort{kind: "unsupported", why: why})
	}
	switch r.(type) {
	case Struct, Array:
		return copyVal(r)
	}
	return r
}

func (p *Path) symLoad(sp *SymPtr) Value {
	c := p.ctx()
	n := len(sp.elems)
	// balanced selection by bits of the index
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return sp.elems[lo].(*Term)
		}
		mid := (lo + hi) / 2
		l, r := rec(lo, mid), rec(mid, hi)
		if same(l, r) {
			return l
		}
		return c.Ite(c.Bin(OULT, sp.idx, mkConst(sp.idx.w, uint64(mid))), l, r)
	}
	return rec(0, n)
}

func allTerms(e []Value) bool {
	for _, x := range e {
		if _, ok := x.(*Term); !ok {
			return false
		}
	}
	return true
}

func (p *Path) concInt(v Value) int {
	t := v.(*Term)
	if t.isConst() {
		return int(t.sval())
	}
	return int(sx(p.concretize(t), t.w))
}

// index64 widens an index operand to 64 bits.
func (p *Path) idx64(v Value, t types.Type) *Term {
	x := v.(*Term)
	if x.w == 64 {
		return x
	}
	if isSigned(t) {
		return p.ctx().SExt(x, 64)
	}
	return p.ctx().ZExt(x, 64)
}

// boundsOK branches on 0 <= i < n and panics otherwise.
func (p *Path) boundsCheck(i *Term, n int) {
	if i.isConst() {
		if i.val >= uint64(n) {
			p.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.val), n))
		}
		return
	}
	if !p.branch(p.ctx().Bin(OULT, i, mkConst(64, uint64(n)))) {
		p.rtPanic(fmt.Sprintf("index out of range [?] with length %d", n))
	}
}

func (fr *frame) exec(ci *cinstr) {
	p := fr.p
	switch in := ci.in.(type) {
	case *ssa.UnOp:
		x := fr.get(&ci.ops[0])
		switch in.Op {
		case token.MUL:
			if fr.fi.raced && len(p.gors) > 1 {
				p.accessPoint(in, x, false)
			}
			if p.memYield && fr.fi.target {
				p.memPoint(fr, in, x, false)
			}
			fr.env[ci.dst] = p.load(fr, x)
		case token.ARROW:
			fr.env[ci.dst] = p.chanRecv(fr, x, in.CommaOk, in.X.Type())
		case token.NOT:
			fr.env[ci.dst] = p.ctx().Not(x.(*Term))
		case token.SUB:
			if t, ok := x.(*Term); ok {
				if isFloat(in.X.Type()) {
					fr.env[ci.dst] = p.ctx().FNeg(t)
				} else {
					fr.env[ci.dst] = p.ctx().Neg(t)
				}
			} else {
				z := x.(Cplx)
				fr.env[ci.dst] = Cplx{p.ctx().FNeg(z.re), p.ctx().FNeg(z.im)}
			}
		case token.XOR:
			fr.env[ci.dst] = p.ctx().BNot(x.(*Term))
		default:
			fr.bad(in, "unop")
		}
	case *ssa.BinOp:
		fr.env[ci.dst] = p.binop(fr, in, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Call:
		if p.inInit > 0 && fr.fi.target && fr.fi.fn.Synthetic == "package initializer" && lazyInitCall(in) {
			fr.env[ci.dst] = &lazyCall{fn: in.Call.StaticCallee()}
			return
		}
		fr.env[ci.dst] = fr.doCall(&in.Call, ci, in)
	case *ssa.Store:
		a := fr.get(&ci.ops[0])
		v := fr.get(&ci.ops[1])
		if fr.fi.raced && len(p.gors) > 1 {
			p.accessPoint(in, a, true)
		}
		if p.memYield && fr.fi.target {
			p.memPoint(fr, in, a, true)
		}
		if sp, ok := a.(*SymPtr); ok {
			c := p.ctx()
			for i := range sp.elems {
				sp.elems[i] = c.Ite(c.Eq(sp.idx, mkConst(sp.idx.w, uint64(i))), v.(*Term), sp.elems[i].(*Term))
			}
			return
		}
		if p.inInit > 0 {
			if _, isP := a.(Poison); isP {
				return
			}
		}
		storeTo(p.derefPtr(fr, a), v)
	case *ssa.FieldAddr:
		x := fr.get(&ci.ops[0])
		ptr := p.derefPtr(fr, x)
		st, ok := (*ptr).(Struct)
		if !ok {
			fr.bad(in, fmt.Sprintf("fieldaddr of %T", *ptr))
		}
		fr.env[ci.dst] = &st[in.Field]
	case *ssa.Field:
		x := fr.get(&ci.ops[0])
		st, ok := x.(Struct)
		if !ok {
			fr.bad(in, fmt.Sprintf("field of %T", x))
		}
		fr.env[ci.dst] = st[in.Field]
	case *ssa.IndexAddr:
		x := fr.get(&ci.ops[0])
		i := p.idx64(fr.get(&ci.ops[1]), in.Index.Type())
		var el []Value
		switch a := x.(type) {
		case []Value:
			el = a
		case *Value:
			el = (*p.derefPtr(fr, a)).(Array)
		default:
			fr.bad(in, fmt.Sprintf("indexaddr of %T", x))
		}
		p.boundsCheck(i, len(el))
		if !i.isConst() {
			if ci.flag && len(el) <= 512 && allTerms(el) {
				fr.env[ci.dst] = &SymPtr{elems: el, idx: i}
				return
			}
			i = mkConst(64, p.concretize(i))
		}
		fr.env[ci.dst] = &el[i.val]
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		i := p.idx64(fr.get(&ci.ops[1]), in.Index.Type())
		switch a := x.(type) {
		case *Str:
			fr.env[ci.dst] = p.strIndex(a, i)
		case Array:
			p.boundsCheck(i, len(a))
			if !i.isConst() {
				if allTerms(a) {
					fr.env[ci.dst] = p.symLoad(&SymPtr{elems: a, idx: i})
					return
				}
				i = mkConst(64, p.concretize(i))
			}
			fr.env[ci.dst] = a[i.val]
		default:
			fr.bad(in, fmt.Sprintf("index of %T", x))
		}
	case *ssa.Alloc:
		c := new(Value)
		*c = p.zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.env[ci.dst] = c
	case *ssa.MakeInterface:
		fr.env[ci.dst] = Iface{t: in.X.Type(), v: copyVal(fr.get(&ci.ops[0]))}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.env[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.Convert:
		fr.env[ci.dst] = p.convert(fr, in, in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		fr.env[ci.dst] = p.convert(fr, in, in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.Extract:
		x := fr.get(&ci.ops[0])
		if po, ok := x.(Poison); ok {
			panic(abort{kind: "unsupported", why: "poison: " + po.why})
		}
		t, ok := x.(Tuple)
		if !ok {
			fr.bad(in, fmt.Sprintf("extract of %T", x))
		}
		fr.env[ci.dst] = t[in.Index]
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = fr.get(&ci.ops[i+1])
		}
		fr.env[ci.dst] = &Closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.MakeMap:
		fr.env[ci.dst] = newMap(in.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeChan:
		p.chanID++
		fr.env[ci.dst] = &Chan{cap: p.concInt(fr.get(&ci.ops[0])), id: p.chanID}
	case *ssa.MakeSlice:
		fr.env[ci.dst] = p.makeSlice(fr, in, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Slice:
		fr.env[ci.dst] = p.sliceOp(fr, in, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), fr.get(&ci.ops[2]), fr.get(&ci.ops[3]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).([]Value)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			p.rtPanic("cannot convert slice to array pointer")
		}
		c := new(Value)
		*c = Array(s[:n:n])
		fr.env[ci.dst] = c
	case *ssa.Lookup:
		fr.env[ci.dst] = p.lookup(fr, in, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.MapUpdate:
		m, ok := fr.get(&ci.ops[0]).(*Map)
		if !ok {
			fr.bad(in, "mapupdate")
		}
		if fr.fi.raced && len(p.gors) > 1 {
			p.accessPoint(in, m, true)
		}
		if p.memYield && fr.fi.target {
			p.memPoint(fr, in, m, true)
		}
		p.mapSet(m, fr.get(&ci.ops[1]), fr.get(&ci.ops[2]))
	case *ssa.Range:
		x := fr.get(&ci.ops[0])
		switch m := x.(type) {
		case *Map:
			fr.env[ci.dst] = p.newMapIter(m)
		case *Str:
			if m.opaque {
				fr.bad(in, "range over opaque string")
			}
			fr.env[ci.dst] = &strIter{s: m}
		default:
			fr.bad(in, fmt.Sprintf("range over %T", x))
		}
	case *ssa.Next:
		fr.env[ci.dst] = p.next(fr, in, fr.get(&ci.ops[0]))
	case *ssa.TypeAssert:
		fr.env[ci.dst] = p.typeAssert(fr, in, fr.get(&ci.ops[0]))
	case *ssa.Panic:
		v := fr.get(&ci.ops[0]).(Iface)
		panic(goPanic{v: v})
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Defer:
		d := deferred{in: in}
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			d.blt = b
			for i := 1; i < len(ci.ops); i++ {
				d.args = append(d.args, fr.get(&ci.ops[i]))
			}
		} else {
			d.fn, d.ssaf, d.args = fr.prepCall(&in.Call, ci)
		}
		if in.DeferStack != nil {
			fr.bad(in, "defer stack")
		}
		fr.defers = append(fr.defers, d)
	case *ssa.Go:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			fr.bad(in, "go builtin "+b.Name())
		}
		fn, sf, args := fr.prepCall(&in.Call, ci)
		p.spawn(fr, in, fn, sf, args)
	case *ssa.Send:
		p.chanSend(fr, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Select:
		fr.env[ci.dst] = p.selectOp(fr, in, ci)
	default:
		fr.bad(in, fmt.Sprintf("instruction %T", in))
	}
}

// prepCall resolves callee and arguments (copying aggregates).
func (fr *frame) prepCall(c *ssa.CallCommon, ci *cinstr) (Value, *ssa.Function, []Value) {
	p := fr.p
	n := len(ci.ops) - 1
	if c.IsInvoke() {
		recv := fr.get(&ci.ops[0])
		ifc, ok := recv.(Iface)
		if !ok {
			if po, isP := recv.(Poison); isP {
				panic(abort{kind: "unsupported", why: "poison: " + po.why})
			}
			fr.bad(ci.in, fmt.Sprintf("invoke on %T", recv))
		}
		if ifc.t == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		if no, isN := ifc.v.(*NativeObj); isN {
			args := make([]Value, n)
			for i := 0; i < n; i++ {
				args[i] = fr.get(&ci.ops[i+1])
			}
			nm := c.Method.Name()
			return &Closure{nat: func(p *Path, fr *frame, a []Value) Value { return no.invoke(p, fr, nm, a) }}, nil, args
		}
		f := p.w.m.method(ifc.t, c.Method)
		if f == nil {
			fr.bad(ci.in, "no method "+c.Method.Name()+" on "+ifc.t.String())
		}
		args := make([]Value, n+1)
		args[0] = copyVal(ifc.v)
		for i := 0; i < n; i++ {
			args[i+1] = copyVal(fr.get(&ci.ops[i+1]))
		}
		return nil, f, args
	}
	args := make([]Value, n)
	for i := 0; i < n; i++ {
		args[i] = fr.get(&ci.ops[i+1])
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		return nil, f, args
	}
	v := fr.get(&ci.ops[0])
	if po, isP := v.(Poison); isP {
		panic(abort{kind: "unsupported", why: "poison: " + po.why})
	}
	return v, nil, args
}

func (fr *frame) doCall(c *ssa.CallCommon, ci *cinstr, in ssa.Instruction) Value {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(ci.ops)-1)
		for i := range args {
			args[i] = fr.get(&ci.ops[i+1])
			if po, isP := args[i].(Poison); isP {
				panic(abort{kind: "unsupported", why: "poison: " + po.why})
			}
		}
		return fr.p.builtin(fr, b, args, c.Args)
	}
	v, f, args := fr.prepCall(c, ci)
	if f != nil {
		return fr.p.callFn(fr, f, args, nil)
	}
	return fr.p.callClosure(fr, v, args)
}

type methKey struct {
	t types.Type
	m *types.Func
}

var methCache sync.Map

func (m *Machine) method(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth}
	if f, ok := methCache.Load(k); ok {
		return f.(*ssa.Function)
	}
	f := m.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	methCache.Store(k, f)
	return f
}

func (m *Machine) methodByName(t types.Type, pkg *types.Package, name string) *ssa.Function {
	ms := m.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return m.prog.MethodValue(sel)
}

func (p *Path) strIndex(s *Str, i *Term) *Term {
	if s.opaque {
		panic(abort{kind: "unsupported", why: "index of opaque string"})
	}
	p.boundsCheck(i, s.len())
	if i.isConst() {
		return s.at(int(i.val))
	}
	t := s.terms()
	el := make([]Value, len(t))
	for k := range t {
		el[k] = t[k]
	}
	return p.symLoad(&SymPtr{elems: el, idx: i}).(*Term)
}

func (p *Path) lookup(fr *frame, in *ssa.Lookup, x, k Value) Value {
	switch m := x.(type) {
	case *Str:
		return p.strIndex(m, p.idx64(k, in.Index.Type()))
	case *Map:
		if fr.fi.raced && len(p.gors) > 1 {
			p.accessPoint(in, m, false)
		}
		if p.memYield && fr.fi.target {
			p.memPoint(fr, in, m, false)
		}
		e := p.mapFind(m, k)
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = p.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return Tuple{v, mkBool(e != nil)}
		}
		return v
	}
	fr.bad(in, fmt.Sprintf("lookup in %T", x))
	return nil
}

func (p *Path) newMapIter(m *Map) *mapIter {
	it := &mapIter{m: m}
	if p.mapND && m != nil && m.n > 1 {
		var live []*mapEnt
		for _, e := range m.ents {
			if e.live {
				live = append(live, e)
			}
		}
		if len(live) <= 5 {
			var ord []*mapEnt
			for len(live) > 0 {
				i := p.choose("maporder", len(live))
				ord = append(ord, live[i])
				live = append(live[:i:i], live[i+1:]...)
			}
			it.order = ord
		} else if p.choose("maporder", 2) == 1 {
			for i := len(live) - 1; i >= 0; i-- {
				it.order = append(it.order, live[i])
			}
			p.noteIncomplete("map order: >5 entries, only insertion and reverse order explored")
		}
	}
	return it
}

func (p *Path) mapNext(it *mapIter) *mapEnt {
	if it.m == nil {
		return nil
	}
	if it.order != nil {
		for it.pos < len(it.order) {
			e := it.order[it.pos]
			it.pos++
			if e.live {
				return e
			}
		}
		return nil
	}
	for it.pos < len(it.m.ents) {
		e := it.m.ents[it.pos]
		it.pos++
		if e.live {
			return e
		}
	}
	return nil
}

func (p *Path) next(fr *frame, in *ssa.Next, x Value) Value {
	switch it := x.(type) {
	case *mapIter:
		if fr.fi.raced && len(p.gors) > 1 {
			p.accessPoint(in, it.m, false)
		}
		e := p.mapNext(it)
		if e == nil {
			tt := in.Type().(*types.Tuple)
			var kz, vz Value
			if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				kz = p.zero(tt.At(1).Type())
			}
			if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				vz = p.zero(tt.At(2).Type())
			}
			return Tuple{tFalse, kz, vz}
		}
		return Tuple{tTrue, copyVal(e.k), copyVal(e.v)}
	case *strIter:
		if it.pos >= it.s.len() {
			return Tuple{tFalse, mkInt(0), mkConst(32, 0)}
		}
		i := it.pos
		r, n := p.decodeRune(fr, it.s.slice(i, it.s.len()))
		it.pos += n
		return Tuple{tTrue, mkInt(int64(i)), r}
	}
	fr.bad(in, fmt.Sprintf("next on %T", x))
	return nil
}

func (p *Path) decodeRune(fr *frame, s *Str) (*Term, int) {
	b0 := s.at(0)
	if p.branch(p.ctx().Bin(OULT, b0, mkConst(8, 0x80))) {
		return p.ctx().ZExt(b0, 32), 1
	}
	f := p.w.m.stdFn("unicode/utf8", "DecodeRuneInString")
	r := p.callFn(fr, f, []Value{s}, nil).(Tuple)
	return r[0].(*Term), p.concInt(r[1])
}

func (m *Machine) stdFn(pkg, name string) *ssa.Function {
	pk := m.prog.ImportedPackage(pkg)
	if pk == nil {
		panic(abort{kind: "unsupported", why: "package not loaded: " + pkg})
	}
	f := pk.Func(name)
	if f == nil {
		panic(abort{kind: "unsupported", why: "no function " + pkg + "." + name})
	}
	return f
}
func (m *Machine) stdType(pkg, name string) types.Type {
	pk := m.prog.ImportedPackage(pkg)
	if pk == nil {
		panic(abort{kind: "unsupported", why: "package not loaded: " + pkg})
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(abort{kind: "unsupported", why: "no type " + pkg + "." + name})
	}
	return o.Type()
}

func (p *Path) typeAssert(fr *frame, in *ssa.TypeAssert, x Value) Value {
	ifc, isI := x.(Iface)
	if !isI {
		if po, ok := x.(Poison); ok {
			panic(abort{kind: "unsupported", why: "poison: " + po.why})
		}
		fr.bad(in, fmt.Sprintf("typeassert on %T", x))
	}
	ok := false
	var v Value
	if it, toI := in.AssertedType.Underlying().(*types.Interface); toI {
		if ifc.t != nil {
			if no, isN := ifc.v.(*NativeObj); isN {
				ok = no.implements(it)
			} else {
				ok = types.Implements(ifc.t, it)
			}
		}
		if ok {
			v = ifc
		}
	} else if ifc.t != nil && types.Identical(ifc.t, in.AssertedType) {
		ok = true
		v = copyVal(ifc.v)
	}
	if in.CommaOk {
		if !ok {
			v = p.zero(in.AssertedType)
		}
		return Tuple{v, mkBool(ok)}
	}
	if !ok {
		have := "nil"
		if ifc.t != nil {
			have = ifc.t.String()
		}
		p.rtPanic("interface conversion: interface is " + have + ", not " + in.AssertedType.String())
	}
	return v
}

func (p *Path) makeSlice(fr *frame, in *ssa.MakeSlice, lv, cv Value) Value {
	st := in.Type().Underlying().(*types.Slice)
	es := sizeof(st.Elem())
	l := p.idx64(lv, in.Len.Type())
	c := p.idx64(cv, in.Cap.Type())
	n := p.allocLen(l, es, false)
	k := n
	if !same(l, c) {
		if k = p.allocLen(c, es, true); k == -1 {
			k = n
		}
		if k < n {
			p.rtPanic("makeslice: cap out of range")
		}
	}
	// backing storage is capped: elements beyond len are materialised lazily
	kk := k
	if kk > n+4096 {
		kk = n + 4096
	}
	s := make([]Value, n, kk)
	z := p.zero(st.Elem())
	full := s[:kk]
	switch z.(type) {
	case Struct, Array:
		for i := range full {
			full[i] = p.zero(st.Elem())
		}
	default:
		for i := range full {
			full[i] = z
		}
	}
	return s
}

// allocLen resolves an allocation size.  With isCap the size is a capacity and
// only its admissibility matters (-1 is returned for a symbolic one).
func (p *Path) allocLen(l *Term, es int64, isCap bool) int {
	es = max(es, 1)
	am := int64(0)
	if p.inInit == 0 {
		am = int64(p.allocMax) / es
	}
	if !l.isConst() {
		c := p.ctx()
		maxN := (int64(1) << 47) / es
		if !p.branch(c.Bin(OULE, l, mkConst(64, uint64(maxN)))) {
			p.rtPanic("makeslice: len out of range")
		}
		if p.allocMax > 0 && p.inInit == 0 {
			if !p.branch(c.Bin(OULE, l, mkConst(64, uint64(am)))) {
				p.ensureModel()
				p.report("alloc", "unbounded allocation", fmt.Sprintf("allocation of more than %d elements of %d bytes", am, es), p.model)
				panic(abort{kind: "done"})
			}
			if isCap {
				return -1
			}
			if !p.branch(c.Bin(OULE, l, mkConst(64, 48))) {
				// one representative of the large sizes
				return int(p.pick(l))
			}
			return int(p.concretize(l))
		}
		if isCap {
			return -1
		}
		if !p.branch(c.Bin(OULE, l, mkConst(64, uint64(p.w.m.allocMax)))) {
			panic(abort{kind: "limit", why: "symbolic allocation size"})
		}
		return int(p.concretize(l))
	}
	n := l.sval()
	if n < 0 || n > (int64(1)<<47)/es {
		p.rtPanic("makeslice: len out of range")
	}
	if p.allocMax > 0 && p.inInit == 0 && n > am {
		p.ensureModel()
		p.report("alloc", "unbounded allocation", fmt.Sprintf("allocation of %d elements of %d bytes", n, es), p.model)
		panic(abort{kind: "done"})
	}
	if n > 1<<22 {
		panic(abort{kind: "limit", why: "huge allocation"})
	}
	return int(n)
}

// pick fixes t to one feasible value.
func (p *Path) pick(t *Term) uint64 {
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trail = append(p.trail, d)
		p.addPC(p.ctx().Eq(t, mkConst(t.w, d.Val)))
		return d.Val
	}
	v := p.evalM(t)
	p.trail = append(p.trail, Decision{Val: v, Taken: true})
	p.addPC(p.ctx().Eq(t, mkConst(t.w, v)))
	return v
}

var stdSizes = types.SizesFor("gc", "amd64")

func sizeof(t types.Type) int64 {
	defer func() { recover() }()
	return stdSizes.Sizeof(t)
}

func (p *Path) sliceOp(fr *frame, in *ssa.Slice, x, lo, hi, mx Value) Value {
	var ln, cp int
	switch a := x.(type) {
	case *Str:
		if a.opaque {
			fr.bad(in, "slice of opaque string")
		}
		ln, cp = a.len(), a.len()
	case []Value:
		ln, cp = len(a), cap(a)
	case *Value:
		arr := (*p.derefPtr(fr, a)).(Array)
		ln, cp = len(arr), len(arr)
	default:
		fr.bad(in, fmt.Sprintf("slice of %T", x))
	}
	get := func(v Value, sv ssa.Value, def int) *Term {
		if sv == nil {
			return mkInt(int64(def))
		}
		return p.idx64(v, sv.Type())
	}
	l := get(lo, in.Low, 0)
	h := get(hi, in.High, ln)
	m := get(mx, in.Max, cp)
	c := p.ctx()
	chk := func(a, b *Term) {
		t := c.Bin(OULE, a, b)
		if !p.branch(t) {
			p.rtPanic("slice bounds out of range")
		}
	}
	chk(m, mkInt(int64(cp)))
	chk(h, m)
	chk(l, h)
	li, hii, mi := int(p.concretize(l)), int(p.concretize(h)), int(p.concretize(m))
	switch a := x.(type) {
	case *Str:
		return a.slice(li, hii)
	case []Value:
		return a[li:hii:mi]
	case *Value:
		arr := (*a).(Array)
		return []Value(arr)[li:hii:mi]
	}
	return nil
}

func (p *Path) binop(fr *frame, in *ssa.BinOp, x, y Value) Value {
	c := p.ctx()
	switch in.Op {
	case token.EQL:
		return p.eqOp(in.X.Type(), in.Y.Type(), x, y)
	case token.NEQ:
		return c.Not(p.eqOp(in.X.Type(), in.Y.Type(), x, y))
	}
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			fr.bad(in, fmt.Sprintf("binop %T %T", x, y))
		}
		t := in.X.Type()
		if isFloat(t) {
			switch in.Op {
			case token.ADD:
				return c.FBin(OFAdd, a, b)
			case token.SUB:
				return c.FBin(OFSub, a, b)
			case token.MUL:
				return c.FBin(OFMul, a, b)
			case token.QUO:
				return c.FBin(OFDiv, a, b)
			case token.LSS:
				return c.FCmp(OFLt, a, b)
			case token.LEQ:
				return c.FCmp(OFLe, a, b)
			case token.GTR:
				return c.FCmp(OFLt, b, a)
			case token.GEQ:
				return c.FCmp(OFLe, b, a)
			}
			fr.bad(in, "float op")
		}
		if a.w == 0 {
			switch in.Op {
			case token.AND, token.LAND:
				return c.And(a, b)
			case token.OR, token.LOR:
				return c.Or(a, b)
			}
			fr.bad(in, "bool op")
		}
		sg := isSigned(t)
		switch in.Op {
		case token.ADD:
			return c.Bin(OAdd, a, b)
		case token.SUB:
			return c.Bin(OSub, a, b)
		case token.MUL:
			return c.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if p.branch(c.Eq(b, mkConst(b.w, 0))) {
				p.rtPanic("integer divide by zero")
			}
			switch {
			case in.Op == token.QUO && sg:
				return c.Bin(OSDiv, a, b)
			case in.Op == token.QUO:
				return c.Bin(OUDiv, a, b)
			case sg:
				return c.Bin(OSRem, a, b)
			}
			return c.Bin(OURem, a, b)
		case token.AND:
			return c.Bin(OBAnd, a, b)
		case token.OR:
			return c.Bin(OBOr, a, b)
		case token.XOR:
			return c.Bin(OBXor, a, b)
		case token.AND_NOT:
			return c.Bin(OBAnd, a, c.BNot(b))
		case token.SHL, token.SHR:
			// widen/narrow the shift count to the operand width, saturating
			if isSigned(in.Y.Type()) {
				if p.branch(c.Bin(OSLT, b, mkConst(b.w, 0))) {
					p.rtPanic("negative shift amount")
				}
			}
			var sh *Term
			if b.w > a.w {
				big := c.Bin(OULE, mkConst(b.w, uint64(a.w)), b)
				sh = c.Ite(big, mkConst(a.w, uint64(a.w)), c.Extract(b, 0, a.w))
			} else {
				sh = c.ZExt(b, a.w)
			}
			if in.Op == token.SHL {
				return c.Bin(OShl, a, sh)
			}
			if sg {
				return c.Bin(OAShr, a, sh)
			}
			return c.Bin(OLShr, a, sh)
		case token.LSS:
			if sg {
				return c.Bin(OSLT, a, b)
			}
			return c.Bin(OULT, a, b)
		case token.LEQ:
			if sg {
				return c.Bin(OSLE, a, b)
			}
			return c.Bin(OULE, a, b)
		case token.GTR:
			if sg {
				return c.Bin(OSLT, b, a)
			}
			return c.Bin(OULT, b, a)
		case token.GEQ:
			if sg {
				return c.Bin(OSLE, b, a)
			}
			return c.Bin(OULE, b, a)
		}
	case *Str:
		b := y.(*Str)
		switch in.Op {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return p.strLess(a, b, false)
		case token.LEQ:
			return p.strLess(a, b, true)
		case token.GTR:
			return p.strLess(b, a, false)
		case token.GEQ:
			return p.strLess(b, a, true)
		}
	case Cplx:
		b := y.(Cplx)
		switch in.Op {
		case token.ADD:
			return Cplx{c.FBin(OFAdd, a.re, b.re), c.FBin(OFAdd, a.im, b.im)}
		case token.SUB:
			return Cplx{c.FBin(OFSub, a.re, b.re), c.FBin(OFSub, a.im, b.im)}
		}
	}
	fr.bad(in, fmt.Sprintf("binop %T %T", x, y))
	return nil
}

func (p *Path) eqOp(tx, ty types.Type, x, y Value) *Term {
	// mixed interface / concrete comparison
	_, xi := tx.Underlying().(*types.Interface)
	_, yi := ty.Underlying().(*types.Interface)
	if xi && !yi {
		if b, ok := ty.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return mkBool(x.(Iface).t == nil)
		}
		y = Iface{t: ty, v: y}
	} else if yi && !xi {
		if b, ok := tx.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return mkBool(y.(Iface).t == nil)
		}
		x = Iface{t: tx, v: x}
	}
	return p.eqVal(tx, x, y)
}

func (p *Path) convert(fr *frame, in ssa.Instruction, from, to types.Type, x Value) Value {
	c := p.ctx()
	fu, tu := from.Underlying(), to.Underlying()
	if po, ok := x.(Poison); ok {
		panic(abort{kind: "unsupported", why: "poison: " + po.why})
	}
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			if u, ok := x.(UPtr); ok {
				return u
			}
			if tm, ok := x.(*Term); ok && tm.isConst() && tm.val == 0 {
				return UPtr{}
			}
			if isNilPtr(x) {
				return UPtr{}
			}
			return UPtr{v: x, t: from}
		case t.Info()&types.IsString != 0:
			switch a := x.(type) {
			case *Str:
				return a
			case []Value:
				if sl, ok := fu.(*types.Slice); ok {
					if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
						return p.runesToStr(fr, a)
					}
				}
				return bytesToStr(a)
			case *Term:
				return p.runeToStr(fr, a, isSigned(from))
			}
		case t.Info()&types.IsNumeric != 0:
			a, ok := x.(*Term)
			if !ok {
				if cx, isC := x.(Cplx); isC {
					w := uint8(64)
					if t.Kind() == types.Complex64 {
						w = 32
					}
					return Cplx{c.Conv(OFToF, cx.re, w), c.Conv(OFToF, cx.im, w)}
				}
				if u, isU := x.(UPtr); isU && t.Kind() == types.Uintptr {
					if isNilPtr(u.v) {
						return mkConst(64, 0)
					}
					if pv, isV := u.v.(*Value); isV {
						return mkConst(64, uint64(uintptr(unsafe.Pointer(pv))))
					}
				}
				fr.bad(in, fmt.Sprintf("convert %T to %s", x, to))
			}
			w := basicWidth(t)
			ff, tf := isFloat(from), t.Info()&types.IsFloat != 0
			switch {
			case ff && tf:
				return c.Conv(OFToF, a, w)
			case ff:
				if !a.isConst() {
					// out-of-range float->int is implementation-defined
					if isSigned(to) {
						return c.Conv(OFToS, a, w)
					}
					return c.Conv(OFToU, a, w)
				}
				f := fbits(a.w, a.val)
				if isSigned(to) {
					return mkConst(w, uint64(int64(f)))
				}
				if f < 0 {
					return mkConst(w, uint64(int64(f)))
				}
				if f >= math.MaxUint64 {
					return mkConst(w, 1<<63)
				}
				return mkConst(w, uint64(f))
			case tf:
				if t.Info()&types.IsComplex != 0 {
					fr.bad(in, "complex convert")
				}
				if isSigned(from) {
					return c.Conv(OSToF, a, w)
				}
				return c.Conv(OUToF, a, w)
			}
			if w < a.w {
				return c.Extract(a, 0, w)
			}
			if isSigned(from) {
				return c.SExt(a, w)
			}
			return c.ZExt(a, w)
		}
	case *types.Slice:
		if s, ok := x.(*Str); ok {
			if s.opaque {
				fr.bad(in, "bytes of opaque string")
			}
			if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				return p.strToRunes(fr, s)
			}
			return strToBytes(s)
		}
		return x
	case *types.Pointer:
		if u, ok := x.(UPtr); ok {
			return p.fromUnsafe(fr, in, u, t)
		}
		return x
	}
	if types.Identical(fu, tu) {
		return x
	}
	if _, ok := x.(Struct); ok {
		return x
	}
	fr.bad(in, fmt.Sprintf("convert %T from %s to %s", x, from, to))
	return nil
}

func (p *Path) fromUnsafe(fr *frame, in ssa.Instruction, u UPtr, t *types.Pointer) Value {
	if isNilPtr(u.v) {
		return (*Value)(nil)
	}
	if u.t != nil {
		if pt, ok := u.t.Underlying().(*types.Pointer); ok && types.Identical(pt.Elem().Underlying(), t.Elem().Underlying()) {
			return u.v
		}
		// same-width reinterpretation (math.Float64bits and friends)
		if pt, ok := u.t.Underlying().(*types.Pointer); ok {
			b1, o1 := pt.Elem().Underlying().(*types.Basic)
			b2, o2 := t.Elem().Underlying().(*types.Basic)
			if o1 && o2 && b1.Info()&types.IsNumeric != 0 && b2.Info()&types.IsNumeric != 0 && basicWidth(b1) == basicWidth(b2) {
				return u.v
			}
			if o2 && b2.Info()&types.IsString != 0 {
				if _, isSl := pt.Elem().Underlying().(*types.Slice); isSl {
					// *(*string)(unsafe.Pointer(&bytes))
					pv := u.v.(*Value)
					c := new(Value)
					*c = bytesToStr((*pv).([]Value))
					return c
				}
			}
		}
		fr.bad(in, fmt.Sprintf("unsafe conversion %s -> %s", u.t, t))
	}
	return u.v
}

func bytesToStr(a []Value) *Str {
	if len(a) == 0 {
		return emptyStr
	}
	allc := true
	for _, v := range a {
		t, ok := v.(*Term)
		if !ok {
			panic(abort{kind: "unsupported", why: fmt.Sprintf("byte slice holds %T", v)})
		}
		if !t.isConst() {
			allc = false
			break
		}
	}
	if allc {
		b := make([]byte, len(a))
		for i, v := range a {
			b[i] = byte(v.(*Term).val)
		}
		return strC(string(b))
	}
	b := make([]*Term, len(a))
	for i, v := range a {
		b[i] = v.(*Term)
	}
	return &Str{b: b, sym: true}
}
func strToBytes(s *Str) []Value {
	n := s.len()
	r := make([]Value, n)
	for i := 0; i < n; i++ {
		r[i] = s.at(i)
	}
	return r
}
func goBytes(b []byte) []Value {
	r := make([]Value, len(b))
	for i := range b {
		r[i] = mkConst(8, uint64(b[i]))
	}
	return r
}

func (p *Path) runeToStr(fr *frame, t *Term, signed bool) *Str {
	c := p.ctx()
	if t.isConst() {
		v := t.sval()
		if !signed {
			v = int64(t.val)
		}
		if v < 0 || v > 0x10FFFF {
			v = 0xFFFD
		}
		return strC(string(rune(v)))
	}
	var r *Term
	if t.w > 32 {
		if !p.branch(c.Bin(OULE, t, mkConst(t.w, 0x10FFFF))) {
			return strC("\uFFFD")
		}
		r = c.Extract(t, 0, 32)
	} else {
		r = c.ZExt(t, 32)
	}
	if p.branch(c.Bin(OULT, r, mkConst(32, 0x80))) {
		return strB([]*Term{c.Extract(r, 0, 8)})
	}
	f := p.w.m.stdFn("unicode/utf8", "AppendRune")
	return bytesToStr(p.callFn(fr, f, []Value{[]Value(nil), r}, nil).([]Value))
}
func (p *Path) runesToStr(fr *frame, a []Value) *Str {
	s := emptyStr
	for _, v := range a {
		s = strCat(s, p.runeToStr(fr, v.(*Term), true))
	}
	return s
}
func (p *Path) strToRunes(fr *frame, s *Str) []Value {
	r := []Value{}
	for i := 0; i < s.len(); {
		t, n := p.decodeRune(fr, s.slice(i, s.len()))
		r = append(r, t)
		i += n
	}
	return r
}

func (p *Path) growTo(s []Value, n int) []Value {
	nc := cap(s)
	if nc == 0 {
		nc = n
	}
	for nc < n {
		if nc < 256 {
			nc *= 2
		} else {
			nc += (nc + 768) / 4
		}
	}
	if nc < 8 && n <= 8 {
		nc = max(nc, n)
	}
	r := make([]Value, len(s), nc)
	for i := range s {
		r[i] = copyVal(s[i])
	}
	return r
}

func (p *Path) appendVals(fr *frame, s []Value, add []Value, et types.Type) []Value {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		tmp := add
		if overlap(r[len(s):], add) {
			tmp = append([]Value(nil), add...)
		}
		for i, v := range tmp {
			r[len(s)+i] = copyVal(v)
		}
		return r
	}
	r := p.growTo(s, n)
	for _, v := range add {
		r = append(r, copyVal(v))
	}
	if cap(r) > len(r) {
		tail := r[len(r):cap(r)]
		z := p.zero(et)
		switch z.(type) {
		case Struct, Array:
			for i := range tail {
				tail[i] = p.zero(et)
			}
		default:
			for i := range tail {
				tail[i] = z
			}
		}
	}
	return r
}

func overlap(a, b []Value) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	a0, b0 := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return a0 < b0+uintptr(len(b))*16 && b0 < a0+uintptr(len(a))*16
}

func (p *Path) builtin(fr *frame, b *ssa.Builtin, args []Value, sargs []ssa.Value) Value {
	switch b.Name() {
	case "append":
		s, _ := args[0].([]Value)
		et := sargs[0].Type().Underlying().(*types.Slice).Elem()
		switch a := args[1].(type) {
		case *Str:
			if a.opaque {
				panic(abort{kind: "unsupported", why: "append of opaque string"})
			}
			return p.appendVals(fr, s, strToBytes(a), et)
		case []Value:
			return p.appendVals(fr, s, a, et)
		}
	case "copy":
		d := args[0].([]Value)
		var src []Value
		switch a := args[1].(type) {
		case *Str:
			src = strToBytes(a)
		case []Value:
			src = a
		}
		n := min(len(d), len(src))
		if n > 0 {
			tmp := src[:n]
			if overlap(d, src) {
				tmp = append([]Value(nil), tmp...)
			}
			for i := 0; i < n; i++ {
				storeTo(&d[i], tmp[i])
			}
		}
		return mkInt(int64(n))
	case "len":
		switch a := args[0].(type) {
		case *Str:
			if a.opaque {
				return p.segLen(a)
			}
			return mkInt(int64(a.len()))
		case []Value:
			return mkInt(int64(len(a)))
		case *Map:
			if a == nil {
				return mkInt(0)
			}
			if fr.fi.raced && len(p.gors) > 1 {
				p.accessPoint(fr.curIn, a, false)
			}
			if p.memYield && fr.fi.target {
				p.memPoint(fr, fr.curIn, a, false)
			}
			return mkInt(int64(a.n))
		case Array:
			return mkInt(int64(len(a)))
		case *Value:
			if at, ok := sargs[0].Type().Underlying().(*types.Pointer); ok {
				return mkInt(at.Elem().Underlying().(*types.Array).Len())
			}
		case *Chan:
			if a == nil {
				return mkInt(0)
			}
			return mkInt(int64(len(a.buf)))
		}
	case "cap":
		switch a := args[0].(type) {
		case []Value:
			return mkInt(int64(cap(a)))
		case Array:
			return mkInt(int64(len(a)))
		case *Chan:
			if a == nil {
				return mkInt(0)
			}
			return mkInt(int64(a.cap))
		case *Value:
			if at, ok := sargs[0].Type().Underlying().(*types.Pointer); ok {
				return mkInt(at.Elem().Underlying().(*types.Array).Len())
			}
		}
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			if fr.fi.raced && len(p.gors) > 1 {
				p.accessPoint(fr.curIn, m, true)
			}
			if p.memYield && fr.fi.target {
				p.memPoint(fr, fr.curIn, m, true)
			}
			p.mapDel(m, args[1])
		}
		return nil
	case "clear":
		switch a := args[0].(type) {
		case *Map:
			if a != nil {
				if fr.fi.raced && len(p.gors) > 1 {
					p.accessPoint(fr.curIn, a, true)
				}
				for _, e := range a.ents {
					e.live = false
				}
				a.ents, a.idx, a.n, a.nsym = nil, map[string]*mapEnt{}, 0, 0
			}
		case []Value:
			et := sargs[0].Type().Underlying().(*types.Slice).Elem()
			for i := range a {
				storeTo(&a[i], p.zero(et))
			}
		}
		return nil
	case "close":
		p.chanClose(fr, args[0])
		return nil
	case "panic":
		panic(goPanic{v: args[0].(Iface)})
	case "recover":
		return p.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := sargs[0].Type()
		for _, a := range args[1:] {
			var less *Term
			switch x := r.(type) {
			case *Term:
				y := a.(*Term)
				c := p.ctx()
				switch {
				case isFloat(t):
					panicIf(!x.isConst() || !y.isConst(), "symbolic float min/max")
					fx, fy := fbits(x.w, x.val), fbits(y.w, y.val)
					if b.Name() == "min" {
						r = mkConst(x.w, tobits(x.w, math.Min(fx, fy)))
					} else {
						r = mkConst(x.w, tobits(x.w, math.Max(fx, fy)))
					}
					continue
				case isSigned(t):
					less = c.Bin(OSLT, y, x)
				default:
					less = c.Bin(OULT, y, x)
				}
				if b.Name() == "min" {
					r = c.Ite(less, y, x)
				} else {
					r = c.Ite(less, x, y)
				}
			case *Str:
				y := a.(*Str)
				lt := p.branch(p.strLess(y, x, false))
				if lt == (b.Name() == "min") {
					r = y
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "Add":
		panic(abort{kind: "unsupported", why: "unsafe.Add"})
	case "String": // unsafe.String(ptr, len)
		n := p.concInt(args[1])
		if n == 0 {
			return emptyStr
		}
		ptr := args[0].(*Value)
		return bytesToStr(unsafe.Slice(ptr, n))
	case "StringData":
		s := args[0].(*Str)
		if s.len() == 0 {
			return (*Value)(nil)
		}
		return &strToBytes(s)[0]
	case "SliceData":
		s := args[0].([]Value)
		if cap(s) == 0 {
			return (*Value)(nil)
		}
		return &s[:1][0]
	case "Slice":
		n := p.concInt(args[1])
		if n == 0 {
			return []Value{}
		}
		return unsafe.Slice(args[0].(*Value), n)
	case "real":
		return args[0].(Cplx).re
	case "imag":
		return args[0].(Cplx).im
	case "complex":
		return Cplx{args[0].(*Term), args[1].(*Term)}
	}
	panic(abort{kind: "unsupported", why: fmt.Sprintf("builtin %s on %T", b.Name(), first(args))})
}

func first(a []Value) Value {
	if len(a) > 0 {
		return a[0]
	}
	return nil
}
func panicIf(b bool, why string) {
	if b {
		panic(abort{kind: "unsupported", why: why})
	}
}

func (p *Path) doRecover(fr *frame) Value {
	c := fr.caller
	if c == nil || !c.panicking || c.recovered {
		return Iface{}
	}
	c.recovered = true
	gp := c.panicVal.(goPanic)
	return gp.v
}
