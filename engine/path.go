package main

import (
	"fmt"
	"go/types"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// abort ends the current path.
type abort struct {
	kind string // "infeasible", "unsupported", "limit", "done", "kill", "unknown"
	why  string
}

// goPanic is a panic of the interpreted program.
type goPanic struct {
	v  Iface
	st string
}

type Decision struct {
	Val   uint64
	Taken bool
	Impl  bool // outcome implied by the path condition
}

type pending struct {
	prefix []Decision
	model  map[string]uint64 // by variable name; nil: unknown
}

// Violation is a candidate counterexample.
type Violation struct {
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
	Kind    string            `json:"kind"` // assert, panic, deadlock, hang, alloc, race
	Detail  string            `json:"detail"`
	Values  map[string]uint64 `json:"values"`
	Inputs  []NondetRec       `json:"inputs"`
	Sched   []SchedRec        `json:"sched,omitempty"`
}

// NondetRec is one resolved nondeterministic input, in draw order.
type NondetRec struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
	Str  []byte `json:"str,omitempty"`
}

type SchedRec struct {
	G   int    `json:"g"`
	Pos string `json:"pos"`
}

type nondet struct {
	name, kind string
	t          *Term   // scalar
	b          []*Term // string/bytes
}

type group struct {
	parent *group
	cons   []*Term
}

func (g *group) find() *group {
	for g.parent != nil {
		g = g.parent
	}
	return g
}

// Path is one execution.
type Path struct {
	hb      map[hbKey][]uint32
	shadow  map[any]*shadow
	races   map[string]bool
	w       *Worker
	prefix  []Decision
	pos     int
	trail   []Decision
	pc      []*Term
	groups  map[uint32]*group
	model   Model
	modelOK bool

	nondets  []nondet
	nameCnt  map[string]int
	steps    int64
	depth    int
	reach    map[string]bool
	asserts  int
	viol     []*Violation
	mapND    bool
	uf       map[string][]ufApp
	ext      map[string]any // scratch for intrinsics
	allocMax int
	inInit   int
	initMode bool

	gors       []*Gor
	cur        *Gor
	schedND    bool
	memYield   bool
	preempt    int
	sched      []SchedRec
	clock      int64
	killed     bool
	mainErr    any
	gorWG      sync.WaitGroup
	chanID     int
	timers     []*timer
	incomplete []string
	trace      bool
	fpanic     string
}

type ufApp struct {
	sym bool
	in  []*Term
	out []*Term
}

func (p *Path) ctx() *Ctx { return p.w.ctx }

func (p *Path) addPC(t *Term) {
	if t.isConst() {
		return
	}
	p.pc = append(p.pc, t)
	vs := t.varSet()
	var g *group
	for _, id := range vs.ids {
		h := p.groups[id]
		if h == nil {
			continue
		}
		h = h.find()
		if g == nil {
			g = h
		} else if g != h {
			if len(h.cons) > len(g.cons) {
				g, h = h, g
			}
			g.cons = append(g.cons, h.cons...)
			h.cons = nil
			h.parent = g
		}
	}
	if g == nil {
		g = &group{}
	}
	g.cons = append(g.cons, t)
	for _, id := range vs.ids {
		p.groups[id] = g
	}
}

// slice returns the path constraints relevant to t, plus t.
func (p *Path) slice(t *Term) []*Term {
	var out []*Term
	seen := map[*group]bool{}
	for _, id := range t.varSet().ids {
		if g := p.groups[id]; g != nil {
			g = g.find()
			if !seen[g] {
				seen[g] = true
				out = append(out, g.cons...)
			}
		}
	}
	return append(out, t)
}

// feasible reports whether pc ∧ t is satisfiable, with a full model.
func (p *Path) feasible(t *Term) (SatRes, Model) {
	if t.isConst() {
		if t.val == 0 {
			return Unsat, nil
		}
		return Sat, p.model
	}
	r, e := p.w.sol.Check(p.slice(t))
	if r != Sat {
		return r, nil
	}
	p.ensureModel()
	m := make(Model, len(p.model)+len(e.vars))
	for k, v := range p.model {
		m[k] = v
	}
	for i, v := range e.vars {
		m[v] = e.vals[i]
	}
	return Sat, m
}

func (p *Path) ensureModel() {
	if p.modelOK {
		return
	}
	r, e := p.w.sol.Check(p.pc)
	if r == Unsat {
		panic(abort{kind: "infeasible"})
	}
	if r == Unknown {
		panic(abort{kind: "unknown", why: "path condition undecided"})
	}
	p.model = Model{}
	for i, v := range e.vars {
		p.model[v] = e.vals[i]
	}
	p.modelOK = true
	p.ctx().dirty = true
}

func (p *Path) setModel(m Model) {
	p.model = m
	p.modelOK = true
	p.ctx().dirty = true
}

func (p *Path) evalM(t *Term) uint64 {
	p.ensureModel()
	if p.ctx().dirty {
		p.ctx().newEval()
	}
	return p.ctx().eval(t, p.model)
}

func (p *Path) modelNames(m Model) map[string]uint64 {
	r := make(map[string]uint64, len(m))
	for k, v := range m {
		r[k.name] = v
	}
	return r
}

func (p *Path) pushAlt(d Decision, m Model) {
	pre := make([]Decision, len(p.trail)+1)
	copy(pre, p.trail)
	pre[len(p.trail)] = d
	p.w.addPending(&pending{prefix: pre, model: p.modelNames(m)})
}

// branch decides a boolean term, forking when both outcomes are feasible.
func (p *Path) branch(cond *Term) bool {
	if cond.op == OConst {
		return cond.val != 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.trail = append(p.trail, d)
		if d.Impl {
			return d.Taken
		}
		if d.Taken {
			p.addPC(cond)
		} else {
			p.addPC(p.ctx().Not(cond))
		}
		return d.Taken
	}
	p.w.m.nBranch.Add(1)
	v := p.evalM(cond) != 0
	neg := p.ctx().Not(cond)
	this, other := cond, neg
	if !v {
		this, other = neg, cond
	}
	r, m := p.feasible(other)
	switch r {
	case Unsat:
		p.trail = append(p.trail, Decision{Taken: v, Impl: true})
		return v
	case Unknown:
		p.noteIncomplete("solver-unknown at branch")
	case Sat:
		p.pushAlt(Decision{Taken: !v}, m)
	}
	p.trail = append(p.trail, Decision{Taken: v})
	p.addPC(this)
	return v
}

// concretize forks over the feasible values of t.
func (p *Path) concretize(t *Term) uint64 {
	n := 0
	for {
		if t.isConst() {
			return t.val
		}
		n++
		if n > p.w.m.maxConc {
			panic(abort{kind: "limit", why: "concretisation fan-out"})
		}
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			p.pos++
			p.trail = append(p.trail, d)
			e := p.ctx().Eq(t, mkConst(t.w, d.Val))
			if d.Taken {
				p.addPC(e)
				return d.Val
			}
			p.addPC(p.ctx().Not(e))
			continue
		}
		v := p.evalM(t)
		e := p.ctx().Eq(t, mkConst(t.w, v))
		ne := p.ctx().Not(e)
		r, m := p.feasible(ne)
		if r == Unsat {
			// implied value: record so replays do not need the solver
			p.trail = append(p.trail, Decision{Val: v, Taken: true})
			p.addPC(e)
			return v
		}
		if r == Unknown {
			p.noteIncomplete("solver-unknown at concretisation")
		} else {
			p.pushAlt(Decision{Val: v, Taken: false}, m)
		}
		p.trail = append(p.trail, Decision{Val: v, Taken: true})
		p.addPC(e)
		return v
	}
}

// choose forks over 0..n-1 through a symbolic selector.
func (p *Path) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	t := p.fresh("choose:"+name, 32)
	p.assume(p.ctx().Bin(OULT, t, mkConst(32, uint64(n))))
	return int(p.concretize(t))
}

func (p *Path) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		panic(abort{kind: "infeasible"})
	}
	if p.pos < len(p.prefix) {
		// feasibility was established when the prefix was created
		p.addPC(t)
		return
	}
	if p.evalM(t) != 0 {
		p.addPC(t)
		return
	}
	r, m := p.feasible(t)
	switch r {
	case Unsat:
		panic(abort{kind: "infeasible"})
	case Unknown:
		panic(abort{kind: "unknown", why: "assumption undecided"})
	}
	p.addPC(t)
	p.setModel(m)
}

func (p *Path) noteIncomplete(s string) { p.incomplete = append(p.incomplete, s) }

// assert checks that cond holds for every value on this path.
func (p *Path) assert(label string, cond *Term) {
	p.asserts++
	p.w.m.nAssert.Add(1)
	p.w.m.noteLabel(label)
	if cond.isTrue() {
		return
	}
	if p.pos < len(p.prefix) {
		// this assertion was already decided on the parent path
		if !cond.isFalse() {
			p.addPC(cond)
		}
		return
	}
	neg := p.ctx().Not(cond)
	p.ensureModel()
	r, m := p.feasible(neg)
	p.w.m.nDischarged.Add(1)
	if r == Sat {
		p.report("assert", label, "", m)
	} else if r == Unknown {
		p.noteIncomplete("solver-unknown at assertion " + label)
	}
	if cond.isFalse() {
		panic(abort{kind: "done", why: "assert failed"})
	}
	// continue under the assumption that it held
	p.assume(cond)
}

func (p *Path) report(kind, label, detail string, m Model) {
	v := &Violation{Harness: p.w.harness, Label: label, Kind: kind, Detail: detail, Values: p.modelNames(m)}
	v.Inputs = p.resolve(m)
	v.Sched = append(v.Sched, p.sched...)
	p.viol = append(p.viol, v)
	p.w.m.addViolation(v)
}

func (p *Path) resolve(m Model) []NondetRec {
	c := p.ctx()
	c.newEval()
	var out []NondetRec
	for _, n := range p.nondets {
		r := NondetRec{Name: n.name, Kind: n.kind}
		if n.t != nil {
			r.Val = c.eval(n.t, m)
		}
		if n.kind == "str" || n.kind == "bytes" {
			r.Str = make([]byte, len(n.b))
			for i, t := range n.b {
				r.Str[i] = byte(c.eval(t, m))
			}
		}
		out = append(out, r)
	}
	c.dirty = true
	return out
}

// fresh creates a new symbolic variable with a path-deterministic name.
func (p *Path) fresh(name string, w uint8) *Term {
	k := p.nameCnt[name]
	p.nameCnt[name] = k + 1
	v := p.ctx().Var(fmt.Sprintf("%s#%d", name, k), w)
	if p.w.startModel != nil {
		if x, ok := p.w.startModel[v.name]; ok {
			if p.model == nil {
				p.model = Model{}
			}
			if _, have := p.model[v]; !have {
				p.model[v] = x
			}
		}
	}
	return v
}

func (p *Path) record(name, kind string, t *Term, b []*Term) {
	p.nondets = append(p.nondets, nondet{name: name, kind: kind, t: t, b: b})
}

// Machine is shared by all workers of one harness run.
type Machine struct {
	prog     *ssa.Program
	target   map[*ssa.Package]bool
	maxConc  int
	maxSteps int64
	races    map[string]bool
	hang     bool // a path that does not end was reported
	maxDepth int
	deadline time.Time

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*pending
	idle     int
	nworkers int
	stop     bool

	nBranch, nAssert, nDischarged atomic.Int64
	paths, infeasible             atomic.Int64
	steps                         atomic.Int64
	unsupported                   map[string]int
	limits                        map[string]int
	unknowns                      map[string]int
	labels                        map[string]int64
	reached                       map[string]int64
	viol                          []*Violation
	violCnt                       map[string]int
	maxViol                       int
	samples                       []*Sample
	initNotes                     map[string]bool
	maxSamples                    int
	allocMax                      int
	rtErrType                     types.Type
	harnessPkg                    *ssa.Package
	stubOnce                      sync.Once
	stubT                         map[string]bool
	fnUsed                        sync.Map
	blkUsed                       sync.Map
}

// Sample is a completed path's model, used to validate the translation.
type Sample struct {
	Inputs []NondetRec `json:"inputs"`
	Trace  []string    `json:"trace,omitempty"`
}

func (m *Machine) noteLabel(l string) {
	m.mu.Lock()
	m.labels[l]++
	m.mu.Unlock()
}

func (m *Machine) addViolation(v *Violation) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.violCnt[v.Kind+":"+v.Label]++
	if m.violCnt[v.Kind+":"+v.Label] <= m.maxViol {
		m.viol = append(m.viol, v)
	}
	if m.violCnt[v.Kind+":"+v.Label] >= m.maxViol {
		m.stop = true
		m.cond.Broadcast()
	}
}
