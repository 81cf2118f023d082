package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Worker explores paths with its own term table and solver.
type Worker struct {
	m          *Machine
	ctx        *Ctx
	sol        *Solver
	local      []*pending
	gl         []*Value
	tgl        []int
	harness    string
	startModel map[string]uint64
	persist    map[string]any
	fnSeen     map[*fnInfo]map[int]bool
}

func (w *Worker) reset() {
	if w.sol != nil {
		w.sol.stop()
	}
	w.ctx = newCtx()
	w.sol = newSolver(w.ctx)
	w.gl = nil
	w.tgl = nil
	w.persist = map[string]any{}
}

func (w *Worker) noteFn(fi *fnInfo) {
	if _, ok := w.fnSeen[fi]; !ok {
		w.fnSeen[fi] = map[int]bool{}
	}
}
func (w *Worker) noteBlk(fi *fnInfo, b int) {
	if m := w.fnSeen[fi]; m != nil {
		m[b] = true
	}
}

func (w *Worker) addPending(pd *pending) {
	m := w.m
	// donate when others are idle
	m.mu.Lock()
	if m.idle > 0 && len(m.queue) < m.nworkers {
		m.queue = append(m.queue, pd)
		m.cond.Signal()
		m.mu.Unlock()
		return
	}
	m.mu.Unlock()
	w.local = append(w.local, pd)
}

func (w *Worker) next() *pending {
	m := w.m
	if n := len(w.local); n > 0 {
		m.mu.Lock()
		if m.stop {
			m.mu.Unlock()
			return nil
		}
		// share the shallowest pending alternative
		if m.idle > 0 && len(m.queue) == 0 && n > 1 {
			m.queue = append(m.queue, w.local[0])
			w.local = w.local[1:]
			n--
			m.cond.Signal()
		}
		m.mu.Unlock()
		pd := w.local[n-1]
		w.local = w.local[:n-1]
		return pd
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	for {
		if m.stop {
			return nil
		}
		if n := len(m.queue); n > 0 {
			pd := m.queue[0]
			m.queue = m.queue[1:]
			return pd
		}
		m.idle++
		if m.idle == m.nworkers {
			m.stop = true
			m.cond.Broadcast()
			return nil
		}
		m.cond.Wait()
		m.idle--
	}
}

func (w *Worker) runPath(fn *ssa.Function, pd *pending) {
	m := w.m
	// target globals start afresh on every path
	for _, i := range w.tgl {
		w.gl[i] = nil
	}
	w.tgl = w.tgl[:0]
	w.startModel = pd.model
	p := &Path{w: w, prefix: pd.prefix, groups: map[uint32]*group{}, nameCnt: map[string]int{}, ext: map[string]any{}, reach: map[string]bool{}, uf: map[string][]ufApp{}, modelOK: pd.model != nil, model: Model{}}
	w.ctx.dirty = true
	g := p.newGor()
	p.cur = g
	var failure any
	func() {
		defer func() {
			failure = recover()
			if failure != nil {
				if _, ok := failure.(abort); !ok {
					failure = wrapIfHost(failure)
				}
			}
		}()
		p.callFn(nil, fn, nil, nil)
	}()
	g.done = true
	p.killAll()
	m.steps.Add(p.steps)
	completed := false
	switch f := failure.(type) {
	case nil:
		completed = true
		p.reportRaces()
	case abort:
		switch f.kind {
		case "infeasible":
			m.infeasible.Add(1)
			return
		case "done":
			completed = false
		default:
			m.mu.Lock()
			switch f.kind {
			case "unsupported":
				m.unsupported[f.why]++
			case "unknown":
				m.unknowns[f.why]++
			default:
				m.limits[f.why]++
			}
			hang := f.kind == "limit" && (strings.HasPrefix(f.why, "steps in ") || strings.HasPrefix(f.why, "call depth in ")) && !m.hang
			m.hang = m.hang || hang
			m.mu.Unlock()
			if hang {
				func() {
					defer func() { recover() }()
					p.ensureModel()
					p.report("hang", "the code ends", f.why, p.model)
				}()
			}
		}
	case goPanic:
		func() {
			defer func() { recover() }()
			p.ensureModel()
			p.report("panic", "no panic", p.panicText(f), p.model)
		}()
	case deadlock:
		func() {
			defer func() { recover() }()
			p.ensureModel()
			p.report("deadlock", "no deadlock", f.desc, p.model)
		}()
	case hostErr:
		m.mu.Lock()
		m.unsupported[fmt.Sprintf("engine error: %v", f.e)]++
		m.mu.Unlock()
		if os.Getenv("VSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, f.e, f.st)
		}
	default:
		m.mu.Lock()
		m.unsupported[fmt.Sprintf("engine error: %v", f)]++
		m.mu.Unlock()
	}
	m.paths.Add(1)
	m.mu.Lock()
	for k := range p.reach {
		m.reached[k]++
	}
	for _, s := range p.incomplete {
		m.unknowns[s]++
	}
	n := m.paths.Load()
	take := completed && len(p.viol) == 0 && (len(m.samples) < m.maxSamples || n&(n-1) == 0)
	m.mu.Unlock()
	if take {
		var s *Sample
		func() {
			defer func() { recover() }()
			p.ensureModel()
			s = &Sample{Inputs: p.resolve(p.model), Trace: p.obsTrace(p.model)}
		}()
		if s != nil {
			m.mu.Lock()
			if len(m.samples) < m.maxSamples {
				m.samples = append(m.samples, s)
			} else if m.maxSamples > 0 {
				m.samples[int(n)%m.maxSamples] = s
			}
			m.mu.Unlock()
		}
	}
}

func wrapIfHost(e any) any {
	switch e.(type) {
	case goPanic, deadlock, hostErr, killed:
		return e
	}
	return wrapHost(e)
}

func (p *Path) panicText(g goPanic) string {
	return dispVal(g.v)
}

// HarnessResult is the outcome of exploring one harness.
type HarnessResult struct {
	Harness     string            `json:"harness"`
	Paths       int64             `json:"paths"`
	Infeasible  int64             `json:"infeasible_paths"`
	Steps       int64             `json:"ssa_steps"`
	Branches    int64             `json:"symbolic_branches"`
	Asserts     int64             `json:"assertions_evaluated"`
	Discharged  int64             `json:"assertion_queries"`
	Labels      map[string]int64  `json:"assertions"`
	Reached     map[string]int64  `json:"reached"`
	Unsupported map[string]int    `json:"unsupported,omitempty"`
	Limits      map[string]int    `json:"limits,omitempty"`
	Unknowns    map[string]int    `json:"unknown,omitempty"`
	TimedOut    bool              `json:"timed_out,omitempty"`
	Wall        float64           `json:"wall_s"`
	InitNotes   []string          `json:"init_notes,omitempty"`
	Functions   map[string]string `json:"functions"`
	Violations  []*Violation      `json:"-"`
	Samples     []*Sample         `json:"-"`
}

func (r *HarnessResult) complete() bool {
	return len(r.Unsupported) == 0 && len(r.Limits) == 0 && len(r.Unknowns) == 0 && !r.TimedOut
}

type runOpts struct {
	workers    int
	timeout    time.Duration
	maxViol    int
	maxSamples int
	maxSteps   int64
}

func explore(prog *ssa.Program, target map[*ssa.Package]bool, fn *ssa.Function, o runOpts) *HarnessResult {
	m := &Machine{prog: prog, target: target, maxConc: 300, maxSteps: o.maxSteps, maxDepth: 3000, nworkers: o.workers,
		unsupported: map[string]int{}, limits: map[string]int{}, unknowns: map[string]int{}, labels: map[string]int64{}, reached: map[string]int64{},
		violCnt: map[string]int{}, maxViol: o.maxViol, maxSamples: o.maxSamples, initNotes: map[string]bool{}, allocMax: 256}
	m.cond = sync.NewCond(&m.mu)
	if rp := prog.ImportedPackage("runtime"); rp != nil {
		m.rtErrType = rp.Pkg.Scope().Lookup("errorString").Type()
	}
	m.harnessPkg = fn.Pkg
	t0 := time.Now()
	m.queue = []*pending{{prefix: nil, model: map[string]uint64{}}}
	timedOut := false
	timerStop := time.AfterFunc(o.timeout, func() {
		m.mu.Lock()
		if !m.stop {
			timedOut = true
			m.stop = true
		}
		m.cond.Broadcast()
		m.mu.Unlock()
	})
	var wg sync.WaitGroup
	ws := make([]*Worker, o.workers)
	for i := range ws {
		w := &Worker{m: m, harness: fn.Name(), fnSeen: map[*fnInfo]map[int]bool{}}
		w.reset()
		ws[i] = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer w.sol.stop()
			for {
				pd := w.next()
				if pd == nil {
					return
				}
				if w.ctx.size() > 400000 || len(w.sol.cache) > 300000 {
					w.reset()
				}
				w.runPath(fn, pd)
			}
		}()
	}
	wg.Wait()
	timerStop.Stop()
	r := &HarnessResult{Harness: fn.Name(), Paths: m.paths.Load(), Infeasible: m.infeasible.Load(), Steps: m.steps.Load(), Branches: m.nBranch.Load(),
		Asserts: m.nAssert.Load(), Discharged: m.nDischarged.Load(), Labels: m.labels, Reached: m.reached, Unsupported: m.unsupported, Limits: m.limits,
		Unknowns: m.unknowns, TimedOut: timedOut, Wall: time.Since(t0).Seconds(), Violations: m.viol, Samples: m.samples, Functions: map[string]string{}}
	for k := range m.initNotes {
		r.InitNotes = append(r.InitNotes, k)
	}
	sort.Strings(r.InitNotes)
	cov := map[*fnInfo]map[int]bool{}
	for _, w := range ws {
		for fi, bs := range w.fnSeen {
			if cov[fi] == nil {
				cov[fi] = map[int]bool{}
			}
			for b := range bs {
				cov[fi][b] = true
			}
		}
	}
	for fi, bs := range cov {
		n := fi.fn.String()
		n = strings.ReplaceAll(n, "github.com/PatchLens/go-update-lens/", "")
		if strings.Contains(n, ".vstub") || strings.Contains(n, ".VH") || strings.Contains(n, ".vh") {
			continue
		}
		r.Functions[n] = fmt.Sprintf("%d/%d blocks", len(bs), len(fi.fn.Blocks))
	}
	return r
}

var _ types.Type
