package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Happens-before race detection (vector clocks).  Every execution explored is
// also checked for two unordered accesses to the same memory, one of them a
// write, made by the code under test.  Where the order of synchronisation
// operations is approximated, it is towards more ordering.

type epoch struct {
	g   int
	clk uint32
	pos ssa.Instruction
}

type shadow struct {
	w  epoch
	rs []epoch
}

type hbKey struct {
	obj any
	rw  byte
}

func (p *Path) rel(k hbKey) {
	if len(p.gors) < 2 {
		return
	}
	g := p.cur
	if p.hb == nil {
		p.hb = map[hbKey][]uint32{}
	}
	p.hb[k] = vcJoin(p.hb[k], g.vc)
	g.tick()
}

func (p *Path) acq(k hbKey) {
	if len(p.gors) < 2 {
		return
	}
	if c := p.hb[k]; c != nil {
		p.cur.vc = vcJoin(p.cur.vc, c)
	}
}

func (p *Path) acqRel(k hbKey) { p.acq(k); p.rel(k) }

func (g *Gor) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func vcJoin(a, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (g *Gor) after(e epoch) bool { return e.g < len(g.vc) && e.clk <= g.vc[e.g] }

// access records an access by the code under test to the memory k.
func (p *Path) access(in ssa.Instruction, k any, write bool) {
	if p.shadow == nil {
		p.shadow = map[any]*shadow{}
	}
	g := p.cur
	s := p.shadow[k]
	if s == nil {
		s = &shadow{w: epoch{g: -1}}
		p.shadow[k] = s
	}
	if len(g.vc) <= g.id {
		g.tick()
	}
	e := epoch{g.id, g.vc[g.id], in}
	if s.w.g >= 0 && s.w.g != g.id && !g.after(s.w) {
		p.race(s.w, e)
	}
	if !write {
		for i := range s.rs {
			if s.rs[i].g == g.id {
				s.rs[i] = e
				return
			}
		}
		s.rs = append(s.rs, e)
		return
	}
	for _, r := range s.rs {
		if r.g != g.id && !g.after(r) {
			p.race(r, e)
		}
	}
	s.rs = s.rs[:0]
	s.w = e
}

func (p *Path) race(a, b epoch) {
	x := []string{p.posOf(a.pos), p.posOf(b.pos)}
	sort.Strings(x)
	if p.races == nil {
		p.races = map[string]bool{}
	}
	p.races[x[0]+" and "+x[1]] = true
}

// reportRaces reports races of a finished path, one per pair of accesses.
func (p *Path) reportRaces() {
	for d := range p.races {
		m := p.w.m
		m.mu.Lock()
		if m.races == nil {
			m.races = map[string]bool{}
		}
		n := len(m.races)
		seen := m.races[d]
		m.races[d] = true
		m.mu.Unlock()
		if seen || n >= 4 {
			continue
		}
		func() {
			defer func() { recover() }()
			p.ensureModel()
			p.report("race", "shared data is accessed in a defined order", d, p.model)
		}()
	}
}

// accessPoint is called for instructions of the code under test.
func (p *Path) accessPoint(in ssa.Instruction, a Value, write bool) {
	if p.inInit > 0 {
		return
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if localAddr(x.X) {
			return
		}
	case *ssa.Store:
		if localAddr(x.Addr) {
			return
		}
	}
	switch a := a.(type) {
	case *Value:
		if a != nil {
			p.access(in, a, write)
		}
	case *Map:
		if a != nil {
			p.access(in, a, write)
		}
	}
}

func raceChecked(fi *fnInfo) bool {
	f := fi.fn
	if o := f.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "bytes", "bufio", "strings", "maps", "slices":
		return true
	}
	if !fi.target || !f.Pos().IsValid() {
		return false
	}
	return !strings.HasPrefix(filepath.Base(f.Prog.Fset.Position(f.Pos()).Filename), "zz_verif_")
}

func init() {
	wrap := func(n string, before, after func(p *Path, k Value)) {
		f := intrinsics[n]
		if f == nil {
			panic("no intrinsic " + n)
		}
		intrinsics[n] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			if before != nil {
				before(p, a[0])
			}
			r := f(p, fr, fn, a)
			if after != nil {
				after(p, a[0])
			}
			return r
		}
	}
	acq := func(c string) func(p *Path, k Value) {
		return func(p *Path, k Value) {
			for i := 0; i < len(c); i++ {
				p.acq(hbKey{k, c[i]})
			}
		}
	}
	rel := func(c byte) func(p *Path, k Value) { return func(p *Path, k Value) { p.rel(hbKey{k, c}) } }
	both := func(p *Path, k Value) { p.acqRel(hbKey{k, 'r'}) }
	for n := range intrinsics {
		switch {
		case strings.HasPrefix(n, "sync/atomic."), strings.HasPrefix(n, "(*sync/atomic."):
			wrap(n, both, both)
		case strings.HasPrefix(n, "(*sync.Map)."), strings.HasPrefix(n, "(*sync.Once)."), strings.HasPrefix(n, "(*sync.Pool)."):
			wrap(n, both, both)
		case !strings.HasPrefix(n, "(*sync."), strings.HasPrefix(n, "(*sync.Cond)."):
		case strings.HasSuffix(n, ").Lock"), strings.HasSuffix(n, ".TryLock"):
			wrap(n, nil, acq("rw"))
		case strings.HasSuffix(n, ".RLock"):
			wrap(n, nil, acq("r"))
		case strings.HasSuffix(n, ".RUnlock"):
			wrap(n, rel('w'), nil)
		case strings.HasSuffix(n, ".Unlock"):
			wrap(n, rel('r'), nil)
		case strings.HasSuffix(n, ".Wait"):
			wrap(n, nil, acq("r"))
		case strings.HasSuffix(n, ".Add"), strings.HasSuffix(n, ".Done"):
			wrap(n, rel('r'), nil)
		default:
			panic(fmt.Sprintf("synchronisation %s is not ordered", n))
		}
	}
}
