package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

// SolverStats are accumulated over all workers.
type SolverStats struct {
	Queries   atomic.Int64
	SatN      atomic.Int64
	UnsatN    atomic.Int64
	UnknownN  atomic.Int64
	CacheHits atomic.Int64
	ModelHits atomic.Int64
	TimeNs    atomic.Int64
	MaxNs     atomic.Int64
	Fallbacks atomic.Int64
	CrossN    atomic.Int64
	CrossDiff atomic.Int64
}

var sstats SolverStats

// Solver drives one interactive z3 process.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.Closer
	out     *bufio.Reader
	gen     uint32
	ctx     *Ctx
	cache   map[string]*cacheEnt
	softMs  int
	hardMs  int
	bin     string
	crossBI int // every n-th query is cross-checked with cvc5 (0 = never)
	nq      int
}

type cacheEnt struct {
	res  SatRes
	vars []*Term
	vals []uint64
}

var solverGen atomic.Uint32

func newSolver(ctx *Ctx) *Solver {
	return &Solver{ctx: ctx, cache: map[string]*cacheEnt{}, softMs: 8000, hardMs: 60000, bin: z3bin}
}

var z3bin = "z3-new"
var crossEvery = 0

func (s *Solver) start() {
	cmd := exec.Command(s.bin, "-in", "-smt2")
	w, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	s.cmd, s.in, s.inC, s.out = cmd, bufio.NewWriterSize(w, 1<<16), w, bufio.NewReaderSize(r, 1<<16)
	s.gen = solverGen.Add(1)
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.softMs)
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) define(w *bufio.Writer, t *Term) {
	if t.op == OConst || t.defd == s.gen {
		return
	}
	if t.op == OVar {
		fmt.Fprintf(w, "(declare-const %s %s)\n", t.ref(), sortStr(t.w))
		t.defd = s.gen
		return
	}
	s.define(w, t.a)
	if t.b != nil {
		s.define(w, t.b)
	}
	if t.c != nil {
		s.define(w, t.c)
	}
	fmt.Fprintf(w, "(define-fun %s () %s %s)\n", t.ref(), sortStr(t.w), t.body())
	t.defd = s.gen
}

// Check decides the conjunction of cons.
func (s *Solver) Check(cons []*Term) (SatRes, *cacheEnt) {
	live := cons[:0:0]
	for _, t := range cons {
		if t.isConst() {
			if t.val == 0 {
				return Unsat, nil
			}
			continue
		}
		live = append(live, t)
	}
	if len(live) == 0 {
		return Sat, &cacheEnt{res: Sat}
	}
	sort.Slice(live, func(i, j int) bool { return live[i].id < live[j].id })
	ids := make([]uint32, 0, len(live))
	for i, t := range live {
		if i > 0 && live[i-1] == t {
			continue
		}
		ids = append(ids, t.id)
	}
	key := string(unsafe.Slice((*byte)(unsafe.Pointer(&ids[0])), len(ids)*4))
	if e, ok := s.cache[key]; ok {
		sstats.CacheHits.Add(1)
		return e.res, e
	}
	t0 := time.Now()
	vs := emptyVS
	for _, t := range live {
		vs = unionVS(vs, t.varSet())
	}
	res, vals := s.ask(live, vs)
	if res == Unknown {
		sstats.Fallbacks.Add(1)
		res, vals = s.oneShot(live, vs)
	}
	s.nq++
	if crossEvery > 0 && s.nq%crossEvery == 0 && res != Unknown {
		r2 := s.crossCheck(live, vs)
		if r2 != Unknown {
			sstats.CrossN.Add(1)
			if r2 != res {
				sstats.CrossDiff.Add(1)
			}
		}
	}
	dt := time.Since(t0).Nanoseconds()
	sstats.TimeNs.Add(dt)
	for {
		m := sstats.MaxNs.Load()
		if dt <= m || sstats.MaxNs.CompareAndSwap(m, dt) {
			break
		}
	}
	sstats.Queries.Add(1)
	e := &cacheEnt{res: res}
	switch res {
	case Sat:
		sstats.SatN.Add(1)
		e.vars, e.vals = vs.vars, vals
		// self-check: the model must satisfy the constraints
		m := Model{}
		for i, v := range e.vars {
			m[v] = e.vals[i]
		}
		s.ctx.newEval()
		s.ctx.dirty = true
		for _, t := range live {
			if s.ctx.eval(t, m) == 0 {
				// evaluation disagreement: treat as inconclusive
				sstats.SatN.Add(-1)
				sstats.UnknownN.Add(1)
				e.res = Unknown
				s.cache[key] = e
				return Unknown, e
			}
		}
	case Unsat:
		sstats.UnsatN.Add(1)
	default:
		sstats.UnknownN.Add(1)
	}
	s.cache[key] = e
	return res, e
}

func (s *Solver) ask(live []*Term, vs *varset) (SatRes, []uint64) {
	if s.cmd == nil {
		s.start()
	}
	for _, t := range live {
		s.define(s.in, t)
	}
	s.in.WriteString("(push)\n")
	for i, t := range live {
		if i > 0 && live[i-1] == t {
			continue
		}
		fmt.Fprintf(s.in, "(assert %s)\n", t.ref())
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.stop()
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.stop()
		return Unknown, nil
	}
	switch line {
	case "unsat":
		s.in.WriteString("(pop)\n")
		return Unsat, nil
	case "sat":
		vals, ok := s.getValues(vs)
		s.in.WriteString("(pop)\n")
		if !ok {
			s.stop()
			return Unknown, nil
		}
		return Sat, vals
	case "unknown":
		s.in.WriteString("(pop)\n")
		return Unknown, nil
	}
	// an (error ...) line makes the answer inconclusive
	s.stop()
	return Unknown, nil
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) getValues(vs *varset) ([]uint64, bool) {
	if len(vs.vars) == 0 {
		return nil, true
	}
	s.in.WriteString("(get-value (")
	for _, v := range vs.vars {
		s.in.WriteString(v.ref())
		s.in.WriteByte(' ')
	}
	s.in.WriteString("))\n")
	s.in.Flush()
	return parseValues(s.out, vs)
}

func parseValues(out *bufio.Reader, vs *varset) ([]uint64, bool) {
	depth, started := 0, false
	var sb strings.Builder
	for !started || depth > 0 {
		c, err := out.ReadByte()
		if err != nil {
			return nil, false
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		sb.WriteByte(c)
	}
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		return nil, false
	}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	vals := make([]uint64, len(vs.vars))
	pos := 0
	for i, v := range vs.vars {
		if pos+1 >= len(f) || f[pos] != v.ref() {
			return nil, false
		}
		x, n, ok := parseVal(f[pos+1:])
		if !ok {
			return nil, false
		}
		vals[i] = x
		pos += 1 + n
	}
	return vals, true
}

func parseVal(f []string) (uint64, int, bool) {
	x := f[0]
	switch {
	case x == "true":
		return 1, 1, true
	case x == "false":
		return 0, 1, true
	case strings.HasPrefix(x, "#x"):
		v, err := strconv.ParseUint(x[2:], 16, 64)
		return v, 1, err == nil
	case strings.HasPrefix(x, "#b"):
		v, err := strconv.ParseUint(x[2:], 2, 64)
		return v, 1, err == nil
	case x == "_" && len(f) >= 3 && strings.HasPrefix(f[1], "bv"):
		v, err := strconv.ParseUint(f[1][2:], 10, 64)
		return v, 3, err == nil
	}
	return 0, 0, false
}

// script prints a self-contained SMT-LIB2 problem.
func script(live []*Term, vs *varset, logic string) string {
	var sb strings.Builder
	if logic != "" {
		sb.WriteString("(set-logic " + logic + ")\n")
	}
	w := bufio.NewWriter(&sb)
	seen := map[*Term]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if t == nil || t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			fmt.Fprintf(w, "(declare-const %s %s)\n", t.ref(), sortStr(t.w))
			return
		}
		def(t.a)
		def(t.b)
		def(t.c)
		fmt.Fprintf(w, "(define-fun %s () %s %s)\n", t.ref(), sortStr(t.w), t.body())
	}
	for _, t := range live {
		def(t)
	}
	for i, t := range live {
		if i > 0 && live[i-1] == t {
			continue
		}
		fmt.Fprintf(w, "(assert %s)\n", t.ref())
	}
	w.WriteString("(check-sat)\n")
	w.Flush()
	return sb.String()
}

func (s *Solver) oneShot(live []*Term, vs *varset) (SatRes, []uint64) {
	txt := script(live, vs, "")
	if len(vs.vars) > 0 {
		txt += "(get-value ("
		for _, v := range vs.vars {
			txt += v.ref() + " "
		}
		txt += "))\n"
	}
	cmd := exec.Command(s.bin, "-in", "-smt2", fmt.Sprintf("-T:%d", s.hardMs/1000))
	cmd.Stdin = strings.NewReader(txt)
	out, _ := cmd.Output()
	br := bufio.NewReader(strings.NewReader(string(out)))
	l, _ := br.ReadString('\n')
	switch strings.TrimSpace(l) {
	case "unsat":
		return Unsat, nil
	case "sat":
		if len(vs.vars) == 0 {
			return Sat, nil
		}
		if v, ok := parseValues(br, vs); ok {
			return Sat, v
		}
	}
	return Unknown, nil
}

func (s *Solver) crossCheck(live []*Term, vs *varset) SatRes {
	txt := script(live, vs, "QF_BVFP")
	if strings.Contains(txt, "fp.to_ieee_bv") {
		return Unknown
	}
	cmd := exec.Command("cvc5", "--lang=smt2", "--tlimit=20000")
	cmd.Stdin = strings.NewReader(txt)
	out, _ := cmd.Output()
	switch strings.TrimSpace(string(out)) {
	case "unsat":
		return Unsat
	case "sat":
		return Sat
	}
	return Unknown
}
