package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// nativeBuild is the compiled real code with the harness, used to confirm
// counterexamples and to validate explored paths.
type nativeBuild struct {
	c      *config
	dir    string
	done   chan struct{}
	err    error
	bin    string
	wall   float64
	ov     string
	isRace bool
	race   *nativeBuild // the same with race detection, built when needed
}

type edit struct {
	off, end int
	text     string
}

// rewriteFile redirects calls to stubbed functions to the harness stubs, and
// optionally inserts scheduling perturbation points.
func rewriteFile(l *loaded, af *ast.File, stubs map[string]*types.Func, yields bool) ([]byte, bool) {
	fset := l.pkg.Fset
	tf := fset.File(af.Pos())
	name := tf.Name()
	base := filepath.Base(name)
	harness := strings.HasPrefix(base, "zz_verif_")
	var edits []edit
	keep := map[string]bool{}
	off := func(p token.Pos) int { return tf.Offset(p) }
	info := l.pkg.TypesInfo
	stubFor := func(o types.Object) *types.Func {
		f, ok := o.(*types.Func)
		if !ok {
			return nil
		}
		f = f.Origin()
		full := strings.ReplaceAll(f.FullName(), modPath+"/", "")
		sn := stubName(full)
		if sn == "" {
			return nil
		}
		return stubs[sn]
	}
	var visit func(n ast.Node)
	inStub := func(fd *ast.FuncDecl) bool { return strings.HasPrefix(fd.Name.Name, "vstub_") }
	handled := map[ast.Node]bool{}
	visit = func(root ast.Node) {
		ast.Inspect(root, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if harness && inStub(x) {
					return false
				}
				handled[x.Name] = true
			case *ast.CallExpr:
				fun := x.Fun
				se, ok := fun.(*ast.SelectorExpr)
				if !ok {
					return true
				}
				sel := info.Selections[se]
				if sel == nil || sel.Kind() != types.MethodVal {
					return true
				}
				st := stubFor(sel.Obj())
				if st == nil {
					return true
				}
				// recv.M(args) -> stub(recv, args)
				handled[se.Sel] = true
				sig := st.Type().(*types.Signature)
				_, wantPtr := sig.Params().At(0).Type().Underlying().(*types.Pointer)
				rt := info.Types[se.X].Type
				_, havePtr := rt.Underlying().(*types.Pointer)
				pre := ""
				if wantPtr && !havePtr {
					pre = "&"
				} else if !wantPtr && havePtr {
					if _, isI := sig.Params().At(0).Type().Underlying().(*types.Interface); !isI {
						pre = "*"
					}
				}
				path := ""
				if idx := sel.Index(); len(idx) > 1 {
					t := rt
					for _, i := range idx[:len(idx)-1] {
						if p, ok := t.Underlying().(*types.Pointer); ok {
							t = p.Elem()
						}
						s, ok := t.Underlying().(*types.Struct)
						if !ok {
							break
						}
						path += "." + s.Field(i).Name()
						t = s.Field(i).Type()
					}
					_, hp := t.Underlying().(*types.Pointer)
					pre = ""
					if wantPtr && !hp {
						pre = "&"
					}
				}
				edits = append(edits, edit{off(se.X.Pos()), off(se.X.Pos()), st.Name() + "(" + pre + "("})
				sep := "), "
				if len(x.Args) == 0 {
					sep = ")"
				}
				edits = append(edits, edit{off(se.X.End()), off(x.Lparen) + 1, strings.TrimSuffix(")"+path+sep[1:], "")})
				return true
			case *ast.SelectorExpr:
				id, ok := x.X.(*ast.Ident)
				if !ok {
					return true
				}
				if _, isPkg := info.Uses[id].(*types.PkgName); !isPkg {
					return true
				}
				o := info.Uses[x.Sel]
				handled[x.Sel] = true
				if st := stubFor(o); st != nil {
					edits = append(edits, edit{off(x.Pos()), off(x.End()), st.Name()})
					keep[id.Name+"."+x.Sel.Name] = true
				}
				return false
			case *ast.Ident:
				if handled[x] {
					return true
				}
				o := info.Uses[x]
				if o == nil || o.Pkg() != l.pkg.Types {
					return true
				}
				if f, ok := o.(*types.Func); ok && f.Type().(*types.Signature).Recv() == nil {
					if st := stubFor(o); st != nil {
						edits = append(edits, edit{off(x.Pos()), off(x.End()), st.Name()})
					}
				}
			}
			return true
		})
	}
	if yields && !harness {
		ast.Inspect(af, func(n ast.Node) bool {
			var list []ast.Stmt
			switch x := n.(type) {
			case *ast.BlockStmt:
				list = x.List
			case *ast.CaseClause:
				list = x.Body
			case *ast.CommClause:
				list = x.Body
			}
			for _, s := range list {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					continue
				}
				edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "vNY();"})
			}
			return true
		})
	}
	visit(af)
	if len(edits) == 0 {
		return nil, false
	}
	src, err := os.ReadFile(name)
	if harness {
		src, err = os.ReadFile(filepath.Join(filepath.Dir(harnessPath), strings.TrimPrefix(base, "zz_verif_")))
		src = retarget(src)
	}
	if err != nil {
		return nil, false
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			continue
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	var ks []string
	for k := range keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.WriteString("\nvar _ = " + k + "\n")
	}
	return b.Bytes(), true
}

var harnessPath string

func startNative(c *config, l *loaded, hs []*harnessFn) *nativeBuild {
	harnessPath = filepath.Join(c.verif, "harness", "api.go")
	nb := &nativeBuild{c: c, done: make(chan struct{})}
	dir, err := os.MkdirTemp("", "vsym-native-")
	if err != nil {
		nb.err = err
		close(nb.done)
		return nb
	}
	nb.dir = dir
	go func() {
		defer close(nb.done)
		t0 := time.Now()
		nb.err = nb.build(l, hs)
		nb.wall = time.Since(t0).Seconds()
		if nb.err != nil {
			logf("native build: %v", nb.err)
		} else {
			logf("native build took %.1fs", nb.wall)
		}
	}()
	return nb
}

func (nb *nativeBuild) build(l *loaded, hs []*harnessFn) error {
	c := nb.c
	repl := map[string]string{}
	stubs := map[string]*types.Func{}
	sc := l.pkg.Types.Scope()
	for _, n := range sc.Names() {
		if strings.HasPrefix(n, "vstub_") {
			if f, ok := sc.Lookup(n).(*types.Func); ok {
				stubs[n] = f
			}
		}
	}
	yields := false
	for _, h := range hs {
		yields = yields || h.sched
	}
	for _, f := range l.files {
		repl[overlayName(c, f)] = nb.retargeted(f)
	}
	for _, af := range l.pkg.Syntax {
		name := l.pkg.Fset.File(af.Pos()).Name()
		if out, ok := rewriteFile(l, af, stubs, yields); ok {
			p := filepath.Join(nb.dir, filepath.Base(name))
			if err := os.WriteFile(p, out, 0o644); err != nil {
				return err
			}
			repl[name] = p
		}
	}
	// the repository's own tests are not part of this binary
	tests, _ := filepath.Glob(filepath.Join(c.repo, targetDir, "*_test.go"))
	for _, t := range tests {
		repl[t] = ""
	}
	rt := filepath.Join(c.verif, "harness", "native", "replay_test.go.txt")
	repl[filepath.Join(c.repo, targetDir, "zz_verif_replay_test.go")] = nb.retargeted(rt)
	var reg bytes.Buffer
	reg.WriteString("package " + filepath.Base(targetDir) + "\n\nvar vRegistry = map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&reg, "\t%q: %s,\n", h.name, h.name)
	}
	reg.WriteString("}\n")
	regp := filepath.Join(nb.dir, "zz_reg_test.go")
	if err := os.WriteFile(regp, reg.Bytes(), 0o644); err != nil {
		return err
	}
	repl[filepath.Join(c.repo, targetDir, "zz_verif_reg_test.go")] = regp
	ovj, _ := json.Marshal(map[string]any{"Replace": repl})
	ovp := filepath.Join(nb.dir, "overlay.json")
	if err := os.WriteFile(ovp, ovj, 0o644); err != nil {
		return err
	}
	nb.ov = ovp
	nb.bin = filepath.Join(nb.dir, "lens.test")
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-c", "-vet=off", "-overlay", ovp, "-o", nb.bin, "./"+targetDir)
	cmd.Dir = c.repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

// retargeted is the file in the package under test.
func (nb *nativeBuild) retargeted(f string) string {
	if targetDir == "lens" {
		return f
	}
	b, err := os.ReadFile(f)
	if err != nil {
		return f
	}
	p := filepath.Join(nb.dir, "rt_"+strings.TrimSuffix(filepath.Base(f), ".txt"))
	if os.WriteFile(p, retarget(b), 0o644) != nil {
		return f
	}
	return p
}

func (nb *nativeBuild) cleanup() {
	<-nb.done
	if nb.dir != "" {
		_ = os.RemoveAll(nb.dir)
	}
}

type nativeJob struct {
	Harness  string        `json:"harness"`
	Runs     [][]NondetRec `json:"runs"`
	Iters    int           `json:"iters"`
	Yield    bool          `json:"yield"`
	Thorough bool          `json:"thorough"`
}

type nativeOut struct {
	Run    int      `json:"run"`
	Result string   `json:"result"` // ok, assert, panic, diverged, alloc
	Detail string   `json:"detail"`
	Trace  []string `json:"trace"`
}

// run executes the real code; it returns the decoded result lines and whether
// the process hung.
func (nb *nativeBuild) run(job nativeJob, timeout time.Duration) (outs []nativeOut, hung bool, tail string) {
	<-nb.done
	if nb.err != nil {
		return nil, false, "native build failed: " + nb.err.Error()
	}
	scratch, err := os.MkdirTemp(nb.dir, "run-")
	if err != nil {
		return nil, false, err.Error()
	}
	defer os.RemoveAll(scratch)
	jf := filepath.Join(scratch, "job.json")
	b, _ := json.Marshal(job)
	_ = os.WriteFile(jf, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	// an address-space limit keeps runaway allocations from hurting the sandbox
	limit := "ulimit -v 12000000; "
	if nb.isRace {
		limit = "" // the detector reserves address space
	}
	cmd := exec.CommandContext(ctx, "bash", "-c", limit+"exec \"$0\" -test.run '^TestVReplay$' -test.timeout 0", nb.bin)
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+jf, "HOME="+scratch, "TMPDIR="+scratch, "GOCACHE="+filepath.Join(scratch, "gocache"), "GOFLAGS=")
	var so bytes.Buffer
	cmd.Stdout = &so
	cmd.Stderr = &so
	cmd.WaitDelay = 2 * time.Second
	_ = cmd.Run()
	hung = ctx.Err() != nil
	for _, ln := range strings.Split(so.String(), "\n") {
		if i := strings.Index(ln, "VREPLAY\t"); i >= 0 {
			var o nativeOut
			if json.Unmarshal([]byte(ln[i+8:]), &o) == nil {
				outs = append(outs, o)
			}
		} else if ln != "" {
			tail += ln + "\n"
		}
	}
	if len(tail) > 3000 && !nb.isRace {
		tail = tail[:3000]
	}
	return outs, hung, tail
}

// raceBuild compiles the same code with the race detector.
func (nb *nativeBuild) raceBuild() *nativeBuild {
	<-nb.done
	if nb.race != nil || nb.err != nil {
		return nb.race
	}
	r := &nativeBuild{c: nb.c, dir: nb.dir, done: make(chan struct{}), bin: filepath.Join(nb.dir, "lens-race.test"), isRace: true}
	close(r.done)
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-c", "-race", "-vet=off", "-overlay", nb.ov, "-o", r.bin, "./"+targetDir)
	cmd.Dir = nb.c.repo
	cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	if out, err := cmd.CombinedOutput(); err != nil {
		r.err = fmt.Errorf("%v: %s", err, out)
	}
	nb.race = r
	return r
}

// raceIn finds a race report whose two accesses are made by the code under
// test.
func raceIn(out string) string {
	for _, rep := range strings.Split(out, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(rep, "=================="); i >= 0 {
			rep = rep[:i]
		}
		var at []string
		in := false // among the frames of an access, its own not yet found
		for _, ln := range strings.Split(rep, "\n") {
			f := strings.TrimSpace(ln)
			if f != "" && f == ln { // the head of a section
				in = strings.Contains(f, " by goroutine ") || strings.Contains(f, " by main goroutine")
				if in {
					at = append(at, "")
				}
				continue
			}
			if in && strings.Contains(f, ".go:") && strings.HasPrefix(f, "/") {
				if strings.Contains(f, "/src/") && !strings.Contains(f, "/lens/") {
					continue // standard library
				}
				at[len(at)-1] = filepath.Base(strings.Fields(f)[0])
				in = false
			}
		}
		ok := len(at) == 2
		for _, w := range at {
			ok = ok && w != "" && !strings.HasPrefix(w, "zz_verif_")
		}
		if ok {
			return at[0] + " and " + at[1]
		}
	}
	return ""
}

func (nb *nativeBuild) replay(h *harnessFn, v *Violation) (bool, string) {
	if v.Kind == "race" {
		r := nb.raceBuild()
		if r == nil || r.err != nil {
			return false, "no race-detecting build"
		}
		job := nativeJob{Harness: h.name, Runs: [][]NondetRec{v.Inputs}, Iters: 50, Yield: true, Thorough: thorough}
		_, _, out := r.run(job, 60*time.Second)
		if os.Getenv("VSYM_DEBUG") != "" {
			os.WriteFile("/tmp/race.out", []byte(out), 0o644)
		}
		if w := raceIn(out); w != "" {
			return true, "the race detector reports the native replay: " + w
		}
		return false, "the race detector does not report the native replay"
	}
	job := nativeJob{Harness: h.name, Runs: [][]NondetRec{v.Inputs}, Iters: h.iters, Yield: h.sched, Thorough: thorough}
	to := 20 * time.Second
	if h.sched {
		if job.Iters == 1 {
			job.Iters = 3000
		}
		to = 40 * time.Second
	}
	if v.Kind == "hang" {
		job.Iters = 1
	}
	outs, hung, tail := nb.run(job, to)
	for _, o := range outs {
		switch o.Result {
		case "assert":
			if v.Kind == "assert" && o.Detail == v.Label {
				return true, "native replay fails the same assertion"
			}
			return true, "native replay fails assertion " + o.Detail
		case "panic":
			return true, "native replay panics: " + o.Detail
		case "alloc":
			return true, "native replay: " + o.Detail
		case "diverged":
			return false, "native replay diverged: " + o.Detail
		}
	}
	if hung {
		return v.Kind == "deadlock" || v.Kind == "hang" && !h.sched, "native replay does not terminate"
	}
	if strings.Contains(tail, "all goroutines are asleep") {
		return true, "native replay deadlocks"
	}
	if strings.Contains(tail, "panic:") || strings.Contains(tail, "fatal error:") {
		return true, "native replay crashes: " + firstLine(tail)
	}
	if len(outs) == 0 {
		return false, "native replay gave no result: " + tail
	}
	return false, "native replay passes"
}

func firstLine(s string) string {
	for _, ln := range strings.Split(s, "\n") {
		if strings.Contains(ln, "panic:") || strings.Contains(ln, "fatal error:") {
			return ln
		}
	}
	return ""
}

// validate runs explored paths through the real code and compares what was
// observed with what the encoding predicted.
func (nb *nativeBuild) validate(h *harnessFn, ss []*Sample) (int, []string) {
	job := nativeJob{Harness: h.name, Iters: 1, Thorough: thorough}
	for _, s := range ss {
		job.Runs = append(job.Runs, s.Inputs)
	}
	outs, hung, tail := nb.run(job, 60*time.Second)
	n := 0
	var bad []string
	for _, o := range outs {
		if o.Run < 0 || o.Run >= len(ss) {
			continue
		}
		if o.Result != "ok" {
			bad = append(bad, fmt.Sprintf("run %d: %s %s; inputs %s", o.Run, o.Result, o.Detail, renderInputs(ss[o.Run].Inputs)))
			continue
		}
		want := ss[o.Run].Trace
		ok := len(want) == len(o.Trace)
		for i := 0; ok && i < len(want); i++ {
			if want[i] != o.Trace[i] && !strings.HasSuffix(want[i], "=?opaque") && !strings.HasSuffix(want[i], "=?") {
				ok = false
			}
		}
		if ok {
			n++
		} else {
			bad = append(bad, fmt.Sprintf("run %d: predicted %v, observed %v; inputs %s", o.Run, want, o.Trace, renderInputs(ss[o.Run].Inputs)))
		}
	}
	if len(outs) < len(ss) {
		bad = append(bad, fmt.Sprintf("only %d of %d runs gave a result (hung=%v): %s", len(outs), len(ss), hung, tail))
	}
	return n, bad
}
