package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type config struct {
	repo, verif, prop, tier string
	seed                    int
	workers                 int
	only                    string
	budget                  float64
	noNative                bool
}

// harnessFn is one entry point with its declared bounds.
type harnessFn struct {
	name    string
	file    string
	doc     []string
	quick   float64
	thor    float64
	bounds  []string
	assume  []string
	outside []string
	reach   []string
	sched   bool
	iters   int
}

func logf(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }

func main() {
	if len(os.Args) < 2 {
		logf("usage: vsym check|replay ...")
		os.Exit(2)
	}
	var c config
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	fs.StringVar(&c.repo, "repo", "/repo", "")
	fs.StringVar(&c.verif, "verif", "/verif", "")
	fs.StringVar(&c.prop, "prop", "", "")
	fs.StringVar(&c.tier, "tier", "quick", "")
	fs.StringVar(&c.only, "only", "", "regexp of harness functions")
	fs.IntVar(&c.workers, "workers", 8, "")
	fs.IntVar(&c.seed, "seed", 1, "")
	fs.Float64Var(&c.budget, "budget", 0, "override the exploration budget per harness, s")
	fs.BoolVar(&c.noNative, "nonative", false, "")
	replay := fs.String("file", "", "replay file")
	fs.IntVar(&crossEvery, "cross", 0, "")
	_ = fs.Parse(os.Args[2:])
	thorough = c.tier == "thorough"
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(&c))
	case "replay":
		os.Exit(runReplayCmd(&c, *replay))
	}
	os.Exit(2)
}

// harnessFiles returns the harness sources of one property: api.go, the files
// named <prop>*.go and the files they pull in with "//v:use NAME.go".
func harnessFiles(c *config) ([]string, error) {
	dir := filepath.Join(c.verif, "harness")
	own, err := filepath.Glob(filepath.Join(dir, strings.ToLower(c.prop)+"*.go"))
	if err != nil || len(own) == 0 {
		return nil, fmt.Errorf("no harness for %s", c.prop)
	}
	sort.Strings(own)
	seen := map[string]bool{}
	var out []string
	var add func(f string)
	re := regexp.MustCompile(`(?m)^//v:use (\S+)`)
	add = func(f string) {
		if seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		b, _ := os.ReadFile(f)
		for _, m := range re.FindAllStringSubmatch(string(b), -1) {
			add(filepath.Join(dir, m[1]))
		}
	}
	add(filepath.Join(dir, "api.go"))
	for _, f := range own {
		add(f)
	}
	setTarget(own)
	return out, nil
}

// overlayName is where a harness file is put in the package under test.
func overlayName(c *config, f string) string {
	return filepath.Join(c.repo, targetDir, "zz_verif_"+filepath.Base(f))
}

// targetDir is the directory of the package under test; a harness names
// another one than lens with "//v:pkg DIR".
var targetDir = "lens"

func setTarget(files []string) {
	re := regexp.MustCompile(`(?m)^//v:pkg (\S+)`)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		if m := re.FindSubmatch(b); m != nil {
			targetDir = string(m[1])
		}
	}
}

// retarget puts harness source into the package under test.
func retarget(src []byte) []byte {
	if targetDir == "lens" {
		return src
	}
	return bytes.Replace(src, []byte("package lens\n"), []byte("package "+filepath.Base(targetDir)+"\n"), 1)
}

func scanHarness(files []string, c *config) []*harnessFn {
	var out []*harnessFn
	for _, f := range files {
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			logf("harness %s: %v", f, err)
			continue
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || !strings.HasPrefix(fd.Name.Name, "VH") || fd.Recv != nil {
				continue
			}
			h := &harnessFn{name: fd.Name.Name, file: f, quick: 30, thor: 300, iters: 1}
			if fd.Doc != nil {
				for _, cm := range fd.Doc.List {
					t := strings.TrimPrefix(cm.Text, "//")
					k, v, _ := strings.Cut(strings.TrimSpace(t), " ")
					switch k {
					case "v:quick":
						h.quick, _ = strconv.ParseFloat(v, 64)
					case "v:thorough":
						h.thor, _ = strconv.ParseFloat(v, 64)
					case "v:bounds":
						h.bounds = append(h.bounds, v)
					case "v:assume":
						h.assume = append(h.assume, v)
					case "v:outside":
						h.outside = append(h.outside, v)
					case "v:iters":
						h.iters, _ = strconv.Atoi(v)
					default:
						if !strings.HasPrefix(k, "v:") {
							h.doc = append(h.doc, strings.TrimSpace(t))
						}
					}
				}
			}
			ast.Inspect(fd, func(n ast.Node) bool {
				ce, ok := n.(*ast.CallExpr)
				if !ok {
					return true
				}
				id, ok := ce.Fun.(*ast.Ident)
				if !ok {
					return true
				}
				if id.Name == "vSched" {
					h.sched = true
				}
				if id.Name == "vReach" && len(ce.Args) == 1 {
					if bl, ok := ce.Args[0].(*ast.BasicLit); ok {
						s, _ := strconv.Unquote(bl.Value)
						h.reach = append(h.reach, s)
					}
				}
				return true
			})
			out = append(out, h)
		}
	}
	return out
}

type loaded struct {
	pkg     *packages.Package
	prog    *ssa.Program
	spkg    *ssa.Package
	files   []string
	dropped []string
}

func loadTarget(c *config, files []string) (*loaded, error) {
	l := &loaded{files: files}
	for {
		ov := map[string][]byte{}
		for _, f := range l.files {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			ov[overlayName(c, f)] = retarget(b)
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: c.repo, Overlay: ov, Tests: false}
		pkgs, err := packages.Load(cfg, "./"+targetDir)
		if err != nil {
			return nil, err
		}
		if len(pkgs) != 1 {
			return nil, fmt.Errorf("expected one package, got %d", len(pkgs))
		}
		l.pkg = pkgs[0]
		if len(l.pkg.Errors) == 0 {
			break
		}
		bad := map[string]bool{}
		for _, e := range l.pkg.Errors {
			pos := e.Pos
			if i := strings.Index(pos, ":"); i > 0 {
				pos = pos[:i]
			}
			logf("load: %s: %s", e.Pos, e.Msg)
			bad[filepath.Base(pos)] = true
		}
		var keep []string
		for _, f := range l.files {
			if bad["zz_verif_"+filepath.Base(f)] && filepath.Base(f) != "api.go" {
				l.dropped = append(l.dropped, filepath.Base(f))
				continue
			}
			keep = append(keep, f)
		}
		if len(keep) == len(l.files) {
			return nil, fmt.Errorf("the package does not type-check: %v", l.pkg.Errors[0])
		}
		l.files = keep
	}
	prog, spkgs := ssautil.AllPackages([]*packages.Package{l.pkg}, ssa.InstantiateGenerics)
	prog.Build()
	l.prog = prog
	l.spkg = spkgs[0]
	return l, nil
}

type harnessReport struct {
	*HarnessResult
	Bounds    []string `json:"bounds,omitempty"`
	Assume    []string `json:"assumptions,omitempty"`
	Outside   []string `json:"outside,omitempty"`
	NotReach  []string `json:"not_reached,omitempty"`
	Doc       string   `json:"decides,omitempty"`
	Verdict   string   `json:"verdict"`
	Unconf    []string `json:"unconfirmed_candidates,omitempty"`
	Validated int      `json:"traces_validated"`
	Mismatch  []string `json:"trace_mismatches,omitempty"`
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	Inputs   string `json:"inputs"` // regexp over the rendered inputs
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

func loadKnown(c *config) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(filepath.Join(c.verif, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if !strings.HasPrefix(ln, "{") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(ln), &k) == nil && k.Status == "known" {
			out = append(out, k)
		}
	}
	return out
}

func renderInputs(in []NondetRec) string {
	var p []string
	for _, r := range in {
		if r.Kind == "scalar" {
			p = append(p, fmt.Sprintf("%s=%d", r.Name, int64(r.Val)))
		} else {
			p = append(p, fmt.Sprintf("%s=%q", r.Name, r.Str))
		}
	}
	return strings.Join(p, " ")
}

func runCheck(c *config) int {
	t0 := time.Now()
	files, err := harnessFiles(c)
	if err != nil {
		logf("%v", err)
		return 2
	}
	l, err := loadTarget(c, files)
	if err != nil {
		logf("load: %v", err)
		writeEvidence(c, t0, nil, nil, []string{"the tree could not be encoded: " + err.Error()}, nil)
		fmt.Printf("UNDECIDED property=%s: %v\n", c.prop, err)
		return 0
	}
	loadT := time.Since(t0).Seconds()
	var notes []string
	for _, d := range l.dropped {
		notes = append(notes, "harness file "+d+" does not type-check against this tree and was left out")
		fmt.Printf("UNDECIDED property=%s: %s no longer type-checks against the tree\n", c.prop, d)
	}
	hs := scanHarness(l.files, c)
	if c.only != "" {
		re := regexp.MustCompile(c.only)
		var k []*harnessFn
		for _, h := range hs {
			if re.MatchString(h.name) {
				k = append(k, h)
			}
		}
		hs = k
	}
	var nb *nativeBuild
	if !c.noNative {
		nb = startNative(c, l, hs)
		defer nb.cleanup()
	}
	known := loadKnown(c)
	var reps []*harnessReport
	var allViol []map[string]any
	exit := 0
	outDir := filepath.Join(c.verif, "out", c.prop)
	_ = os.RemoveAll(outDir)
	nrep := 0
	for _, h := range hs {
		fn := l.spkg.Func(h.name)
		if fn == nil {
			continue
		}
		bud := h.quick
		if thorough {
			bud = h.thor
		}
		if c.budget > 0 {
			bud = c.budget
		}
		r := explore(l.prog, map[*ssa.Package]bool{l.spkg: true}, fn, runOpts{workers: c.workers, timeout: time.Duration(bud * float64(time.Second)), maxViol: 3, maxSamples: 8, maxSteps: 30_000_000})
		hr := &harnessReport{HarnessResult: r, Bounds: h.bounds, Assume: h.assume, Outside: h.outside, Doc: strings.Join(h.doc, " ")}
		for _, x := range h.reach {
			if r.Reached[x] == 0 {
				hr.NotReach = append(hr.NotReach, x)
			}
		}
		if r.complete() {
			hr.Verdict = "holds for every value within the bounds"
		} else {
			hr.Verdict = "holds on every path decided; not all paths within the bounds were decided"
		}
		logf("%s %s: paths=%d infeasible=%d asserts=%d steps=%d wall=%.1fs complete=%v cand=%d unsup=%v limits=%v unk=%v timeout=%v notreached=%v",
			c.prop, h.name, r.Paths, r.Infeasible, r.Asserts, r.Steps, r.Wall, r.complete(), len(r.Violations), r.Unsupported, r.Limits, r.Unknowns, r.TimedOut, hr.NotReach)
		if prof {
			var ks []string
			for k := range profCnt {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return profCnt[ks[i]] > profCnt[ks[j]] })
			for i, k := range ks {
				if i < 15 {
					logf("   %10d %s", profCnt[k], k)
				}
			}
			clear(profCnt)
		}
		confirmedLabels := map[string]bool{}
		for _, v := range r.Violations {
			key := v.Kind + ":" + v.Label
			if confirmedLabels[key] {
				continue
			}
			desc := fmt.Sprintf("%s [%s] %s %s; inputs: %s", h.name, v.Kind, v.Label, v.Detail, renderInputs(v.Inputs))
			logf("  candidate: %s", desc)
			ok, how := true, "not replayed"
			if nb != nil {
				ok, how = nb.replay(h, v)
			}
			if !ok {
				logf("  not confirmed natively: %s", how)
				hr.Unconf = append(hr.Unconf, desc+" ("+how+")")
				continue
			}
			confirmedLabels[key] = true
			_ = os.MkdirAll(outDir, 0o755)
			nrep++
			rp := filepath.Join(outDir, fmt.Sprintf("violation-%d.json", nrep))
			b, _ := json.MarshalIndent(map[string]any{"property": c.prop, "harness": h.name, "label": v.Label, "kind": v.Kind, "detail": v.Detail, "inputs": v.Inputs, "sched": v.Sched, "confirmed": how,
				"replay_cmd": fmt.Sprintf("cd /verif && ./check.sh replay %s", rp)}, "", " ")
			_ = os.WriteFile(rp, b, 0o644)
			isKnown := false
			for _, k := range known {
				if k.Property == c.prop && k.Harness == h.name && k.Label == v.Label {
					if m, _ := regexp.MatchString(k.Inputs, renderInputs(v.Inputs)); m {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.What)
						isKnown = true
						break
					}
				}
			}
			if isKnown {
				continue
			}
			fmt.Printf("%s: %s: %s (%s)\n", h.name, v.Label, desc, how)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, rp)
			hr.Verdict = "violated: " + v.Label
			allViol = append(allViol, map[string]any{"harness": h.name, "label": v.Label, "kind": v.Kind, "inputs": renderInputs(v.Inputs), "replay": rp})
			exit = 1
		}
		if nb != nil && exit == 0 && len(r.Samples) > 0 {
			hr.Validated, hr.Mismatch = nb.validate(h, r.Samples)
			for _, m := range hr.Mismatch {
				logf("  trace mismatch: %s", m)
			}
		}
		reps = append(reps, hr)
	}
	notes = append(notes, fmt.Sprintf("encoding regenerated from %s/%s in %.1f s", c.repo, targetDir, loadT))
	writeEvidence(c, t0, reps, allViol, notes, nb)
	return exit
}

func writeEvidence(c *config, t0 time.Time, reps []*harnessReport, viol []map[string]any, notes []string, nb *nativeBuild) {
	var states, trans, asserts, disch, steps int64
	valid, mism := 0, 0
	fns := map[string]string{}
	var samples []any
	var bounds, assume, outside, undecided []string
	complete := len(reps) > 0
	for _, r := range reps {
		states += r.Paths
		trans += r.Branches
		asserts += r.Asserts
		disch += r.Discharged
		steps += r.Steps
		valid += r.Validated
		mism += len(r.Mismatch)
		for k, v := range r.Functions {
			fns[k] = v
		}
		for _, b := range r.Bounds {
			bounds = append(bounds, r.Harness+": "+b)
		}
		assume = append(assume, r.Assume...)
		outside = append(outside, r.Outside...)
		if !r.complete() {
			complete = false
			undecided = append(undecided, r.Harness)
		}
		for i, s := range r.Samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": r.Harness, "inputs": renderInputs(s.Inputs), "observed": s.Trace})
			}
		}
	}
	// keep only the code under test in the list of encoded functions
	enc := map[string]string{}
	lib := 0
	for k, v := range fns {
		if strings.HasPrefix(k, "lens.") || strings.Contains(k, "(lens.") || strings.Contains(k, "(*lens.") {
			enc[k] = v
		} else {
			lib++
		}
	}
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples,
		"explanation":               "states: execution paths of the real code explored symbolically, each standing for every input that follows it; transitions: symbolic branch decisions put to the solver",
		"assertions":                asserts,
		"assertion_queries":         disch,
		"ssa_instructions":          steps,
		"functions_encoded":         enc,
		"library_functions_encoded": lib,
		"bounds":                    bounds,
		"outside_bounds":            outside,
		"exhaustive_within_bounds":  complete,
		"not_exhausted":             undecided,
		"trace_mismatches":          mism,
		"solver":                    map[string]any{"name": "z3 (z3-new -in)", "queries": sstats.Queries.Load(), "sat": sstats.SatN.Load(), "unsat": sstats.UnsatN.Load(), "unknown": sstats.UnknownN.Load(), "cache_hits": sstats.CacheHits.Load(), "time_s": float64(sstats.TimeNs.Load()) / 1e9, "max_query_s": float64(sstats.MaxNs.Load()) / 1e9, "cross_checked_cvc5": sstats.CrossN.Load(), "cross_disagreements": sstats.CrossDiff.Load()},
		"harnesses":                 reps,
		"notes":                     notes,
	}
	if viol == nil {
		viol = []map[string]any{}
	}
	ev := map[string]any{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "assumptions": assume, "violations": viol}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		logf("evidence: %v", err)
		return
	}
	_ = os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), b, 0o644); err != nil {
		logf("evidence: %v", err)
	}
}

func runReplayCmd(c *config, f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		logf("%v", err)
		return 2
	}
	var r struct {
		Property, Harness, Label, Kind string
		Inputs                         []NondetRec
	}
	if err := json.Unmarshal(b, &r); err != nil {
		logf("%v", err)
		return 2
	}
	c.prop = r.Property
	files, err := harnessFiles(c)
	if err != nil {
		logf("%v", err)
		return 2
	}
	l, err := loadTarget(c, files)
	if err != nil {
		logf("%v", err)
		return 2
	}
	hs := scanHarness(l.files, c)
	nb := startNative(c, l, hs)
	defer nb.cleanup()
	for _, h := range hs {
		if h.name == r.Harness {
			ok, how := nb.replay(h, &Violation{Harness: r.Harness, Label: r.Label, Kind: r.Kind, Inputs: r.Inputs})
			fmt.Printf("reproduced=%v: %s\n", ok, how)
			if ok {
				return 1
			}
			return 0
		}
	}
	return 2
}
