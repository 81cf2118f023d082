package lens

import (
	"fmt"
	"slices"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/go-analyze/charts"
	"github.com/golang/freetype/truetype"
)

// What is drawn, by the area it is drawn into.
type v29Bar struct {
	title  string
	values []float64
	label  string // of the last part
}

type v29Drawing struct {
	bars  []v29Bar
	texts []string
	table [][]string
	fmts  []float64 // numbers put into labels
}

var v29Cur *v29Drawing
var v29Main *charts.Painter

type v29Layout struct{ names []string }

func (l *v29Layout) Row() charts.LayoutBuilderRow          { return l }
func (l *v29Layout) RowGap(string) charts.LayoutBuilderRow { return l }
func (l *v29Layout) Columns(n ...string) charts.LayoutBuilderRow {
	l.names = append(l.names, n...)
	return l
}
func (l *v29Layout) Col(n, w string) charts.LayoutBuilderRow {
	l.names = append(l.names, n)
	return l
}
func (l *v29Layout) Height(string) charts.LayoutBuilderRow    { return l }
func (l *v29Layout) ColGap(string) charts.LayoutBuilderRow    { return l }
func (l *v29Layout) RowOffset(string) charts.LayoutBuilderRow { return l }
func (l *v29Layout) Offset(x, y string) charts.LayoutBuilderRow {
	return l
}
func (l *v29Layout) Build() (map[string]*charts.Painter, error) {
	m := map[string]*charts.Painter{}
	for _, n := range l.names {
		m[n] = &charts.Painter{}
	}
	return m, nil
}

func vstub_github_D_com_S_go_H_analyze_S_charts__NewPainter(opts charts.PainterOptions, opt ...charts.PainterOptionFunc) *charts.Painter {
	v29Cur = &v29Drawing{} // a new canvas
	v29Main = &charts.Painter{}
	return v29Main
}

func vstub_github_D_com_S_go_H_analyze_S_charts__Painter__Child(p *charts.Painter, opt ...charts.PainterOptionFunc) *charts.Painter {
	return &charts.Painter{}
}

func vstub_github_D_com_S_go_H_analyze_S_charts__Painter__LayoutByRows(p *charts.Painter) charts.LayoutBuilderRow {
	return &v29Layout{}
}

func vstub_github_D_com_S_go_H_analyze_S_charts__Painter__Width(p *charts.Painter) int { return 400 }

func vstub_github_D_com_S_go_H_analyze_S_charts__Painter__Height(p *charts.Painter) int {
	if p == v29Main {
		return 500
	}
	return 100
}

func vstub_github_D_com_S_go_H_analyze_S_charts__Painter__FilledRect(p *charts.Painter, x1, y1, x2, y2 int, fill, stroke charts.Color, w float64) {
}

func vstub_github_D_com_S_go_H_analyze_S_charts__Painter__MeasureText(p *charts.Painter, text string, rotation float64, f charts.FontStyle) charts.Box {
	return charts.NewBox(0, 0, 100, 10)
}

func vstub_github_D_com_S_go_H_analyze_S_charts__Painter__Text(p *charts.Painter, body string, x, y int, radians float64, f charts.FontStyle) {
	v29Cur.texts = append(v29Cur.texts, body)
}

func vstub_github_D_com_S_go_H_analyze_S_charts__Painter__Bytes(p *charts.Painter) ([]byte, error) {
	return []byte("picture"), nil
}

func vstub_github_D_com_S_go_H_analyze_S_charts__GetDefaultFont() *truetype.Font { return nil }

type v29Theme struct{ charts.ColorPalette }

func (t v29Theme) WithBackgroundColor(charts.Color) charts.ColorPalette { return t }
func (t v29Theme) WithSeriesColors([]charts.Color) charts.ColorPalette  { return t }
func (t v29Theme) GetTitleTextColor() charts.Color                      { return charts.Color{} }
func (t v29Theme) GetLabelTextColor() charts.Color                      { return charts.Color{} }

func vstub_github_D_com_S_go_H_analyze_S_charts__GetTheme(name string) charts.ColorPalette {
	return v29Theme{}
}

func vstub_github_D_com_S_go_H_analyze_S_charts__FormatValueHumanize(v float64, decimals int, zeros bool) string {
	v29Cur.fmts = append(v29Cur.fmts, v)
	return "#"
}

func vstub_github_D_com_S_go_H_analyze_S_charts__Painter__BarChart(p *charts.Painter, opt charts.BarChartOption) error {
	b := v29Bar{title: opt.Title.Text}
	for _, s := range opt.SeriesList {
		b.values = append(b.values, s.Values...)
		if s.Label.Show != nil && *s.Label.Show && s.Label.ValueFormatter != nil {
			b.label = s.Label.ValueFormatter(s.Values[0])
		}
	}
	v29Cur.bars = append(v29Cur.bars, b)
	return nil
}

func vstub_github_D_com_S_go_H_analyze_S_charts__Painter__TableChart(p *charts.Painter, opt charts.TableChartOption) error {
	v29Cur.table = append([][]string{opt.Header}, opt.Data...)
	return nil
}

func vstub_github_D_com_S_go_H_analyze_S_charts__TableOptionRenderDirect(opt charts.TableChartOption) (*charts.Painter, error) {
	return &charts.Painter{}, nil
}

// v29Draw returns what a chart shows.
func v29Draw(changed, reachable, hit, untracked, same, diff int, results []TestReport, mut MutationResult) *v29Drawing {
	v29Cur = nil
	out, err := renderReportCharts(charts.PainterOptions{OutputFormat: "png", Width: 400, Height: 300}, "example.com/m", "v1", "v2",
		changed, reachable, hit, untracked, same, diff, results, mut)
	vAssert("the chart is drawn", err == nil && string(out) == "picture" && v29Cur != nil)
	return v29Cur
}

func (d *v29Drawing) has(values ...float64) (v29Bar, bool) {
	for _, b := range d.bars {
		if slices.Equal(b.values, values) {
			return b, true
		}
	}
	return v29Bar{}, false
}

// The bars and their labels.
//
//v:bounds changed functions 0..6, of these reachable, of these hit and untracked; matching and differing values 0..3 and, as one, 3000; mutations 0..3 and 3000, survivors 0..3; no, small and large times before and after
//v:outside positions, sizes and colours; the rounding of percentages; the percentage of the functions covered and of slowdowns beyond their range
//v:assume the charts library draws what it is given
//v:quick 60
//v:thorough 200
func VHChartFigures() {
	changed, reachable, hit, untracked, same, diff, mutants, alive := 6, 4, 2, 1, 5, 1, 4, 1
	times := [2]uint32{30, 20}
	switch vChoose("which", 5) {
	case 0:
		changed = vConc(vIntRange("changed", 0, 6))
		reachable = vConc(vIntRange("reachable", 0, 6))
		vAssume(reachable <= changed)
		hit, untracked = min(hit, reachable/2), min(untracked, reachable/2)
	case 1:
		reachable = vConc(vIntRange("reachable", 0, 4))
		hit, untracked = vConc(vIntRange("hit", 0, 4)), vConc(vIntRange("untracked", 0, 4))
		vAssume(hit+untracked <= reachable)
	case 2:
		same, diff = []int{0, 1, 2, 3, 3000}[vChoose("same", 5)], vConc(vIntRange("diff", 0, 3))
	case 3:
		mutants, alive = []int{0, 1, 2, 3, 3000}[vChoose("mutants", 5)], vConc(vIntRange("alive", 0, 3))
		vAssume(alive <= mutants)
	case 4:
		ts := []uint32{0, 1, 40, 1600, 90000}
		times = [2]uint32{ts[vChoose("before", 5)], ts[vChoose("after", 5)]}
	}
	slow := PerformanceTimeChange{PreTimeMs: times[0], PostTimeMs: times[1], TimeDiff: time.Duration(int64(times[1])-int64(times[0])) * time.Millisecond}
	results := []TestReport{{CallerTimeChanges: map[string]PerformanceTimeChange{"a": slow, "b": {PreTimeMs: 1, PostTimeMs: 0, TimeDiff: -time.Millisecond}}},
		{CallerTimeChanges: map[string]PerformanceTimeChange{"a": slow}}}
	if times[0] == 0 {
		delete(results[0].CallerTimeChanges, "b")
	}
	d := v29Draw(changed, reachable, hit, untracked, same, diff, results, MutationResult{MutationCount: mutants, SquashedCount: mutants - alive})
	vAssert("the update is named", slices.Contains(d.texts, "example.com/m@v1->v2"))
	vAssert("there are five bars, each with a label", len(d.bars) == 5)
	for _, b := range d.bars {
		vAssert("a bar has a title and a label", b.title != "" && b.label != "")
		for _, v := range b.values {
			vAssert("no part of a bar is negative or undefined", v >= 0)
		}
	}
	for _, v := range d.fmts {
		vAssert("no percentage is undefined", v == v && v <= 100 && v >= -1e9)
	}
	full := func(b v29Bar) bool { // the label is 100%
		n := len(d.fmts)
		i := slices.IndexFunc(d.bars, func(c v29Bar) bool { return c.title == b.title })
		for k := len(d.bars) - 1; k > i; k-- {
			if strings.Contains(d.bars[k].label, "#") {
				n--
			}
		}
		return strings.Contains(b.label, "#") && n > 0 && d.fmts[n-1] > 99.95
	}
	near := func(b v29Bar, part, of int) bool { // the label is this share
		n := len(d.fmts)
		i := slices.IndexFunc(d.bars, func(c v29Bar) bool { return c.title == b.title })
		for k := len(d.bars) - 1; k > i; k-- {
			if strings.Contains(d.bars[k].label, "#") {
				n--
			}
		}
		if of == 0 {
			return !strings.Contains(b.label, "#")
		}
		if !strings.Contains(b.label, "#") || n < 1 {
			return false
		}
		w := 100 * float64(part) / float64(of)
		return d.fmts[n-1] > w-0.2 && d.fmts[n-1] < w+0.2
	}
	b, ok := d.has(float64(reachable), float64(changed-reachable))
	vAssert("the functions reachable of those changed are shown", ok && near(b, reachable, changed))
	_, ok = d.has(float64(hit), float64(untracked), float64(reachable-hit-untracked))
	vAssert("the functions tested of those reachable are shown", ok)
	b, ok = d.has(float64(same), float64(diff))
	vAssert("the values that match and differ are shown", ok && near(b, same, same+diff))
	vAssert("all values match only if none differ", !ok || diff == 0 || !full(b))
	b, ok = d.has(float64(mutants-alive), float64(alive))
	vAssert("the mutations detected and not are shown", ok && near(b, mutants-alive, mutants))
	vAssert("all mutations are detected only if none survive", !ok || alive == 0 || !full(b))
	// the smaller of the times and the difference, in one unit
	pre, post := 2*times[0]+1, 2*times[1]
	if times[0] == 0 {
		pre--
	}
	unit := 1.0
	name := "milliseconds"
	switch m := max(pre, post); {
	case m > 120*1000:
		unit, name = 60*1000, "minutes"
	case m > 2000:
		unit, name = 1000, "seconds"
	}
	lo, hi := float64(min(pre, post))/unit, float64(max(pre, post))/unit
	found := false
	for _, b := range d.bars {
		if len(b.values) == 2 && strings.Contains(b.title, name) && v29Close(b.values[0], lo) && v29Close(b.values[1], hi-lo) {
			found = true
			vAssert("it is told which way the time changed", pre == 0 || strings.Contains(b.label, "faster") == (post <= pre) && strings.Contains(b.label, "slower") == (post > pre))
		}
	}
	vAssert("the times before and after are shown", found)
}

func v29Close(a, b float64) bool { return a-b < 1e-6 && b-a < 1e-6 }

type v29Test struct {
	base, post bool
	diffs      int
	gen        bool
}

// The table of risky tests.
//
//v:bounds 1..3 tests, generated or not, failing before and after or not, with 0..2 differing values; and 12 tests with 7..11 differences
//v:outside the text in the column of field changes, besides those that fit; the order of tests that are alike
//v:assume the charts library draws what it is given
//v:quick 60
//v:thorough 200
func VHChartTable() {
	n := 1 + vChoose("tests", 3)
	if vBool("many") {
		n = 12
	}
	var tests []v29Test
	var results []TestReport
	for i := 0; i < n; i++ {
		t := v29Test{diffs: 7 + i%5}
		if n <= 3 {
			t = v29Test{base: vBool("fails before"), post: vBool("fails after"), diffs: vConc(vIntRange("differences", 0, 2))}
			if i < 2 {
				t.gen = vBool("generated")
			}
		}
		name := fmt.Sprintf("Test%d", i+1)
		if t.gen {
			name = "TestGen_" + name
		}
		tests = append(tests, t)
		f := MinimumTestFunction{FunctionIdent: "w:" + name, FunctionName: name}
		results = append(results, TestReport{OriginalResult: TestResult{TestFunction: f, TestFailure: t.base}, PostUpdateResult: TestResult{TestFunction: f, TestFailure: t.post}, DiffFieldCount: t.diffs})
	}
	d := v29Draw(1, 1, 1, 0, 1, 1, results, MutationResult{})
	risky := 0
	for _, t := range tests {
		if t.diffs > 0 || !t.base && t.post {
			risky++
		}
	}
	vAssert("without a risky test there is a text instead of a table", (len(d.table) == 0) == (risky == 0))
	if risky == 0 {
		vAssert("it is told that no test is risky", len(d.texts) > 1)
		return
	}
	rows := d.table[1:]
	vAssert("every risky test is listed, up to ten", len(rows) == min(risky, 10))
	rank := func(t v29Test) int { // regressions first, then most differences; generated tests last
		r := t.diffs
		if !t.base && t.post {
			r += 100
		}
		if !t.gen {
			r += 1000
		}
		return r
	}
	last := 1 << 20
	var seen []string
	for _, r := range rows {
		vAssert("a row has a column for each heading", len(r) == len(d.table[0]) && len(r) > 3)
		k := slices.IndexFunc(results, func(tr TestReport) bool { return tr.OriginalResult.TestFunction.FunctionName == r[0] })
		vAssert("a test is listed once, by its name", k >= 0 && !slices.Contains(seen, r[0]))
		if k < 0 {
			return
		}
		seen = append(seen, r[0])
		t := tests[k]
		vAssert("only risky tests are listed", t.diffs > 0 || !t.base && t.post)
		want := testPassStr
		if t.base {
			want = "Baseline FAIL"
		} else if t.post {
			want = testFailStr
		}
		vAssert("a row tells whether the test regressed and how many values differ", r[1] == want && r[2] == fmt.Sprint(t.diffs))
		vAssert("the most risky tests come first", rank(t) <= last)
		last = rank(t)
	}
	for k, t := range tests {
		if !slices.Contains(seen, results[k].OriginalResult.TestFunction.FunctionName) && (t.diffs > 0 || !t.base && t.post) {
			vAssert("only the least risky tests are left out", rank(t) <= last)
		}
	}
}

// The same results give the same chart, also from the JSON report.
//
//v:bounds up to 3 callers with 1..2 differing fields each, one with a long name of characters of several bytes at any place of the limit; 2 tests with failures, figures and times; every iteration order of the maps
//v:assume the charts library draws what it is given
//v:quick 60
//v:thorough 200
func VHChartAgain() {
	n := 1 + vChoose("callers", 3)
	pad := strings.Repeat("x", 58+vChoose("pad", 4))
	changes := map[string]map[string]string{}
	for i := 0; i < n; i++ {
		changes[[]string{"w:A", "w:B", "w:C"}[i]] = map[string]string{"g": "d"}
	}
	changes["w:A"]["f"] = "d"
	long := vBool("long")
	if long {
		changes["w:B"] = map[string]string{pad + "é€": "d"}
	}
	post := vBool("fails")
	diffs := n + 1
	if vBool("same values") {
		changes, diffs = nil, 0
	}
	f1, f2 := MinimumTestFunction{FunctionIdent: "w:T1", FunctionName: "T1"}, MinimumTestFunction{FunctionIdent: "w:T2", FunctionName: "T2"}
	slow := map[string]PerformanceTimeChange{"w:A": {PreTimeMs: 10, PostTimeMs: 40, TimeDiff: 30e6}, "w:B": {PreTimeMs: 1, PostTimeMs: 3, TimeDiff: 2e6}}
	results := []TestReport{
		{OriginalResult: TestResult{TestFunction: f2, TestFailure: true, ModuleChangesHit: 2}, PostUpdateResult: TestResult{TestFunction: f2, TestFailure: true}, DiffFieldCount: 1, CallerTimeChanges: slow, CallerFieldChanges: map[string]map[string]string{"w:A": {"f": "d"}}},
		{OriginalResult: TestResult{TestFunction: f1}, PostUpdateResult: TestResult{TestFunction: f1, TestFailure: post}, DiffFieldCount: diffs, CallerFieldChanges: changes},
	}
	mut := MutationResult{MutationCount: 5, SquashedCount: 3}
	_, _, _, perf, details, _, _ := PrepareReportData(nil, nil, nil, results, 6) // sorts the results
	d1 := v29Draw(6, 4, 2, 1, 5, diffs+1, results, mut)
	vMapOrder(true)
	d2 := v29Draw(6, 4, 2, 1, 5, diffs+1, results, mut)
	vMapOrder(false)
	vAssert("results drawn again give the same chart", v29Same(d1, d2))
	for _, r := range d2.table {
		for _, c := range r {
			vAssert("no text is cut within a character", utf8.ValidString(c))
		}
		if r[0] == "T1" && !long && diffs > 0 {
			vAssert("the callers whose values differ are told", strings.HasPrefix(r[3], "w:A[f|g]") && (n < 2 || strings.Contains(r[3], "w:B[g]")))
		}
	}
	v29Cur = nil
	_, err := RenderReportChartsFromJson(ReportMetrics{
		Module: ModuleMetrics{RootModuleName: "example.com/m", RootModuleStartVersion: "v1", RootModuleUpdateVersion: "v2", ChangeFuncCount: 6, ReachableChangedFuncCount: 4, UntrackedModuleFuncCount: 1},
		Validation: ValidationMetrics{ModuleChangeHitInTestCount: 2, TestFieldMatchCount: 5, TestFieldDiffCount: diffs + 1, MutationCount: 5, MutationsSquashed: 3,
			PerformanceChanges: perf, TestDetails: details},
	})
	vAssert("the chart of a JSON report is drawn", err == nil && v29Cur != nil)
	vAssert("the chart of the JSON report is that of the analysis", v29Cur != nil && v29Same(d1, v29Cur))
}

func v29Same(a, b *v29Drawing) bool {
	if len(a.bars) != len(b.bars) || len(a.table) != len(b.table) || !slices.Equal(a.texts, b.texts) || !slices.Equal(a.fmts, b.fmts) {
		return false
	}
	for i := range a.bars {
		if a.bars[i].title != b.bars[i].title || a.bars[i].label != b.bars[i].label || !slices.Equal(a.bars[i].values, b.bars[i].values) {
			return false
		}
	}
	for i := range a.table {
		if !slices.Equal(a.table[i], b.table[i]) {
			return false
		}
	}
	return true
}
