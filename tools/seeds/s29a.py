PROP="P29"
NEEDS="more than ten tests with differing values listed before a test that regressed"
BREAKS="the table of the chart is cut off before it is sorted, a regressed test may be missing from it"
EDITS=[("lens/report.go",'''		if testRegression || tr.DiffFieldCount > 0 {''','''		if (testRegression || tr.DiffFieldCount > 0) && len(riskyTests) < bottomTableMaxRecords {''')]
DEMO='''
package lens

import (
	"fmt"
	"strings"
	"testing"

	"github.com/go-analyze/charts"
)

func TestDemo(t *testing.T) {
	var results []TestReport
	add := func(name string, fail bool, diff int) {
		f := MinimumTestFunction{FunctionIdent: "p:" + name, FunctionName: name}
		results = append(results, TestReport{
			OriginalResult:   TestResult{TestFunction: f},
			PostUpdateResult: TestResult{TestFunction: f, TestFailure: fail},
			DiffFieldCount:   diff,
		})
	}
	for i := 0; i < 12; i++ {
		add(fmt.Sprintf("TestM%d", i), false, 1+i)
	}
	add("TestZed", true, 1)
	b, err := renderReportCharts(charts.PainterOptions{OutputFormat: charts.ChartOutputSVG, Width: 1024, Height: 768},
		"m", "v1.0.0", "v1.1.0", 4, 3, 2, 0, 10, 40, results, MutationResult{})
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(string(b), "Zed") {
		t.Fatal("the regressed test is not in the table")
	}
}
'''
