PROP="P05"
NEEDS="two runs that panicked a different number of times in the same function, the run with more panics having a message repeated more often than the other"
BREAKS="panics are not counted with multiplicity when the runs have different numbers of panics: a panic that happened once in one run and twice in the other is kept twice"
EDITS=[("lens/astexec.go",'''				if counts[msg] > 0 {
					out[ident] = append(out[ident], msg)
					counts[msg]--
				}''','''				if counts[msg] > 0 {
					out[ident] = append(out[ident], msg)
					if len(list1) == len(list2) {
						counts[msg]--
					}
				}''')]
DEMO='''
package lens

import "testing"

func TestDemo(t *testing.T) {
	a := TestResult{ProjectPanics: map[string][]string{"f": {"x", "x"}}}
	b := TestResult{ProjectPanics: map[string][]string{"f": {"x"}}}
	if got := testResultStableFields(a, b).ProjectPanics["f"]; len(got) != 1 {
		t.Fatal(got)
	}
}
'''
