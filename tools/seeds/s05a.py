PROP="P05"
NEEDS="a panic message occurring more often in the first run than in the second"
BREAKS="panics are intersected as sets: a panic that happened twice in one run and once in the other is reported stable twice"
EDITS=[("lens/astexec.go",'''					out[ident] = append(out[ident], msg)
					counts[msg]--
''','''					out[ident] = append(out[ident], msg)
''')]
DEMO='''
package lens

import "testing"

func TestDemo(t *testing.T) {
	r1 := TestResult{ProjectPanics: map[string][]string{"f": {"boom", "boom"}}}
	r2 := TestResult{ProjectPanics: map[string][]string{"f": {"boom"}}}
	if got := testResultStableFields(r1, r2).ProjectPanics["f"]; len(got) != 1 {
		t.Fatalf("%v", got)
	}
}
'''
