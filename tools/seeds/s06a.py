PROP="P06"
NEEDS="a function with panics both before and after the update, the later ones including a message the earlier ones lack"
BREAKS="a panic that appears only after the update is not counted when the function already panicked with other messages before"
EDITS=[("lens/engine.go",'''				for msg, c := range counts {
					for ; c > 0; c-- {
''','''				for msg, c := range counts {
					for ; c > len(preList); c-- {
''')]
DEMO='''
package lens

import "testing"

func TestDemo(t *testing.T) {
	store := func(p []string) Storage {
		tr := &TestResult{TestFunction: MinimumTestFunction{FunctionIdent: "p.T", FunctionName: "T"}, ProjectPanics: map[string][]string{"f": p}}
		b, err := tr.MarshalMsgpack()
		if err != nil {
			t.Fatal(err)
		}
		s := NewMemStorage()
		_ = s.SaveState("p.T", b)
		return s
	}
	_, diff, _, err := (&DefaultTestResultAnalyzer{}).CompareTestResults(store([]string{"a", "b"}), store([]string{"a", "b", "new"}), 10)
	if err != nil || diff != 1 {
		t.Fatal(diff, err)
	}
}
'''
