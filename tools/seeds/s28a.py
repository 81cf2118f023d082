PROP="P28"
NEEDS="targeted mutation testing, and a file whose changes are covered by more than one test"
BREAKS="for each file only the first test covering a change in it is run, mutations only other tests detect count as alive"
EDITS=[("lens/mutation.go",'''				if !slices.Contains(existing, testFunc.FunctionName) {''','''				if len(existing) == 0 {''')]
DEMO='''
package lens

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	bin := filepath.Join(d, "bin")
	os.Mkdir(bin, 0o755)
	out := filepath.Join(d, "script")
	os.WriteFile(filepath.Join(bin, "go-mutesting"), []byte("#!/bin/bash\\ncp \\"$2\\" "+out+"\\necho 'The mutation score is 0.5 (1 passed, 1 failed, 0 duplicated, 0 skipped, total is 2)'\\n"), 0o755)
	t.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	t.Setenv("TMPDIR", d)
	os.WriteFile(filepath.Join(d, "go.mod"), []byte("module w\\n"), 0o600)
	src := filepath.Join(d, "a.go")
	os.WriteFile(src, []byte("package p\\n\\nfunc F() {\\n}\\n"), 0o600)
	change := &ModuleFunction{Function: Function{FilePath: src, FunctionName: "F", FunctionIdent: "p:F"}}
	var tests []*TestFunction
	for _, n := range []string{"TestAlpha", "TestBeta"} {
		tests = append(tests, &TestFunction{Function: Function{FunctionName: n}, Targets: []*CallerFunction{{ChangeFunctions: []*ModuleFunction{change}}}})
	}
	if _, err := RunMutationTesting("", "", d, true, false, true, []*ModuleFunction{change}, tests); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(out)
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"TestAlpha", "TestBeta"} {
		if !contains(string(b), n) {
			t.Fatal(n, "is not run")
		}
	}
}

func contains(s, x string) bool {
	for i := 0; i+len(x) <= len(s); i++ {
		if s[i:i+len(x)] == x {
			return true
		}
	}
	return false
}
'''
