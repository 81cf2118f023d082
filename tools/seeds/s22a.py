PROP="P22"
NEEDS="the largest documented maximum field length, 1048576"
BREAKS="the largest allowed field length is refused"
EDITS=[("lens/engine.go",'''c.MaxFieldLen > 1048576 {''','''c.MaxFieldLen >= 1048576 {''')]
DEMO='''
package lens

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module m"), 0o644); err != nil {
		t.Fatal(err)
	}
	c := &Config{ProjectDir: dir, ModuleVersionFlag: "example.com/m@v1", AstMonitorPort: 44440, MaxFieldRecurse: 20, MaxFieldLen: 1048576, CacheMB: 200,
		TimeMultiplier: 2, MutationScope: "line", MutationMode: "fast", MutationTests: "targeted"}
	if err := c.Prepare(); err != nil {
		t.Fatal(err)
	}
}
'''
