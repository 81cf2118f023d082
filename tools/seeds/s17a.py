PROP="P17"
NEEDS="an update of several modules where an unchanged requirement precedes a changed one and direct and indirect requirements are mixed"
BREAKS="a changed module is told to be direct or indirect by the requirement at the position of the change among the changes, not by its own"
EDITS=[("lens/module.go",'''				Indirect:     r.Indirect,
			})
		}
	}
	return changes, nil''','''				Indirect:     newFile.Require[len(changes)].Indirect,
			})
		}
	}
	return changes, nil''')]
DEMO='''
package lens

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	old, upd := filepath.Join(d, "old.mod"), filepath.Join(d, "new.mod")
	os.WriteFile(old, []byte("module w\\n\\nrequire a.b/c v1.0.0\\n\\nrequire a.b/d v1.0.0 // indirect\\n"), 0o600)
	os.WriteFile(upd, []byte("module w\\n\\nrequire a.b/c v1.0.0\\n\\nrequire a.b/d v1.1.0 // indirect\\n"), 0o600)
	got, err := DiffModulesFromGoModFiles(old, upd)
	if err != nil || len(got) != 1 || !got[0].Indirect {
		t.Fatal(got, err)
	}
}
'''
