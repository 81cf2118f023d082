PROP="P19"
NEEDS="asking whether the directly enclosing directory is within a directory"
BREAKS="the parent directory itself counts as within the directory"
EDITS=[("lens/file.go",'''	if rel == ".." || strings.HasPrefix(filepath.ToSlash(rel), "../") {''','''	if strings.HasPrefix(filepath.ToSlash(rel), "../") {''')]
DEMO='''
package lens

import "testing"

func TestDemo(t *testing.T) {
	if in, err := fileWithinDir("/a/b", "/a/b/c"); in || err != nil {
		t.Fatal(in, err)
	}
}
'''
