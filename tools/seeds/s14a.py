PROP="P14"
NEEDS="a list of more than 128 characters of text whose values differ only after the 128th character"
BREAKS="the digest of long values covers only their first 128 characters, so a change further on goes unseen"
EDITS=[("lens/astexec.go",'''			sha := sha1.Sum([]byte(str))''','''			sha := sha1.Sum([]byte(str[:nonStringHashSizeLimit]))''')]
DEMO='''
package lens

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	rec := func(last string) string {
		dst := FieldValues{}
		collectFields(dst, "v", strings.Repeat("1 ", 100)+last, "[]int", nil, "")
		return dst["v"].Value
	}
	if rec("2") == rec("3") {
		t.Fatal("different values, same record")
	}
}
'''
