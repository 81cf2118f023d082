PROP="P18"
NEEDS="an update that replaces several lines of a function by fewer lines"
BREAKS="only the first of the replaced lines count as changed, the mutation area misses the others"
EDITS=[("lens/module.go",'''				for i := code.I1; i < code.I2; i++ {''','''				for i := code.I1; i < min(code.I2, code.I1+max(1, code.J2-code.J1)); i++ {''')]
DEMO='''
package lens

import "testing"

func TestDemo(t *testing.T) {
	before := "func F() int {\\n\\ta := one()\\n\\tb := two()\\n\\tc := three()\\n\\td := four()\\n\\treturn a + b + c + d\\n}"
	after := "func F() int {\\n\\tx := other()\\n\\ty := another()\\n\\treturn a + b + c + d\\n}"
	m := computeChangeLineBitmap(before, after, false, 0)
	for i := 1; i <= 4; i++ {
		if i >= len(m) || !m[i] {
			t.Fatal("line", i, "is replaced but not marked", m)
		}
	}
}
'''
