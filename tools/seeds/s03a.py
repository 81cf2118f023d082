PROP="P03"
NEEDS="two call frames of one result whose stacks pass through the same functions and files but at different lines"
BREAKS="the stack dictionary of a stored result is keyed without line numbers, so the second frame reads back with the first frame's lines"
EDITS=[("lens/types.go", '''			walkFV(cf.FieldValues)
			stCount[anyKey(cf.Stack)]++
		}
	}
	for _, frames := range tr.ExtensionFrames {
		for _, cf := range frames {
			walkFV(cf.FieldValues)
			stCount[anyKey(cf.Stack)]++
''','''			walkFV(cf.FieldValues)
			stCount[StackFramesKey(&bytes.Buffer{}, cf.Stack)]++
		}
	}
	for _, frames := range tr.ExtensionFrames {
		for _, cf := range frames {
			walkFV(cf.FieldValues)
			stCount[StackFramesKey(&bytes.Buffer{}, cf.Stack)]++
'''),("lens/types.go",'''				stackKey := anyKey(cf.Stack)''','''				stackKey := StackFramesKey(&bytes.Buffer{}, cf.Stack)''')]
DEMO='''
package lens

import "testing"

func TestDemo(t *testing.T) {
	tr := &TestResult{CallerResults: map[string][]CallFrame{"c": {
		{Stack: []StackFrame{{File: "./a.go", Line: 10, Function: "f"}}},
		{Stack: []StackFrame{{File: "./a.go", Line: 12, Function: "f"}}},
	}}}
	b, err := tr.MarshalMsgpack()
	if err != nil {
		t.Fatal(err)
	}
	var out TestResult
	if err := out.UnmarshalMsgpack(b); err != nil {
		t.Fatal(err)
	}
	if out.CallerResults["c"][0].Stack[0].Line != 10 || out.CallerResults["c"][1].Stack[0].Line != 12 {
		t.Fatalf("%+v", out.CallerResults["c"])
	}
}
'''
