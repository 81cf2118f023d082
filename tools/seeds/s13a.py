PROP="P13"
NEEDS="a module function panicking more than once with the same message within one test"
BREAKS="repeated panics of a module function with the same message are recorded only once"
EDITS=[("lens/astexec.go",'''		t.modulePanics[ident] = append(t.modulePanics[ident], msg.Message)''','''		if !slices.Contains(t.modulePanics[ident], msg.Message) {
			t.modulePanics[ident] = append(t.modulePanics[ident], msg.Message)
		}''')]
DEMO='''
package lens

import "testing"

func TestDemo(t *testing.T) {
	id := "f"
	m := &testMonitor{modulePanics: map[string][]string{}, modulePanicPointIdToIdent: map[uint32]*string{1: &id}}
	m.HandleFuncPointPanic(LensMonitorMessagePointPanic{PointID: 1, Message: "x"})
	m.HandleFuncPointPanic(LensMonitorMessagePointPanic{PointID: 1, Message: "x"})
	if len(m.modulePanics["f"]) != 2 {
		t.Fatal(m.modulePanics)
	}
}
'''
