PROP="P13"
NEEDS="a state reported more than about 4.3 seconds after the start of the process"
BREAKS="the time of a state is reduced to 32 bits before it is converted from nanoseconds, so that later times wrap around"
EDITS=[("lens/astexec.go",'''uint32((msg.TimeNS + 500000) / 1_000_000)''','''uint32(msg.TimeNS+500000) / 1_000_000''')]
DEMO='''
package lens

import "testing"

func TestDemo(t *testing.T) {
	id := "f"
	m := &testMonitor{pointLocks: newDefaultStripedMutex(), callerFrames: map[string][]CallFrame{}, projectStatePointIdToIdent: map[uint32]*string{1: &id}}
	m.HandleFuncPointState(LensMonitorMessagePointState{PointID: 1, TimeNS: 5_000_000_000})
	m.wait.Wait()
	if got := m.callerFrames["f"][0].TimeMillis; got != 5000 {
		t.Fatal(got)
	}
}
'''
