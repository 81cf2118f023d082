PROP="P26"
NEEDS="a map with more entries than are captured, whose keys are interfaces holding different named types of the same kind with equal values"
BREAKS="keys of different types of the same kind have the same place in the order of keys, so which entries are kept and their names depend on the iteration order"
EDITS=[("lens/astclient.go",'''		if a.Elem().Type() != b.Elem().Type() {
			at''','''		if a.Elem().Kind() != b.Elem().Kind() {
			at''')]
DEMO='''
package lens

import (
	"reflect"
	"testing"
)

type demoA int8
type demoB int8

func TestDemo(t *testing.T) {
	a, b := [1]any{demoA(1)}, [1]any{demoB(1)}
	if lensCompareReflectValue(reflect.ValueOf(a), reflect.ValueOf(b)) == 0 {
		t.Fatal("same place")
	}
}
'''
