PROP="P02"
NEEDS="a message declaring a list or map of 2^63 or more elements, which needs all ten bytes of a varint"
BREAKS="the number of elements is compared as a signed number: huge counts are negative, pass the limit and make the analyser panic instead of returning an error"
EDITS=[("lens/astsrv.go",'''		} else if count > uint64(lr.maxFieldLen) {
			return nil, nil, fmt.Errorf("container''','''		} else if int(count) > lr.maxFieldLen {
			return nil, nil, fmt.Errorf("container''')]
DEMO='''
package lens

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	b := []byte{1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, lensTypeTagSlice, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1}
	if _, err := newLensReader(bytes.NewReader(b), 1024).decodeMessagePointState(); err == nil {
		t.Fatal("accepted")
	}
}
'''
