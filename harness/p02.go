package lens

import "bytes"

func v02Msg(prefix []byte, n int) *bytes.Reader {
	b := append([]byte(nil), prefix...)
	b = append(b, vBytes("msg", n)...)
	return bytes.NewReader(b)
}

var v02Head = []byte{1, 0, 0, 0, 0, 0, 0, 0, 0}

// Any bytes posted as a state message give a message or an error: no panic,
// and no allocation sized by a number in the message alone.
//
//v:bounds arbitrary 0..6 (thorough 8) bytes after the id, time and empty stack; list limit 16
func VHDecodeState() {
	vMaxAlloc(4 << 20)
	m := 7
	if vThorough() {
		m = 9
	}
	n := vChoose("n", m)
	r := v02Msg(append(append([]byte(nil), v02Head...), 0), n)
	msg, err := newLensReader(r, 16).decodeMessagePointState()
	vObs("err", err != nil)
	vObs("fields", len(msg.Fields))
	if err == nil {
		vReach("accepted")
		vAssert("accepted message fits its bytes", len(msg.Fields)*3 <= n)
	} else {
		vReach("rejected")
	}
}

// The same inside one field: every type tag with arbitrary contents.
//
//v:bounds every one of the 256 tags followed by arbitrary 0..6 bytes (thorough: 0..9); list limit 3
func VHDecodeValue() {
	vMaxAlloc(4 << 20)
	m := 7
	if vThorough() {
		m = 10
	}
	n := vChoose("n", m)
	r := v02Msg(append(append([]byte(nil), v02Head...), 0, 1, 0, 0), n)
	msg, err := newLensReader(r, 3).decodeMessagePointState()
	vObs("err", err != nil)
	if err == nil {
		vReach("accepted")
		vAssert("one field", len(msg.Fields) == 1)
		switch v := msg.Fields[0].Value.(type) {
		case []bool:
			vAssert("list limit", len(v) <= 3)
		case []int32:
			vAssert("list limit", len(v) <= 3)
		case []int64:
			vAssert("list limit", len(v) <= 3)
		case []uint32:
			vAssert("list limit", len(v) <= 3)
		case []uint64:
			vAssert("list limit", len(v) <= 3)
		case []float32:
			vAssert("list limit", len(v) <= 3)
		case []float64:
			vAssert("list limit", len(v) <= 3)
		case []string:
			vAssert("list limit", len(v) <= 3)
		case []byte:
			vAssert("list limit", len(v) <= 3)
		}
	}
}

// Arbitrary stack sections.
//
//v:bounds arbitrary 0..6 (thorough 7) bytes of stack section with fewer than 4 or more than 2048 declared frames
//v:outside declared frame counts 4..2048 (same loop, more iterations)
func VHDecodeStack() {
	vMaxAlloc(4 << 20)
	m := 7
	if vThorough() {
		m = 8
	}
	n := vChoose("n", m)
	b := vBytes("msg", n)
	if n >= 1 {
		if n >= 2 {
			vAssume(vOr(b[0] < 4, vAnd(b[0] >= 0x80, b[1] > 16)))
		} else {
			vAssume(vOr(b[0] < 4, b[0] >= 0x80))
		}
	}
	full := append(append([]byte(nil), v02Head...), b...)
	msg, err := newLensReader(bytes.NewReader(full), 16).decodeMessagePoint()
	vObs("err", err != nil)
	if err == nil {
		vReach("accepted")
		vAssert("frames within the declared limit", len(msg.Stack) <= lensMonitorMaxStackFrames)
	}
}

// Arbitrary point, panic and error messages from the first byte on.
//
//v:bounds panic messages of arbitrary 0..12 (thorough 14) bytes, error messages of 0..6 (thorough 8) bytes
func VHDecodeHead() {
	vMaxAlloc(4 << 20)
	kind := vChoose("kind", 2)
	m := []int{13, 7}[kind]
	if vThorough() {
		m += 2
	}
	n := vChoose("n", m)
	b := vBytes("msg", n)
	lr := newLensReader(bytes.NewReader(b), 16)
	switch kind {
	case 0:
		msg, err := lr.decodeMessagePointPanic()
		vObs("err", err != nil)
		if err == nil {
			vAssert("text comes from the message", len(msg.Message) <= n)
		}
	case 1:
		if n > 0 {
			vAssume(b[0] < 0x80)
		}
		if n > 1 {
			vAssume(b[1] < 4)
		}
		if n > 2 {
			vAssume(b[2] < 3)
		}
		msg, err := lr.decodeMessageError()
		vObs("err", err != nil)
		if err == nil {
			vAssert("text comes from the message", len(msg.Message) <= n)
		}
	}
}

// Any number at any place where a count or length is told.
//
//v:bounds each count and length of the four kinds of messages and of every value tag any 64-bit number (spelled in 10 bytes) below 3 or above 4096, with 0..3 bytes following; list limit 3
func VHNumbers() {
	vMaxAlloc(4 << 20)
	d := vBytes("n", 10)
	var low, high uint64
	for i := 0; i < 9; i++ {
		vAssume(d[i] >= 0x80)
	}
	vAssume(d[9] <= 1)
	low = uint64(d[0]&0x7f) | uint64(d[1]&0x7f)<<7
	for i := 2; i < 10; i++ {
		high |= uint64(d[i] & 0x7f)
	}
	vAssume(vOr(low < 3, high != 0))
	b := append([]byte(nil), v02Head...)
	place := vChoose("place", 9)
	if place == 7 {
		b = []byte{1}
	}
	switch place {
	case 1: // string table
		b = append(b, 2)
	case 2: // entry of the table
		b = append(b, 2, 1)
	case 3: // fields
		b = append(b, 0)
	case 4: // name
		b = append(b, 0, 1)
	case 5: // type
		b = append(b, 0, 1, 0)
	case 6: // value
		tag := vU8("tag")
		vAssume(tag != lensTypeTagString) // same as a name
		b = append(b, 0, 1, 0, 0, tag)
	case 8: // frame
		b = append(b, 2, 0)
	}
	b = append(b, d...)
	n := vChoose("more", 4)
	b = append(b, vBytes("more", n)...)
	lr := newLensReader(bytes.NewReader(b), 3)
	switch {
	case place == 7:
		msg, err := lr.decodeMessageError()
		vAssert("text comes from the message", err != nil || len(msg.Message) <= n)
	case place == 0 && vBool("panic"):
		msg, err := lr.decodeMessagePointPanic()
		vAssert("text comes from the message", err != nil || len(msg.Message) <= n)
	default:
		msg, err := lr.decodeMessagePointState()
		vAssert("what is accepted comes from the message", err != nil || len(msg.Fields) <= 1 && len(msg.Stack) <= 2)
	}
}
