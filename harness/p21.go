package lens

import (
	"bytes"
	"errors"
	"io"
	"strings"
)

// The rolling output buffer never holds more than its limit and always ends
// with the newest output; what it dropped is marked.
//
//v:bounds limit 6..9 bytes; up to 3 (thorough: 4) writes of 0..limit+3 symbolic bytes each
//v:outside limits below 6 bytes (the "..." marker alone exceeds half of them)
func VHRollingBuffer() {
	limit := 6 + vChoose("limit", 4)
	var buf bytes.Buffer
	w := newLimitedRollingBufferWriter(&buf, limit)
	var all []byte
	n := 3
	if vThorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		k := vChoose("len", limit+4)
		p := vBytes("data", k)
		orig := append([]byte(nil), p...)
		m, err := w.Write(p)
		vAssert("write reports every byte accepted", m == k && err == nil)
		vAssert("caller's slice untouched", vEqBytes(orig, p))
		all = append(all, orig...)
		got := buf.Bytes()
		vAssert("bounded by limit", len(got) <= limit)
		if len(all) <= limit {
			vReach("whole")
			vAssert("nothing dropped while within the limit", vEqBytes(got, all))
		} else {
			vReach("trimmed")
			vAssert("dropped output is marked and the newest kept", len(got) >= 3+limit/2 && vEqBytes(got[:3], []byte("...")) && vEqBytes(got[3:], all[len(all)-(len(got)-3):]))
		}
	}
	vObs("out", buf.Bytes())
}

type vWriter21 struct {
	got    []byte
	fail   bool
	short  bool
	closed int
}

var errV21 = errors.New("v21")

func (w *vWriter21) Write(p []byte) (int, error) {
	if w.fail {
		return 0, errV21
	}
	if w.short && len(p) > 0 {
		w.got = append(w.got, p[:len(p)-1]...)
		return len(p) - 1, nil
	}
	w.got = append(w.got, p...)
	return len(p), nil
}
func (w *vWriter21) Close() error { w.closed++; return nil }

// Every writer of a tee receives every byte in order, whatever the others do;
// a failing or short writer surfaces as an error; Close closes each once.
//
//v:bounds 1..4 writers (any of them nil), 2 writes of 0..2 symbolic bytes, any writer failing or writing short
func VHTee() {
	n := 1 + vChoose("writers", 4)
	ws := make([]*vWriter21, 0, n)
	var args []io.Writer
	anyFail, shorts := false, 0
	for i := 0; i < n; i++ {
		if vBool("nil") {
			args = append(args, nil)
			continue
		}
		w := &vWriter21{}
		switch vChoose("mode", 3) {
		case 1:
			w.fail = true
			anyFail = true
		case 2:
			w.short = true
			shorts++
		}
		ws = append(ws, w)
		args = append(args, w)
	}
	vAssume(len(ws) > 0)
	t := TeeWriter(args...)
	var all []byte
	for i := 0; i < 2; i++ {
		k := vChoose("len", 3)
		p := vBytes("data", k)
		m, err := t.Write(p)
		if anyFail {
			vAssert("a failed write is reported", err != nil)
		} else if shorts == 0 {
			vAssert("a full write is reported", err == nil && m == k)
		} else if k > 0 {
			vReach("short")
			vAssert("a short write never looks complete", err != nil || m < k)
		}
		all = append(all, p...)
	}
	for _, w := range ws {
		if !w.fail && !w.short {
			vAssert("every healthy writer gets every byte in order", vEqBytes(w.got, all))
			vObs("got", w.got)
		}
	}
	vAssert("close succeeds", t.Close() == nil)
	for _, w := range ws {
		vAssert("every writer closed once", w.closed == 1)
	}
}

// Line limiting keeps exactly the first (or last) count lines.
//
//v:bounds strings of 0..6 (thorough: 8) bytes, count 0..4, both ends
func VHLimitLines() {
	m := 7
	if vThorough() {
		m = 9
	}
	n := vChoose("n", m)
	s := vStr("s", n)
	count := vChoose("count", 5)
	head := vBool("head")
	out := limitStringLines(s, count, head)
	lines := strings.Split(s, "\n")
	if len(lines) <= count {
		vReach("short")
		vAssert("short text unchanged", out == s)
		return
	}
	vReach("limited")
	if head {
		vAssert("keeps the head", strings.HasPrefix(s, out))
	} else {
		vAssert("keeps the tail", strings.HasSuffix(s, out))
	}
	if count > 0 {
		vAssert("exact line count", strings.Count(out, "\n") == count-1)
		if head {
			vAssert("cut at a line end", s[len(out)] == '\n')
		} else {
			vAssert("cut at a line start", s[len(s)-len(out)-1] == '\n')
		}
	} else {
		vAssert("no lines", out == "")
	}
	vObs("out", out)
}

// The shared buffer loses no write and tears none, under every interleaving.
//
//v:bounds 2 writer goroutines with 2 writes each plus a reader, at most 2 (thorough: 3) preemptions, switch points at every synchronisation operation and shared memory access
func VHLockedBuffer() {
	pre := 2
	if vThorough() {
		pre = 3
	}
	lb := newLockedBuffer()
	done := make(chan struct{}, 2)
	vSched(pre, true)
	go func() {
		_, _ = lb.Write([]byte("ab"))
		_, _ = lb.Write([]byte("cd"))
		done <- struct{}{}
	}()
	go func() {
		_, _ = lb.Write([]byte("12"))
		done <- struct{}{}
	}()
	view := lb.Bytes()
	snap := string(view)
	size := lb.Len()
	<-done
	<-done
	vSchedOff()
	out := lb.String()
	vAssert("all bytes present", len(out) == 6 && lb.Len() == 6)
	ok := out == "abcd12" || out == "ab12cd" || out == "12abcd"
	vAssert("writes atomic and in order per writer", ok)
	vAssert("the size grows", size >= len(snap) && size%2 == 0)
	vAssert("an earlier view is a stable prefix", strings.HasPrefix(out, snap) && string(view) == snap)
}
