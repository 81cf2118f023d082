package lens

import (
	"bytes"
	"errors"
	"io"
	"net/http"
	"net/url"
)

var v15Stack = []lensMonitorStackFrame{{File: "/w/a.go", Function: "p.F", Line: 7}}

func vstub_lens__captureLensMonitorStack(skip int) []lensMonitorStackFrame { return v15Stack }

type v15Writer struct {
	h    http.Header
	code int
	n    int
}

func (w *v15Writer) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}
	return w.h
}
func (w *v15Writer) Write(p []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	w.n += len(p)
	return len(p), nil
}
func (w *v15Writer) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}

// http.Error without its formatting.
func vstub_net_S_http__Error(w http.ResponseWriter, msg string, code int) {
	w.WriteHeader(code)
	_, _ = w.Write([]byte("error"))
}

type v15Body struct {
	io.Reader
	closed int
}

func (b *v15Body) Close() error { b.closed++; return nil }

type v15Handler struct {
	points []LensMonitorMessagePoint
	states []LensMonitorMessagePointState
	panics []LensMonitorMessagePointPanic
}

func (h *v15Handler) HandleFuncPoint(m LensMonitorMessagePoint) { h.points = append(h.points, m) }
func (h *v15Handler) HandleFuncPointState(m LensMonitorMessagePointState) {
	h.states = append(h.states, m)
}
func (h *v15Handler) HandleFuncPointPanic(m LensMonitorMessagePointPanic) {
	h.panics = append(h.panics, m)
}
func (h *v15Handler) total() int { return len(h.points) + len(h.states) + len(h.panics) }

func v15Server(h astPointHandler) *astServer {
	s := &astServer{maxFieldLen: lensMonitorFieldMaxLen}
	s.pointHandler.Store(&h)
	return s
}

func v15Serve(s *astServer, path, method string, body []byte) (*v15Writer, *v15Body) {
	w, b := &v15Writer{}, &v15Body{Reader: bytes.NewReader(body)}
	r := &http.Request{Method: method, Body: b, URL: &url.URL{Path: path}, Header: http.Header{}}
	switch path {
	case lensMonitorEndpointPathPoint:
		s.handlePoint(w, r)
	case lensMonitorEndpointPathState:
		s.handlePointState(w, r)
	case lensMonitorEndpointPathPanic:
		s.handlePointPanic(w, r)
	case lensMonitorEndpointPathError:
		s.handleEventError(w, r)
	default:
		w.code = 404
	}
	return w, b
}

// Requests that are not well formed posts are refused and reach no handler;
// well formed ones reach it once.
//
//v:bounds the three kinds of point messages and the error message with symbolic id, time and one symbolic byte of content, cut after any number of bytes; methods POST, GET, PUT and the empty one
func VHHandlers() {
	h := &v15Handler{}
	s := v15Server(h)
	id, ts := vU32("id"), vI64("ts")
	txt := vStr("txt", 1)
	kind := vChoose("kind", 4)
	var buf bytes.Buffer
	path := ""
	switch kind {
	case 0:
		lensEncodeMessagePoint(&buf, id, ts, v15Stack)
		path = lensMonitorEndpointPathPoint
	case 1:
		lensEncodeMessagePointState(&buf, id, ts, v15Stack, []lensMonitorFieldSnapshot{{Name: "x", Val: txt}})
		path = lensMonitorEndpointPathState
	case 2:
		lensEncodeMessagePointPanic(&buf, id, ts, txt)
		path = lensMonitorEndpointPathPanic
	case 3:
		lensEncodeMessageError(&buf, id, errors.New(txt), v15Stack)
		path = lensMonitorEndpointPathError
	}
	method := []string{"POST", "GET", "PUT", ""}[vChoose("method", 4)]
	body := buf.Bytes()
	whole := true
	if vBool("cut") {
		body = body[:vChoose("at", len(body))]
		whole = false
	}
	w, _ := v15Serve(s, path, method, body)
	switch {
	case method != "POST":
		vAssert("another method is refused", w.code == 405 && h.total() == 0)
	case !whole:
		vAssert("an incomplete message is refused", w.code == 400 && h.total() == 0)
		vReach("cut")
	case kind == 3:
		vAssert("an error message is accepted and reaches no handler", w.code == 200 && h.total() == 0)
	default:
		vAssert("a message is accepted and handled once", w.code == 200 && h.total() == 1)
		switch kind {
		case 0:
			vAssert("the entry arrives", len(h.points) == 1 && h.points[0].PointID == id && h.points[0].TimeNS == ts && len(h.points[0].Stack) == 1 && h.points[0].Stack[0] == v15Stack[0])
		case 1:
			vAssert("the state arrives", len(h.states) == 1 && h.states[0].PointID == id && h.states[0].TimeNS == ts && len(h.states[0].Fields) == 1 && h.states[0].Fields[0].Name == "x")
		case 2:
			vAssert("the panic arrives", len(h.panics) == 1 && h.panics[0].PointID == id && h.panics[0].TimeNS == ts && h.panics[0].Message == txt)
		}
	}
}

var (
	v15Srv   *astServer
	v15Fails []int // outcome of each post: 0 served, 1 not sent, 2 refused
	v15Posts []string
	v15Open  []*v15Body
	v15Error = errors.New("connection refused")
)

func vstub_net_S_http__Client__Post(c *http.Client, u, ctype string, body io.Reader) (*http.Response, error) {
	data, err := io.ReadAll(body)
	if err != nil {
		return nil, err
	}
	path := ""
	for _, p := range []string{lensMonitorEndpointPathPoint, lensMonitorEndpointPathState, lensMonitorEndpointPathPanic, lensMonitorEndpointPathError} {
		if len(u) >= len(p) && u[len(u)-len(p):] == p {
			path = p
		}
	}
	v15Posts = append(v15Posts, path)
	k := vChoose("post", 3)
	v15Fails = append(v15Fails, k)
	if k == 1 {
		return nil, v15Error
	}
	b := &v15Body{Reader: bytes.NewReader(nil)}
	v15Open = append(v15Open, b)
	if k == 2 {
		return &http.Response{StatusCode: 500, Body: b}, nil
	}
	w, _ := v15Serve(v15Srv, path, "POST", data)
	return &http.Response{StatusCode: w.code, Body: b}, nil
}

// What the test process sends reaches the handler in place at that moment
// once; what cannot be sent is reported once and disturbs nothing.
//
//v:bounds 2 (thorough: 3) messages of any kind, each post served, failing or refused, the handler possibly replaced in between
func VHSend() {
	hs := []*v15Handler{{}, {}}
	v15Srv = v15Server(hs[0])
	v15Fails, v15Posts, v15Open = nil, nil, nil
	cur := 0
	want := []int{0, 0}
	n := 2
	if vThorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		if i > 0 && vBool("replace") {
			cur = 1
			vAssert("replacing the handler succeeds", v15Srv.SetPointHandler(hs[1]) == nil)
		}
		id := vU32("id")
		before := len(v15Posts)
		path := ""
		handled := true
		switch vChoose("kind", 4) {
		case 0:
			path = lensMonitorEndpointPathPoint
			sendLensPointMessage(id)
		case 1:
			path = lensMonitorEndpointPathState
			sendLensPointStateMessage(id, lensMonitorFieldSnapshot{Name: "x", Val: int32(3)}, lensMonitorFieldSnapshot{Name: "nil"})
		case 2:
			path = lensMonitorEndpointPathPanic
			sendLensPointRecoveryMessage(id, v15Error)
		case 3:
			handled = false
			sendLensPointRecoveryMessage(id, nil)
			vAssert("no panic, no message", len(v15Posts) == before)
			continue
		}
		vAssert("the message is posted once to its endpoint", len(v15Posts) > before && v15Posts[before] == path)
		if len(v15Posts) <= before {
			continue
		}
		if v15Fails[before] == 0 {
			vAssert("a served message is not posted again", len(v15Posts) == before+1)
		} else {
			handled = false
			vAssert("a failed message is reported once", len(v15Posts) == before+2 && v15Posts[before+1] == lensMonitorEndpointPathError)
			vReach("failed")
		}
		if handled {
			want[cur]++
		}
	}
	for k, h := range hs {
		vAssert("messages reach the handler in place, once", h.total() == want[k])
	}
	for _, b := range v15Open {
		vAssert("responses are closed", b.closed > 0)
	}
	for _, h := range hs {
		for _, s := range h.states {
			vAssert("placeholders are not sent", len(s.Fields) == 1 && s.Fields[0].Name == "x")
		}
	}
}
