package harness

import (
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/bantling/micro/rest"

	"verif.local/sim/vsim"
)

// The router under concurrent registrations and requests: every operation is recorded with its start and end, and
// afterwards an order of the registrations is searched that explains every answer (linearizability).

const (
	evCall = 100 + iota
	evEntry
	evRet
)

var (
	muxPatterns = []string{"^/a$", "^/a/([0-9]+)$", "/a", "^/(a|b)(/[a-z]*)?$", "^/b/([^/]+)/(x|y)?$", ".*", "^/$", "^/u/" + rest.UUIDGroup + "$", "b", "^/A$", "^/(a|ab)(c|b)?$", "^/b//", "\\?x=1$", "(?i)^/ab", "^/a/12/?$", "^(?:/(a)|/(b))", "^(/)(a)(/)([0-9])([0-9])(x)?$", "^" + strings.Repeat("(/?)([a-z]?)", 9)}
	muxPaths    = []string{"/a", "/a/12", "/b", "/b/q/x", "/b/q/", "/", "/u/0a1B2c3d-1234-5678-9abc-DEF012345678", "/c", "/a/", "/A", "", "/b/é/y", "/b/" + strings.Repeat("z", 300) + "/x", "/ab", "/b//x", "/a/12/", "//a", "/b/../a", "/a/12?x=1", "/a%2F12", "/b/\xff/y", "/a/./12", "/AB", " /a", "/a\n"}
	muxMethods  = []string{"GET", "POST", "PUT", "get", "X-CUSTOM", "HEAD", "OPTIONS", "DELETE", "PATCH"}
	muxBad      = []string{"(", "[a", "a**", "(?P<x>", ")", "\\8"}
)

type muxRoute struct {
	method, pattern string
	bad             bool // has to be rejected
	nilHandler      bool
	must            bool
	func_           bool // registered through HandlerFunc
	accepted        bool
	rx              *regexp.Regexp
	run             *muxRun
	id              int
}

type muxOp struct {
	id       int
	route    *muxRoute // a registration
	method   string    // a request
	path     string
	behave   int // what the handler does
	nested   []*muxOp
	panicVal any
	brokenW  bool // the response writer fails
	scribble bool // the handler overwrites the parts when it is done

	// outcome; written by the thread of the operation, read after it has been joined
	start, end int
	began, fin bool
	got        int // id of the route whose handler was called, or -404, -405
	parts      []string
	handlers   int
	w          *muxWriter
	req        *http.Request
}

const (
	behNothing = iota
	behWrite
	behStall // until released
	behSleep
	behPanic
	behNested
	behNestedPanic
)

type muxRun struct {
	e      *E
	sm     *rest.ServeMux
	ops    []*muxOp
	gate   bool
	gated  int
	stalls bool
	many   int  // how many numbered paths there are
	wide   bool // nearly all routes are for one numbered path each
}

func (m *muxRun) path() string {
	if m.many > 0 && m.e.Bool() {
		return fmt.Sprint("/n/", m.e.Draw(m.many))
	}
	if m.e.OneIn(200) {
		return "/b/" + strings.Repeat("z", []int{1000, 2000, 4090, 9000, 66000}[m.e.Draw(5)]) + "/x"
	}
	return muxPaths[m.e.Draw(len(muxPaths))]
}

// muxWriter is the client's end of a response
type muxWriter struct {
	hdr    http.Header
	code   int
	body   strings.Builder
	calls  int
	broken bool
	slow   func() // waits for the client to take what is written
}

func (w *muxWriter) Header() http.Header { return w.hdr }
func (w *muxWriter) WriteHeader(c int) {
	w.calls++
	if w.code == 0 {
		w.code = c
	}
}
func (w *muxWriter) Write(b []byte) (int, error) {
	w.calls++
	if w.slow != nil {
		w.slow()
	}
	if w.code == 0 {
		w.code = 200
	}
	if w.broken {
		return 0, errors.New("connection reset")
	}
	return w.body.Write(b)
}

func muxMethod(e *E) string {
	if e.Draw(3) < 2 {
		return muxMethods[e.Draw(2)]
	}
	return muxMethods[e.Draw(len(muxMethods))]
}

func (m *muxRun) newRoute() *muxRoute {
	e := m.e
	r := &muxRoute{run: m, method: muxMethod(e), pattern: muxPatterns[e.Draw(len(muxPatterns))], must: e.OneIn(5), func_: e.Bool()}
	if m.wide && !e.OneIn(300) {
		r.pattern = fmt.Sprintf("^/n/%d$", e.Draw(m.many))
		r.rx = regexp.MustCompile(r.pattern)
		return r
	}
	if e.OneIn(300) {
		r.pattern = "^" + strings.Repeat("(/?)([a-z]?)", e.Range(10, 70)) + "(.?)"
	}
	if m.many > 0 && e.Bool() {
		n := e.Draw(m.many)
		r.pattern = []string{fmt.Sprintf("^/n/%d$", n), fmt.Sprintf("^/n/[0-9]*%d$", n%10), fmt.Sprintf("^/(n)/(%d)", n)}[e.Draw(3)]
	}
	if e.OneIn(5) {
		r.bad = true
		switch e.Draw(4) {
		case 0:
			r.method = ""
		case 1:
			r.pattern = ""
		case 2:
			r.nilHandler = true
		case 3:
			r.pattern = muxBad[e.Draw(len(muxBad))]
		}
	} else {
		r.rx = regexp.MustCompile(r.pattern)
	}
	return r
}

func (m *muxRun) newOp(depth int) *muxOp {
	e := m.e
	op := &muxOp{id: len(m.ops)}
	m.ops = append(m.ops, op)
	if e.Draw(5) < 2 {
		op.route = m.newRoute()
		op.route.id = op.id
		return op
	}
	op.method, op.path = muxMethod(e), m.path()
	if e.OneIn(30) {
		op.method = "" // which no route has
	}
	op.brokenW, op.scribble = e.OneIn(10), e.OneIn(3)
	if !m.e.Faults {
		op.behave = e.Draw(2)
		return op
	}
	op.behave = e.Draw(7)
	switch op.behave {
	case behStall:
		if !m.stalls {
			op.behave = behSleep
		}
	case behPanic, behNestedPanic:
		op.panicVal = []any{errors.New("handler failed"), "text", http.ErrAbortHandler, &struct{ n int }{op.id}, 42}[e.Draw(5)]
	}
	if op.behave >= behNested {
		if depth <= 0 {
			op.behave -= behNested
			if op.behave == behNothing && op.panicVal != nil {
				op.behave = behPanic
			}
			return op
		}
		for n := e.Range(1, 3); n > 0; n-- {
			op.nested = append(op.nested, m.newOp(depth-1))
		}
	}
	return op
}

// Serve is the handler of a route
func (r *muxRoute) Serve(w http.ResponseWriter, rq *http.Request, parts []string) {
	r.run.serve(r, w, rq, parts)
}

func (m *muxRun) serve(r *muxRoute, w http.ResponseWriter, rq *http.Request, parts []string) {
	e := m.e
	id, err := strconv.Atoi(rq.Header.Get("X-Op"))
	if err != nil || id < 0 || id >= len(m.ops) {
		e.Fail("mux-request", "a handler was called with a request that nobody made")
	}
	op := m.ops[id]
	op.end = vsim.Rec(evEntry, int64(id), int64(r.id), "")
	op.handlers++
	op.got = r.id
	op.parts = append([]string{}, parts...)
	e.Assert(rq == op.req && w == http.ResponseWriter(op.w), "mux-request", "request %d: the handler got another request or response", id)
	e.Assert(op.handlers == 1, "mux-twice", "request %d: %d handlers were called", id, op.handlers)
	e.Assert(op.w.calls == 0, "mux-wrote", "request %d: the router wrote a response before calling the handler", id)
	e.Trace("request %d (%s %s) is handled by route %d %q, parts %q", id, op.method, op.path, r.id, r.pattern, parts)
	defer func() { // they were meant for this handler alone
		e.Assert(fmt.Sprintf("%q", parts) == fmt.Sprintf("%q", op.parts), "mux-parts", "request %d: the parts %q became %q while it was handled", id, op.parts, parts)
		if op.scribble {
			for i := range parts {
				parts[i] = "scribbled"
			}
			_ = append(parts[:0], "s")
		}
	}()
	switch op.behave {
	case behWrite:
		w.WriteHeader(201)
		fmt.Fprintf(w, "route %d", r.id)
	case behStall:
		e.Fault("stalled handler")
		for !m.opened() {
			vsim.Block(m)
		}
	case behSleep:
		e.Fault("slow handler")
		vsim.Sleep(time.Duration(1+id) * time.Hour)
	case behPanic:
		e.Fault("panicking handler")
		panic(op.panicVal)
	case behNested, behNestedPanic:
		e.Fault("reentrant handler")
		for _, n := range op.nested {
			m.do(n)
		}
		if op.behave == behNestedPanic {
			e.Fault("panicking handler")
			panic(op.panicVal)
		}
	}
}

func (m *muxRun) do(op *muxOp) {
	e := m.e
	op.began = true
	if r := op.route; r != nil {
		e.Trace("registration %d: %s %q bad %v", op.id, r.method, r.pattern, r.bad)
		var h rest.Handler = r
		if r.func_ {
			h = rest.HandlerFunc(func(w http.ResponseWriter, rq *http.Request, parts []string) { m.serve(r, w, rq, parts) })
		}
		if r.nilHandler {
			h = nil
		}
		op.start = vsim.Rec(evCall, int64(op.id), 0, "")
		var err error
		if r.must {
			val, panicked := Catch(func() { m.sm.MustHandle(r.method, r.pattern, h) })
			if panicked {
				err, _ = val.(error)
				e.Assert(err != nil, "mux-must", "MustHandle panicked with %v, not an error", val)
			}
		} else {
			err = m.sm.Handle(r.method, r.pattern, h)
		}
		op.end = vsim.Rec(evRet, int64(op.id), 0, "")
		op.fin = true
		e.Trace("registration %d returns %v", op.id, err)
		if r.bad {
			e.Fault("rejected registration")
			e.Assert(err != nil, "mux-accepted", "registration of method %q, pattern %q, nil handler %v was accepted", r.method, r.pattern, r.nilHandler)
		} else {
			e.Assert(err == nil, "mux-rejected", "registration of method %q, pattern %q was rejected: %v", r.method, r.pattern, err)
		}
		return
	}
	op.w = &muxWriter{hdr: http.Header{}, broken: op.brokenW}
	switch op.behave { // if no handler is called, it is the client that makes the router wait
	case behStall:
		op.w.slow = func() {
			e.Fault("stalled client")
			for !m.opened() {
				vsim.Block(m)
			}
		}
	case behSleep:
		op.w.slow = func() {
			e.Fault("slow client")
			vsim.Sleep(time.Duration(1+op.id) * time.Minute)
		}
	}
	op.req = &http.Request{Method: op.method, URL: &url.URL{Path: op.path, RawPath: "/c%2F", RawQuery: "/a", Host: "h", Fragment: "/b"}, Header: http.Header{"X-Op": {fmt.Sprint(op.id)}}, RequestURI: "/a/12", Host: "h"}
	e.Trace("request %d: %s %s", op.id, op.method, op.path)
	op.start = vsim.Rec(evCall, int64(op.id), 0, "")
	val, panicked := Catch(func() { m.sm.ServeHTTP(op.w, op.req) })
	ret := vsim.Rec(evRet, int64(op.id), 0, "")
	if op.handlers == 0 {
		op.end = ret
		op.got = -op.w.code
		e.Assert(!panicked, "mux-panic", "request %d: no handler was called, but it panicked with %v", op.id, val)
		e.Assert(op.got == -404 || op.got == -405, "mux-answer", "request %d: answered %d without calling a handler", op.id, op.w.code)
	} else {
		e.Assert(panicked == (op.panicVal != nil && op.behave >= behPanic), "mux-panic", "request %d: panicked %v with %v instead of %v", op.id, panicked, val, op.panicVal)
		e.Assert(!panicked || val == op.panicVal, "mux-panic", "request %d: panicked with %v instead of %v", op.id, val, op.panicVal)
		if op.behave != behWrite {
			e.Assert(op.w.calls == 0 && len(op.w.hdr) == 0, "mux-wrote", "request %d: the router wrote a response after its handler", op.id)
		} else {
			e.Assert(op.w.code == 201 && (op.w.broken || op.w.body.String() == fmt.Sprint("route ", op.got)), "mux-wrote", "request %d: the response is %d %q", op.id, op.w.code, op.w.body.String())
		}
	}
	op.fin = true
	e.Trace("request %d returns: %d, panicked %v", op.id, op.got, panicked)
}

// answer is what a request has to be answered given the list of routes
func answer(routes []*muxRoute, op *muxOp) (int, []string) {
	code := -404
	for _, r := range routes {
		if p := r.rx.FindStringSubmatch(op.path); p != nil {
			if code = -405; r.method == op.method {
				return r.id, p
			}
		}
	}
	return code, nil
}

// explain searches an order of the operations
func (m *muxRun) explain() bool {
	var reqs, regs []*muxOp
	for _, op := range m.ops {
		switch {
		case !op.began || op.route != nil && op.route.bad:
		case op.route != nil:
			regs = append(regs, op)
		default:
			reqs = append(reqs, op)
		}
	}
	doneReq, doneReg := make([]bool, len(reqs)), make([]bool, len(regs))
	budget := 200000
	var search func(list []*muxRoute) bool
	search = func(list []*muxRoute) bool {
		if budget--; budget < 0 {
			m.e.Probe("order search gave up")
			return true
		}
		var undo []int
		var first int
		for again := true; again; {
			again = false
			first = int(^uint(0) >> 1)
			for i, op := range reqs {
				if !doneReq[i] {
					first = min(first, op.end)
				}
			}
			for i, op := range regs {
				if !doneReg[i] {
					first = min(first, op.end)
				}
			}
			for i, op := range reqs {
				if doneReq[i] || op.start > first {
					continue
				}
				if got, parts := answer(list, op); got == op.got && (got < 0 || fmt.Sprintf("%q", parts) == fmt.Sprintf("%q", op.parts)) {
					doneReq[i] = true
					undo = append(undo, i)
					again = true
				}
			}
		}
		left := false
		for _, d := range doneReq {
			left = left || !d
		}
		for i, op := range regs {
			if !doneReg[i] && op.start <= first {
				doneReg[i] = true
				if search(append(list[:len(list):len(list)], op.route)) {
					return true
				}
				doneReg[i] = false
			}
		}
		if !left {
			return true // the registrations that remain can follow in any order that respects their times
		}
		for _, i := range undo {
			doneReq[i] = false
		}
		return false
	}
	return search(nil)
}

func (m *muxRun) history() string {
	var sb strings.Builder
	for _, op := range m.ops {
		if !op.began {
			continue
		}
		if op.route != nil {
			fmt.Fprintf(&sb, "[%d,%d] registers %d: %s %q (rejected: %v)\n", op.start, op.end, op.id, op.route.method, op.route.pattern, op.route.bad)
		} else {
			fmt.Fprintf(&sb, "[%d,%d] %s %q is answered by %d %q\n", op.start, op.end, op.method, op.path, op.got, op.parts)
		}
	}
	return sb.String()
}

func runMux(e *E, stalls bool) {
	e.Faults = e.Draw(4) > 0 || stalls
	m := &muxRun{e: e, sm: &rest.ServeMux{}, stalls: stalls}
	most, length := 4, 4
	if e.OneIn(40) { // a long history
		m.many = 1 + e.Draw(100)
		most, length = 1+e.Draw(150), 1+e.Draw(30)
		if e.OneIn(20) {
			e.Probe("hundreds of routes")
			m.wide, m.many, most = true, 1+e.Draw(3000), 300+e.Draw(2500)
		}
	}
	if e.Bool() {
		for n := e.Range(1, most); n > 0; n-- { // known before any thread starts
			op := &muxOp{id: len(m.ops), route: m.newRoute()}
			op.route.id = op.id
			m.ops = append(m.ops, op)
			m.do(op)
		}
	}
	threads := make([][]*muxOp, e.Range(2, 4))
	for i := range threads {
		for n := e.Range(1, length); n > 0; n-- {
			threads[i] = append(threads[i], m.newOp(2))
		}
	}
	if stalls && e.OneIn(500) { // a crowd of requests that all stall at once
		crowd := e.Range(10, 80)
		if e.OneIn(8) {
			crowd = e.Range(200, 1100)
		}
		for ; crowd > 0; crowd-- {
			op := &muxOp{id: len(m.ops), method: muxMethod(e), path: m.path(), behave: behStall}
			m.ops = append(m.ops, op)
			threads = append(threads, []*muxOp{op})
		}
	}
	if stalls && e.OneIn(500) { // handlers that make requests, to a great depth
		op := m.newOp(2)
		for n := e.Range(10, 300); n > 0; n-- {
			up := &muxOp{id: len(m.ops), method: muxMethod(e), path: m.path(), behave: behNested, nested: []*muxOp{op}}
			m.ops = append(m.ops, up)
			op = up
		}
		threads[0] = append(threads[0], op)
	}
	nprobe := 0
	var probes []*muxOp
	for _, meth := range muxMethods[:1+e.Draw(3)] {
		for _, p := range muxPaths {
			if e.OneIn(3) {
				op := &muxOp{id: len(m.ops), method: meth, path: p}
				m.ops = append(m.ops, op)
				probes = append(probes, op)
				nprobe++
			}
		}
	}
	for n := min(m.many, 20); n > 0; n-- {
		op := &muxOp{id: len(m.ops), method: muxMethod(e), path: m.path()}
		m.ops = append(m.ops, op)
		probes = append(probes, op)
		nprobe++
	}
	for i, ops := range threads {
		e.Go(fmt.Sprint("client", i), func() {
			for _, op := range ops {
				m.do(op)
			}
		})
	}
	if stalls {
		vsim.Sleep(10000 * time.Hour) // everything that can end has ended
		for i, ops := range threads {
			for _, op := range ops {
				if m.finished(op) {
					continue
				}
				// the thread's current operation: it has to be in a stalled handler
				e.Assert(m.inStall(op), "mux-blocked", "operation %d of client %d does not end while another request stalls", op.id, i)
				break
			}
		}
		m.open()
		vsim.Wake(m)
	}
	e.Join()
	for _, op := range probes {
		m.do(op)
	}
	concurrent := false
	var prev *muxOp
	for _, ev := range vsim.Recs() {
		if ev.Kind == evCall {
			op := m.ops[ev.A]
			if prev != nil && op.start < prev.end && (op.route == nil) != (prev.route == nil) {
				concurrent = true
			}
			prev = op
		}
	}
	if concurrent {
		e.NonTrivial()
	}
	e.Assert(m.explain(), "mux-order", "no order of the registrations explains the answers\n%s", m.history())
	e.State(m.history())
}

// The observer looks at threads that run, without becoming part of their synchronisation

//go:norace
func (m *muxRun) opened() bool { return m.gate }

//go:norace
func (m *muxRun) open() { m.gate = true }

//go:norace
func (m *muxRun) finished(op *muxOp) bool { return op.fin }

// inStall tells whether an operation that has not ended is itself stalled in a handler
//
//go:norace
func (m *muxRun) inStall(op *muxOp) bool {
	if op.fin || !op.began {
		return false
	}
	if op.handlers == 0 {
		return op.behave == behStall && op.w != nil && op.w.calls > 0
	}
	if op.behave == behStall {
		return true
	}
	for _, n := range op.nested {
		if m.inStall(n) {
			return true
		}
	}
	return false
}

func init() {
	real := []string{"rest.ServeMux", "funcs.SliceAdd", "sync locks of the library (scheduled by the simulator)"}
	stub := []string{"HTTP server and client (requests are handed to the router directly)", "response writer", "handlers (slow, stalled, panicking, reentrant)", "thread scheduler (seeded)", "clock"}
	register(&Check{
		ID: "C04", Race: true, Quick: 80000, Thorough: 2000000,
		Rule: "a run = 2-4 client threads with random registrations (some to be rejected) and requests over a pool of overlapping patterns, then probing requests; an order of the registrations that explains all answers is searched; non-trivial = a request overlapped a registration; distinct = by history",
		Real: real, Stub: stub,
		Run: func(e *E) { runMux(e, false) },
	})
	register(&Check{
		ID: "C05", Race: true, Quick: 80000, Thorough: 2000000,
		Rule: "as C04, with handlers, and clients taking their answer, that stall until everything else has ended, sleep for hours, panic, or register and request themselves; non-trivial = a request overlapped a registration; distinct = by history",
		Real: real, Stub: stub,
		Run: func(e *E) { runMux(e, true) },
	})
}
