package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"

	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/iter"

	"verif.local/sim/vsim"
)

// C20: random trees of nested try blocks, executed for real and interpreted by a model

type tryNode struct {
	id      int
	body    []*tryStep
	closers [][]*tryStep
	handler []*tryStep
}

type tryStep struct {
	id   int
	kind int
	sub  *tryNode
	val  any
	want string // how the panic value is to be recognised
}

const (
	tryLog = iota
	tryNest
	tryPanic
	tryExit
	tryNil   // a run time error
	tryYield // let others run
)

type tryErr struct{ n int }

// the errors that the language itself raises
var tryRuntime = []struct {
	msg string
	f   func(n int)
}{
	{"assignment to entry in nil map", func(n int) { var m map[int]int; m[n] = 1 }},
	{"index out of range", func(n int) { s := make([]int, n); s[n] = 1 }},
	{"slice bounds out of range", func(n int) { s := make([]int, n); _ = s[:n+1] }},
	{"nil pointer dereference", func(n int) { var p *tryErr; p.n = n }},
	{"integer divide by zero", func(n int) { d := n - n; _ = n / d }},
	{"interface conversion", func(n int) { var v any = n; _ = v.(string) }},
	{"makeslice: len out of range", func(n int) { _ = make([]int, -n-1)[0] }},
	{"close of nil channel", func(n int) { var c chan int; close(c) }},
	{"comparing uncomparable type", func(n int) { var a, b any = []int{n}, []int{n}; _ = a == b }},
}

func (t *tryErr) Error() string { return "" }

type tryGen struct {
	e    *E
	next int
	left int
}

func (g *tryGen) steps(depth int, exit, panics bool) (out []*tryStep) {
	e := g.e
	for n := e.Draw(3); n > 0 && g.left > 0; n-- {
		g.left--
		g.next++
		s := &tryStep{id: g.next}
		out = append(out, s)
		switch k := e.Draw(7); {
		case k == 0:
			s.kind = tryYield
		case k <= 2 && depth > 0:
			s.kind, s.sub = tryNest, g.node(depth-1, exit)
		case k <= 4 && panics:
			s.kind = tryPanic
			switch e.Draw(13) {
			case 12: // zero values, and errors without a text
				s.val = []any{"", 0, false, 0.0, struct{}{}, errors.New(""), [0]int{}, int8(0), tryErr{}, (*int)(nil), (func())(nil), map[int]int(nil), []int{}}[e.Draw(13)]
			case 7:
				s.val = []error{io.EOF, iter.EOI, io.ErrUnexpectedEOF, context.Canceled}[e.Draw(4)]
			case 8:
				s.val = fmt.Errorf("wrapped %d: %w", s.id, []error{io.EOF, iter.EOI, &tryErr{s.id}}[e.Draw(3)])
			case 9:
				s.val = []int{s.id} // cannot be compared
			case 10:
				s.val = func() int { return s.id }
			case 11:
				s.val = &s.id
			case 0:
				s.val = fmt.Sprint("text", s.id)
			case 1:
				s.val = s.id
			case 2:
				s.val = errors.New("an error")
			case 3:
				s.val = &tryErr{s.id}
			case 4:
				s.val = (*tryErr)(nil) // an interface that is not nil
			case 5:
				s.val = struct{ a, b int }{s.id, 1}
			case 6:
				s.kind, s.val = tryNil, e.Draw(len(tryRuntime))
			}
		case k == 5 && exit && e.Bool():
			s.kind = tryExit
		}
	}
	return
}

func (g *tryGen) node(depth int, exit bool) *tryNode {
	g.next++
	n := &tryNode{id: g.next}
	n.body = g.steps(depth, exit, true)
	nc := g.e.Draw(4)
	if g.e.OneIn(100) {
		nc = g.e.Draw(40)
		if g.e.OneIn(25) {
			nc, depth = 100+g.e.Draw(1500), 1
		}
	}
	for k := nc; k > 0; k-- {
		n.closers = append(n.closers, g.steps(depth-1, false, g.e.OneIn(3)))
	}
	n.handler = g.steps(depth-1, false, g.e.OneIn(4))
	return n
}

// outcome of a part of a tree: a panic in flight and a thread that is being terminated
type tryOut struct {
	panicked bool
	val      any // a *tryStep stands for the run time error that it causes
	exit     bool
}

// ---- the model

type tryModel struct{ log []string }

func (m *tryModel) steps(ss []*tryStep) (o tryOut) {
	for _, s := range ss {
		switch s.kind {
		case tryLog, tryYield:
			m.log = append(m.log, fmt.Sprint("step ", s.id))
		case tryNest:
			if o = m.node(s.sub); o.panicked || o.exit {
				return
			}
		case tryPanic:
			m.log = append(m.log, fmt.Sprint("panic ", s.id))
			return tryOut{panicked: true, val: s.val}
		case tryNil:
			m.log = append(m.log, fmt.Sprint("panic ", s.id))
			return tryOut{panicked: true, val: s}
		case tryExit:
			m.log = append(m.log, fmt.Sprint("exit ", s.id))
			return tryOut{exit: true}
		}
	}
	return
}

func (m *tryModel) node(n *tryNode) (o tryOut) {
	o = m.steps(n.body)
	for i := len(n.closers) - 1; i >= 0; i-- {
		m.log = append(m.log, fmt.Sprintf("closer %d of %d", i, n.id))
		if c := m.steps(n.closers[i]); c.panicked {
			o.panicked, o.val = true, c.val
		}
	}
	if o.panicked {
		m.log = append(m.log, fmt.Sprintf("handler of %d: %s", n.id, tryVal(o.val)))
		h := m.steps(n.handler)
		o.panicked, o.val = h.panicked, h.val
	}
	return
}

func tryVal(v any) string {
	switch x := v.(type) {
	case *tryStep:
		return "run time error: " + tryRuntime[x.val.(int)].msg
	case runtime.Error:
		for _, r := range tryRuntime {
			if strings.Contains(x.Error(), r.msg) {
				return "run time error: " + r.msg
			}
		}
		return "another run time error: " + x.Error()
	case func() int:
		return fmt.Sprint("function ", x())
	case *int:
		if x == nil {
			return "nil pointer"
		}
		return fmt.Sprint("address of ", *x)
	case *tryErr:
		if x == nil {
			return "nil error pointer"
		}
		return fmt.Sprint("error pointer ", x.n)
	}
	return fmt.Sprintf("%T %v", v, v)
}

// ---- the real execution

type tryReal struct {
	e   *E
	log []string
}

func (r *tryReal) add(s string) {
	r.e.Trace("%s", s)
	r.log = append(r.log, s)
}

func (r *tryReal) steps(ss []*tryStep) {
	for _, s := range ss {
		switch s.kind {
		case tryLog:
			r.add(fmt.Sprint("step ", s.id))
		case tryYield:
			r.add(fmt.Sprint("step ", s.id))
			vsim.Gosched()
		case tryNest:
			r.node(s.sub)
		case tryPanic:
			r.add(fmt.Sprint("panic ", s.id))
			r.e.Fault("panic")
			panic(s.val)
		case tryNil:
			r.add(fmt.Sprint("panic ", s.id))
			r.e.Fault("run time error")
			tryRuntime[s.val.(int)].f(s.id)
		case tryExit:
			r.add(fmt.Sprint("exit ", s.id))
			r.e.Fault("thread terminated")
			runtime.Goexit()
		}
	}
}

func (r *tryReal) node(n *tryNode) {
	var closers []func()
	for i, ss := range n.closers {
		c := func() {
			r.add(fmt.Sprintf("closer %d of %d", i, n.id))
			r.steps(ss)
		}
		if i%2 == 1 {
			c = funcs.IgnoreResult(func() error {
				r.add(fmt.Sprintf("closer %d of %d", i, n.id))
				r.steps(ss)
				return errors.New("ignored")
			})
		}
		closers = append(closers, c)
	}
	funcs.TryTo(func() { r.steps(n.body) }, func(v any) {
		if _, ok := v.(failed); ok {
			panic(v)
		}
		r.add(fmt.Sprintf("handler of %d: %s", n.id, tryVal(v)))
		r.steps(n.handler)
	}, closers...)
}

func init() {
	register(&Check{
		ID: "C20", Quick: 600000, Thorough: 15000000,
		Rule:   "a run = 1-3 threads, each executing a random tree of nested try blocks whose bodies, closers and handlers panic with various values or terminate the thread, compared with an interpretation of the tree; and Must helpers with random errors; non-trivial = a panic or termination happened; distinct = by history",
		Real:   []string{"funcs.TryTo", "funcs.IgnoreResult", "funcs.Must, MustValue, MustValue2, MustValue3", "Must forms of conv, math, json, parse, write, rest, reflect"},
		Stub:   []string{"bodies, closers and handlers (generated)", "thread scheduler (seeded)"},
		Assume: []string{"the panic that reaches the handler after several is the last one raised, as in the language; closers and handlers do not terminate the thread; nobody panics with nil"},
		Run: func(e *E) {
			for n := e.Range(1, 3); n > 0; n-- {
				g := &tryGen{e: e, left: 14}
				tree := g.node(3, true)
				m := &tryModel{}
				want := m.node(tree)
				var last string
				switch {
				case want.exit && want.panicked:
					last = "panics while terminated: " + tryVal(want.val)
				case want.exit:
					last = "terminated"
				case want.panicked:
					last = "panics: " + tryVal(want.val)
				default:
					last = "returns"
				}
				if want.exit || strings.Contains(fmt.Sprint(m.log), "panic") {
					e.NonTrivial()
				}
				e.State(m.log, last)
				e.Go(fmt.Sprint("thread", n), func() {
					r := &tryReal{e: e}
					returned := false
					defer func() {
						got := "terminated"
						v := recover()
						if _, ok := v.(failed); ok {
							panic(v)
						}
						switch {
						case v != nil && want.exit && want.panicked:
							got = "panics while terminated: " + tryVal(v)
						case v != nil:
							got = "panics: " + tryVal(v)
						case returned:
							got = "returns"
						}
						r.add(got)
						w, g := append(m.log, last), r.log
						for i := range w {
							e.Assert(i < len(g), "try-missing", "after %q: nothing instead of %q\n%s", w[:i], w[i], strings.Join(g, "\n"))
							e.Assert(w[i] == g[i], "try-order", "after %q: %q instead of %q", w[:i], g[i], w[i])
						}
						e.Assert(len(g) == len(w), "try-extra", "after %q: %q", w, g[len(w):])
					}()
					r.node(tree)
					returned = true
				})
			}
			e.Join()

			// Must forms of the library's operations
			checkMust(e)

			// Must helpers
			var err error
			switch e.Draw(4) {
			case 1:
				err = errors.New("must fail")
			case 2:
				err = (*tryErr)(nil)
			case 3:
				err = fmt.Errorf("wrapped: %w", &tryErr{1})
			}
			a, b, c := e.Draw(5), fmt.Sprint("b", e.Draw(5)), &tryErr{7}
			var ga int
			var gb string
			var gc *tryErr
			which := e.Draw(4)
			val, panicked := Catch(func() {
				switch which {
				case 0:
					funcs.Must(err)
					ga, gb, gc = a, b, c
				case 1:
					ga = funcs.MustValue(a, err)
					gb, gc = b, c
				case 2:
					ga, gb = funcs.MustValue2(a, b, err)
					gc = c
				case 3:
					ga, gb, gc = funcs.MustValue3(a, b, c, err)
				}
			})
			e.Assert(panicked == (err != nil), "must", "helper %d panicked %v with the error %T", which, panicked, err)
			if panicked {
				e.Assert(val == any(err), "must", "helper %d panicked with %v instead of its error", which, val)
			} else {
				e.Assert(ga == a && gb == b && gc == c, "must", "helper %d returned other values", which)
			}
		},
	})
}
