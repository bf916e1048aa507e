package harness

import (
	"fmt"
	"slices"
	"time"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/event"

	"verif.local/sim/vsim"
)

// C19: a registry whose receivers change it while events are delivered, against a mirrored model

type evReg[K constraint.Ordered] struct {
	id K
	r  *evRcvr[K]
	fn bool // registered as a func, so it cannot be removed by itself
}

// evFrame is a send in progress
type evFrame[K constraint.Ordered] struct {
	want []evReg[K]
	pos  int
	val  []int
}

type evWorld[K constraint.Ordered] struct {
	e      *E
	reg    event.Registry[K, []int]
	ids    []K
	model  []evReg[K] // ordered
	rcvrs  []*evRcvr[K]
	frames []*evFrame[K]
	left   int  // actions that may still happen, so that every run ends
	deep   int  // sends that may be nested
	nest   bool // receivers mostly send
}

type evRcvr[K constraint.Ordered] struct {
	w *evWorld[K]
	n int
}

type evPanic struct{ n int }

func (w *evWorld[K]) register(id K, r *evRcvr[K], fn bool) {
	w.e.Trace("register receiver %d at %v (as func: %v)", r.n, id, fn)
	if fn {
		w.reg.Register(id, event.ReceiverFunc[[]int](r.Process))
	} else {
		w.reg.Register(id, r)
	}
	i := 0
	for i < len(w.model) && w.model[i].id <= id {
		i++
	}
	w.model = append(w.model[:i:i], append([]evReg[K]{{id, r, fn}}, w.model[i:]...)...)
}

func (w *evWorld[K]) removeID(id K) {
	w.e.Trace("remove all of %v", id)
	w.reg.RemoveId(id)
	var m []evReg[K]
	for _, x := range w.model {
		if x.id != id {
			m = append(m, x)
		}
	}
	w.model = m
}

func (w *evWorld[K]) remove(id K, r *evRcvr[K], how int) {
	w.e.Trace("remove receiver %d from %v, mode %d", r.n, id, how)
	all := false
	switch how {
	case 0:
		w.reg.Remove(id, r)
	case 1:
		w.reg.Remove(id, r, false)
	default:
		w.reg.Remove(id, r, true)
		all = true
	}
	var m []evReg[K]
	gone := false
	for _, x := range w.model {
		if x.id == id && x.r == r && !x.fn && (all || !gone) {
			gone = true
			continue
		}
		m = append(m, x)
	}
	w.model = m
}

func (w *evWorld[K]) change() {
	e := w.e
	id, r := w.ids[e.Draw(len(w.ids))], w.rcvrs[e.Draw(len(w.rcvrs))]
	switch e.Draw(7) {
	case 0, 1, 2, 3:
		w.register(id, r, e.OneIn(6))
	case 4, 5:
		if len(w.model) > 0 && !e.OneIn(4) { // something that is there
			x := w.model[e.Draw(len(w.model))]
			id, r = x.id, x.r
		}
		w.remove(id, r, e.Draw(3))
	default:
		w.removeID(id)
	}
}

func evStep(val []int, n int) []int { return append(append([]int{}, val...), n) }

func (r *evRcvr[K]) Process(val []int) []int {
	w, e := r.w, r.w.e
	e.Assert(len(w.frames) > 0, "event-stray", "receiver %d is called, but no send is in progress", r.n)
	f := w.frames[len(w.frames)-1]
	e.Assert(f.pos < len(f.want), "event-extra", "receiver %d is called after all %d receivers of the send", r.n, len(f.want))
	x := f.want[f.pos]
	e.Assert(x.r.n == r.n, "event-order", "delivery %d goes to receiver %d instead of receiver %d of %v", f.pos, r.n, x.r.n, x.id)
	e.Assert(slices.Equal(val, f.val), "event-value", "delivery %d: receiver %d got %v instead of %v", f.pos, r.n, val, f.val)
	f.pos++
	e.Trace("receiver %d gets %v", r.n, val)
	vsim.Y(0)
	for w.left > 0 && e.OneIn(3) {
		w.left--
		k := e.Draw(6)
		if w.nest && !e.OneIn(20) {
			k = 3
		}
		switch k {
		case 0, 1, 2:
			e.Fault("registry changed during a send")
			w.change()
		case 3:
			if len(w.frames) < w.deep {
				e.Fault("nested send")
				w.send()
			}
		case 4:
			e.Fault("slow receiver")
			vsim.Sleep(time.Minute)
		case 5:
			e.Fault("receiver panics")
			panic(evPanic{r.n})
		}
	}
	f.val = evStep(f.val, r.n)
	return f.val
}

// send begins a send and follows it to its end
func (w *evWorld[K]) send() {
	e := w.e
	f := &evFrame[K]{want: append([]evReg[K]{}, w.model...), val: []int{e.Draw(100)}}
	first := f.val
	w.frames = append(w.frames, f)
	depth := len(w.frames)
	e.Trace("send %d to %d receivers", f.val[0], len(f.want))
	var got []int
	val, panicked := Catch(func() { got = w.reg.Send(first) })
	e.Assert(len(w.frames) == depth && w.frames[depth-1] == f, "event-nesting", "sends are not nested properly")
	w.frames = w.frames[:depth-1]
	if panicked {
		p, ok := val.(evPanic)
		e.Assert(ok, "panic", "unexpected panic: %v", val)
		e.Trace("send of %d panics with %v", first[0], p)
		if depth > 1 && e.Bool() {
			panic(p) // the receiver that sent does not catch it
		}
		return
	}
	e.Assert(f.pos == len(f.want), "event-incomplete", "the send of %d reached %d of %d receivers", first[0], f.pos, len(f.want))
	e.Assert(slices.Equal(got, f.val), "event-result", "the send returned %v instead of %v", got, f.val)
}

func runEvents[K constraint.Ordered](e *E, ids []K) {
	w := &evWorld[K]{e: e, ids: ids, left: 12, deep: 4}
	steps := e.Range(2, 14)
	if e.OneIn(60) { // a long history
		w.left, w.deep = 20+e.Draw(60), 4+e.Draw(12)
		steps = 20 + e.Draw(120)
		if e.OneIn(50) { // sends from inside sends, to a great depth
			w.left, w.deep, w.nest = 100+e.Draw(1200), 20+e.Draw(1200), true
		}
	}
	for n := e.Range(1, 5); n > 0; n-- {
		w.rcvrs = append(w.rcvrs, &evRcvr[K]{w, len(w.rcvrs)})
	}
	sends := 0
	if e.OneIn(40) { // a large registry
		e.Probe("large registry")
		n := e.Range(10, 80)
		if e.OneIn(20) {
			n = 100 + e.Draw(500)
			if e.OneIn(30) {
				n = 600 + e.Draw(4000)
			}
		}
		for ; n > 0; n-- {
			w.register(ids[e.Draw(len(ids))], w.rcvrs[e.Draw(len(w.rcvrs))], e.OneIn(6))
		}
	}
	for n := steps; n > 0; n-- {
		if e.Draw(4) < 3 {
			w.change()
		} else {
			w.send()
			sends++
		}
	}
	w.left = 0
	w.send() // nothing was lost
	w.send()
	if sends > 0 && len(w.model) > 1 {
		e.NonTrivial()
	}
	var s []string
	for _, x := range w.model {
		s = append(s, fmt.Sprint(x.id, "=", x.r.n))
	}
	e.State(s, sends, w.left)
}

func init() {
	register(&Check{
		ID: "C19", Several: true, Quick: 800000, Thorough: 20000000,
		Rule:   "a run = a random history of registrations, removals and sends on one registry (int, string or float ids), with receivers that register, remove, send, sleep or panic during a delivery, compared delivery by delivery with a model; non-trivial = an event was sent to a registry with several receivers; distinct = by final registrations and number of sends",
		Real:   []string{"event.Registry", "funcs.OrderedTuple2Slice*", "funcs.SliceRemoveUncomparable"},
		Stub:   []string{"receivers (reentrant, slow, panicking)", "clock"},
		Assume: []string{"receivers to be removed one by one are pointers, as Registry.Remove identifies them by address"},
		Run: func(e *E) {
			switch e.Draw(4) {
			case 3:
				var ids []uint16
				for n := e.Range(1, 40); n > 0; n-- {
					ids = append(ids, uint16(e.Draw(1<<16)))
				}
				runEvents(e, ids)
			case 0:
				runEvents(e, []int{5, 3, 9, -1, 0, 7}[:e.Range(1, 6)])
			case 1:
				runEvents(e, []string{"m", "b", "", "z", "ba", "B"}[:e.Range(1, 6)])
			default:
				runEvents(e, []float64{0.5, -2, 1e9, 0, 3}[:e.Range(1, 5)])
			}
		},
	})
}
