package harness

import (
	"errors"
	"fmt"
	"runtime"
	"time"

	"github.com/bantling/micro/funcs"

	"verif.local/sim/vsim"
)

// C21: cached suppliers shared by threads

type supVal struct{ n int }

func runSupplier[T comparable](e *E, val func(n int) T) {
	const (
		evBegin = 200 + iota
		evDone
		evFail
		evAsk
		evGot
		evPanic
	)
	attempts := []int{}
	tries := 6
	if e.OneIn(30) {
		tries = 6 + e.Draw(30)
	}
	for i := 0; i < tries; i++ {
		attempts = append(attempts, e.Draw(8))
	}
	if tries > 6 && e.Bool() { // nearly all of them fail
		for i := 1 + e.Draw(3); i < tries; i++ {
			attempts[tries-1-i] = 4 + e.Draw(3)
		}
	}
	fails := make([]error, len(attempts))
	for i := range fails {
		fails[i] = fmt.Errorf("attempt %d failed", i)
	}
	type result struct {
		v   T
		pan any
		how int // 0 nothing, 1 returned, 2 panicked, 3 terminated
	}
	vals := make([]T, 100)
	for i := range vals {
		vals[i] = val(i)
	}
	get := funcs.SupplierCached(func() T {
		n := vsim.Rec(evBegin, 0, 0, "")
		k := 0
		for _, ev := range vsim.Recs() {
			if ev.Kind == evBegin && ev.Seq < n {
				k++
			}
		}
		e.Trace("supplier run %d", k)
		for _, ev := range vsim.Recs() {
			if ev.Kind == evBegin && ev.Seq < n {
				over := false
				for _, x := range vsim.Recs() {
					if (x.Kind == evDone || x.Kind == evFail) && int(x.A) == ev.Seq {
						over = true
					}
				}
				e.Assert(over, "supplier-overlap", "the supplier is run by two threads at a time")
			}
		}
		vsim.Y(0)
		how := 0
		if k < len(attempts) {
			how = attempts[k]
		}
		switch how {
		case 1, 2:
			e.Fault("slow supplier")
			vsim.Sleep(time.Duration(how) * time.Hour)
		case 3:
			for i := 0; i < 5; i++ {
				vsim.Y(0)
			}
		case 4, 5:
			if how == 5 {
				vsim.Sleep(time.Minute)
			}
			e.Fault("supplier panics")
			vsim.Rec(evFail, int64(n), int64(k), "")
			panic(fails[k])
		case 6:
			e.Fault("supplier thread terminated")
			vsim.Rec(evFail, int64(n), int64(k), "")
			runtime.Goexit()
		}
		vsim.Y(0)
		vsim.Rec(evDone, int64(n), int64(k), "")
		return vals[min(k, 99)]
	})
	nt := e.Range(1, 5)
	if e.OneIn(30) {
		nt = 6 + e.Draw(30)
	}
	out := make([][]result, nt)
	plan := make([][]int, nt)
	for i := range plan {
		most := 3
		if e.OneIn(60) {
			most = 20
		}
		for n := e.Range(1, most); n > 0; n-- {
			plan[i] = append(plan[i], e.Draw(4))
		}
	}
	for i := range plan {
		e.Go(fmt.Sprint("caller", i), func() {
			for j, wait := range plan[i] {
				if wait == 3 {
					vsim.Sleep(time.Duration(i*30+j) * time.Minute)
				}
				r := &result{}
				func() {
					defer func() {
						if r.how == 0 {
							r.how = 3
						}
						out[i] = append(out[i], *r)
					}()
					vsim.Rec(evAsk, int64(i), int64(j), "")
					p, panicked := Catch(func() { r.v = get() })
					if panicked {
						r.how, r.pan = 2, p
						vsim.Rec(evPanic, int64(i), int64(j), "")
						e.Trace("caller %d sees %v", i, p)
						return
					}
					r.how = 1
					vsim.Rec(evGot, int64(i), int64(j), "")
					e.Trace("caller %d gets a value", i)
				}()
			}
		})
	}
	e.Join()
	// the history
	completed, done := -1, 0
	var doneAt int
	failed := map[error]bool{}
	ended := false         // a run ended with its thread, which nobody can see the panic of
	owner := map[int]int{} // supplier run: its task
	for _, ev := range vsim.Recs() {
		switch ev.Kind {
		case evBegin:
			e.Assert(done == 0, "supplier-again", "the supplier is run again after it has completed")
			owner[ev.Seq] = ev.Task
		case evDone:
			done++
			completed = int(ev.B)
			doneAt = ev.Seq
		case evFail:
			failed[fails[ev.B]] = true
			ended = ended || attempts[ev.B] == 6
		}
	}
	e.Assert(done <= 1, "supplier-twice", "the supplier completed %d times", done)
	asked := map[[2]int]int{}
	for _, ev := range vsim.Recs() {
		if ev.Kind == evAsk {
			asked[[2]int{int(ev.A), int(ev.B)}] = ev.Seq
		}
	}
	for i, rs := range out {
		for j, r := range rs {
			switch r.how {
			case 1:
				e.Assert(done == 1, "supplier-made-up", "caller %d got a value, but the supplier never completed", i)
				e.Assert(r.v == vals[min(completed, 99)], "supplier-value", "caller %d got another value than the one that was supplied", i)
			case 2:
				err, _ := r.pan.(error)
				e.Assert(ended || err != nil && failed[err], "supplier-panic", "caller %d sees the panic %v, which no supplier run raised", i, r.pan)
				e.Assert(done == 0 || asked[[2]int{i, j}] < doneAt, "supplier-late-panic", "caller %d sees %v although the value was there before it asked", i, err)
			}
		}
	}
	// a caller whose own run failed is told so
	own := map[int]error{}
	for _, ev := range vsim.Recs() {
		switch ev.Kind {
		case evFail:
			if attempts[ev.B] != 6 {
				own[ev.Task] = fails[ev.B]
			}
		case evGot:
			e.Assert(own[ev.Task] == nil, "supplier-swallowed", "caller %d: the supplier panicked with %v, but the call returned", ev.A, own[ev.Task])
		case evPanic:
			if err := own[ev.Task]; err != nil {
				for k, r := range out[ev.A] {
					if k == int(ev.B) {
						e.Assert(r.pan == any(err), "supplier-panic", "caller %d sees %v instead of %v", ev.A, r.pan, err)
					}
				}
			}
			delete(own, ev.Task)
		}
	}
	if done == 1 && e.OneIn(25) { // it never changes its mind, however often it is asked
		n := 10 + e.Draw(600)
		if e.OneIn(25) {
			n = 66000
		}
		supplierRuns := func() (n int) {
			for _, ev := range vsim.Recs() {
				n += b2i(ev.Kind == evBegin)
			}
			return
		}
		runs := supplierRuns()
		for i := 0; i < n; i++ {
			e.Assert(get() == vals[min(completed, 99)], "supplier-value", "call %d after the value was supplied gets another one", i)
		}
		e.Assert(supplierRuns() == runs, "supplier-again", "the supplier is run again after it has completed, in one of %d calls", n)
	}
	if nt > 1 {
		e.NonTrivial()
	}
	e.State(attempts, plan, completed, len(failed))
}

func init() {
	register(&Check{
		ID: "C21", Race: true, Quick: 120000, Thorough: 3000000,
		Rule:   "a run = 1-5 threads calling one cached supplier 1-3 times each at random times, with supplier runs that are slow, panic or terminate their thread; non-trivial = several threads; distinct = by plan and outcome",
		Real:   []string{"funcs.SupplierCached", "sync locks of the library (scheduled by the simulator)"},
		Stub:   []string{"supplier (slow, panicking, terminating)", "thread scheduler (seeded)", "clock"},
		Assume: []string{"a supplier does not call its own cached form"},
		Run: func(e *E) {
			switch e.Draw(4) {
			case 0:
				runSupplier(e, func(n int) int { return n })
			case 1:
				runSupplier(e, func(n int) *supVal {
					if n%2 == 0 {
						return nil
					}
					return &supVal{n}
				})
			case 2:
				runSupplier(e, func(n int) error { // an interface
					if n%2 == 0 {
						return nil
					}
					return errors.New("a value")
				})
			default:
				runSupplier(e, func(n int) struct {
					s string
					n int
				} {
					return struct {
						s string
						n int
					}{fmt.Sprint(n), n}
				})
			}
		},
	})
}
