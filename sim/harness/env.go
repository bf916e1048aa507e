// Package harness holds the simulated workloads and oracles, one check per property.
package harness

import (
	"fmt"
	"runtime/debug"
	"strings"
	"sync"

	"verif.local/sim/vsim"
)

// Check is the simulation of one property
type Check struct {
	ID   string
	Race bool // build with the race detector as an additional oracle
	// Quick and Thorough are the numbers of simulated runs
	Quick, Thorough int
	Budget          int64 // steps per run
	// Pool and PoolThorough are the numbers of uses whose results the driver has to find out in new processes first
	Pool, PoolThorough int
	// Fresh is the number of runs in one process, 0 for as many as there are: state that the process keeps is new that often
	Fresh      int
	Rule       string
	Real, Stub []string // components that ran for real and as stubs
	Assume     []string
	Several    bool // runs may be doubled
	Run        func(e *E)
}

// Checks is the registry
var Checks = map[string]*Check{}

func register(c *Check) {
	if c.Several {
		c.Run = several(c.Run)
		c.Rule += "; in one run of 24 two of these happen at once, in threads of their own"
	}
	Checks[c.ID] = c
}

// several makes a run, rarely, two independent ones in threads of their own: neither may notice the other
func several(run func(*E)) func(*E) {
	return func(e *E) {
		if !e.OneIn(24) {
			run(e)
			return
		}
		e.Probe("two at once")
		for i := 0; i < 2; i++ {
			e.Go(fmt.Sprint("use", i), func() { run(e) })
		}
		e.Join()
	}
}

// E is the environment of one run
type E struct {
	Faults bool // faults are enabled in this run
	viol   *Violation
	hash   uint64
	wg     sync.WaitGroup
}

// Violation of a property
type Violation struct {
	Class, Msg string
}

type failed struct{}

// Fail reports a violation and ends the run
func (e *E) Fail(class, format string, args ...any) {
	e.record(class, fmt.Sprintf(format, args...))
	panic(failed{})
}

func (e *E) record(class, msg string) {
	if e.viol == nil {
		if len(msg) > 4000 {
			msg = msg[:4000] + "..."
		}
		e.viol = &Violation{class, msg}
		vsim.Trace("VIOLATION %s: %s", class, msg)
	}
	vsim.Abort()
}

// Assert counts an evaluation of the oracle and fails if cond is false
func (e *E) Assert(cond bool, class, format string, args ...any) {
	vsim.Eval()
	if !cond {
		e.Fail(class, format, args...)
	}
}

// Draw is a choice in [0,n)
func (e *E) Draw(n int) int { return vsim.Draw(n) }

// Range is a choice in [lo,hi], lo is the simplest
func (e *E) Range(lo, hi int) int { return lo + vsim.Draw(hi-lo+1) }

// Bool is a choice, false is the simplest
func (e *E) Bool() bool { return vsim.Draw(2) == 1 }

// OneIn is true with probability 1/n, false is the simplest
func (e *E) OneIn(n int) bool { return n <= 1 || vsim.Draw(n) == 1 }

// Fault counts an injected fault that took effect
func (e *E) Fault(kind string) { vsim.Count("fault", kind) }

// Probe counts a rare condition that was reached
func (e *E) Probe(name string) { vsim.Count("probe", name) }

// NonTrivial marks the run
func (e *E) NonTrivial() { vsim.MarkNonTrivial() }

// State hashes what the run was about: inputs, configuration and outcome
func (e *E) State(args ...any) {
	for _, a := range args {
		s := fmt.Sprint(a)
		h := e.hash ^ 14695981039346656037
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		e.hash = vsim.Mix64(h)
	}
}

// Trace records an event
func (e *E) Trace(format string, args ...any) { vsim.Trace(format, args...) }

// Go starts a simulated thread
func (e *E) Go(name string, fn func()) {
	e.wg.Add(1)
	vsim.Go(name, func() {
		defer e.wg.Done()
		defer e.guard(name)
		fn()
	})
}

// Join waits for all threads started with Go
func (e *E) Join() { e.wg.Wait() }

func (e *E) guard(name string) {
	switch r := recover(); r.(type) {
	case nil:
	case failed:
	case vsim.Overran:
		e.record("no-progress", "the step budget of the run was exhausted")
	default:
		e.record("panic", fmt.Sprintf("%s: unexpected panic: %v\n%s", name, r, trimStack(debug.Stack())))
	}
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "\t") {
			if i := strings.LastIndex(l, " +0x"); i > 0 {
				l = l[:i]
			}
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 14 {
		out = out[:14]
	}
	return strings.Join(out, "\n")
}

// Catch runs fn and returns its panic value, if any; failures of the harness itself pass through
func Catch(fn func()) (val any, panicked bool) {
	done := false
	defer func() {
		if done {
			return
		}
		val = recover()
		switch val.(type) {
		case failed, vsim.Overran:
			panic(val)
		}
		panicked = true
	}()
	fn()
	done = true
	return
}
