// Package vsim is the deterministic scheduler.
//
// A run executes inside a testing/synctest bubble, so time is simulated and quiescence is observable. Exactly one
// task executes at a time: every instrumented statement of the code under test is a yield point where the running task
// may be parked, and the root goroutine then picks the next task with a recorded choice. Operations that block natively
// (channels, WaitGroup, Sleep) simply block; mutexes are simulated by vsync on top of Block/Wake.
//
// The package is compiled without race instrumentation and hides its own hand-offs from the race detector, so that in
// a -race build the detector sees only the synchronisation of the code under test and reports its real data races.
package vsim

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"
	"testing/synctest"
	"time"
)

func getg() uintptr
func peek(p uintptr) uint64

var goidOff uintptr

func stackGoid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.ParseUint(string(f[1]), 10, 64)
	return id
}

func init() {
	// Find the offset of the goroutine id in the runtime's g structure by intersecting candidates of several goroutines
	cand := map[uintptr]int{}
	const n = 6
	for i := 0; i < n; i++ {
		done := make(chan struct{})
		go func() {
			defer close(done)
			id, g := stackGoid(), getg()
			for off := uintptr(0); off < 400; off += 8 {
				if peek(g+off) == id {
					cand[off]++
				}
			}
		}()
		<-done
	}
	for off, c := range cand {
		if c == n && (goidOff == 0 || off < goidOff) {
			goidOff = off
		}
	}
	if goidOff == 0 {
		panic("vsim: cannot locate goroutine id")
	}
}

// Goid is the id of the calling goroutine.
func Goid() uint64 { return peek(getg() + goidOff) }

type state uint8

const (
	running state = iota // released, or blocked natively, or finished without saying so
	parked               // waiting to be picked
	blocked              // waiting for Wake
	done
)

// Task is one simulated thread.
type Task struct {
	id     int
	goid   uint64
	name   string
	ch     chan struct{}
	st     state
	on     any
	parent int
	prio   int // under the priority policy; 0 is not drawn yet
}

const (
	maxTasks   = 200000
	maxQuantum = 20000
	// MaxSites bounds the instrumentation sites
	MaxSites = 1 << 16
)

var (
	on       bool
	aborting bool
	tasks    []*Task
	cur      *Task
	live     int // tasks registered or about to be, not known to be finished
	maxLive  int
	pending  int  // goroutines started but not yet seen
	forced   bool // the quantum is only a guard against spinning
	quantum  int  // yields left before the running task is parked
	policy   int
	ranked   bool // the task of the highest priority runs, and priorities drop at drawn moments
	ready    []*Task
	steps    int64
	budget   int64
	overrun  bool
	switches int
	ilHash   uint64
	wake     chan struct{}
	hit      [MaxSites]bool
	lastSite int32

	tracing bool
	trace   []string
	trHash  uint64
	start   time.Time

	mapSeed uint64
)

// Outcome of the scheduling of one run.
type Outcome struct {
	Deadlock bool   // main can never proceed
	Leak     bool   // a task is left blocked forever after main has finished
	Overrun  bool   // the step budget was exhausted
	Detail   string // description of the stuck tasks
	Steps    int64
	Switches int
	Sim      time.Duration
	IL       uint64 // hash of the schedule
	TrHash   uint64 // hash of the recorded history
	Tasks    int
	MaxLive  int
}

// Config of one run.
type Config struct {
	Seed    uint64
	Replay  []uint32
	Tracing bool
	Budget  int64
}

// abortPanic unwinds a task when the run is being torn down
type abortPanic struct{}

// Run executes main as task 0 under the scheduler; it must be called inside a synctest bubble.
// The result may only be Deadlock or Leak if goroutines are stuck: the process is then unusable for further runs.
func Run(cfg Config, main func()) (out Outcome) {
	prng, replay, replayed, choices = Mix64(cfg.Seed), cfg.Replay, cfg.Replay != nil, nil
	aborting, tasks, cur, live, pending, quantum, steps, overrun = false, nil, nil, 0, 0, 0, 0, false
	forced, quiesce = false, nil
	switches, ilHash, maxLive, lastSite = 0, 0, 0, 0
	tracing, trace, trHash = cfg.Tracing, nil, 0
	budget = cfg.Budget
	if budget == 0 {
		budget = 4_000_000
	}
	wake = make(chan struct{}, 1)
	start = time.Now()
	mainDone := false
	k := Draw(7)
	policy, ranked = []int{0, 3, 12, 60, 400, 12, 100}[k], k >= 5
	mapSeed = uint64(Draw(1 << 16))
	evs, evals, nontr = nil, 0, false
	alarms = alarms[:0]
	var idle time.Duration

	on = true
	live, pending = 1, 1
	go func() {
		defer func() {
			mainDone = true
			finish()
		}()
		register("main")
		main()
	}()

	for {
		synctest.Wait()
		if pending > 0 { // started goroutines that ran to their end or blocked without a yield point
			live -= pending
			pending = 0
		}
		ready = ready[:0]
		alive := 0
		for _, t := range tasks {
			if t.st == parked {
				ready = append(ready, t)
			}
			if t.st != done {
				alive++
			}
		}
		if len(ready) > 0 {
			pick(ready)
			continue
		}
		if mainDone && alive == 0 {
			break
		}
		// Nobody can run: let simulated time pass
		select {
		case <-wake:
			continue
		case <-time.After(100000 * time.Hour):
			idle = 100000 * time.Hour
		}
		if !mainDone {
			out.Deadlock = true
			out.Detail = stuck()
		} else {
			for _, t := range tasks {
				if t.st == blocked {
					out.Leak = true
				}
			}
			// natively blocked or finished without notice: synctest itself tells which, when the bubble ends
			if out.Leak {
				out.Detail = stuck()
			}
		}
		break
	}
	on = false
	out.Overrun = overrun
	out.Steps, out.Switches, out.IL, out.TrHash = steps, switches, ilHash, trHash
	out.Sim = time.Since(start) - idle
	out.Tasks, out.MaxLive = len(tasks), maxLive
	return
}

// self is the calling task; no maps here: the runtime reports map accesses to the race detector even from this package
func self() *Task {
	id := Goid()
	if cur != nil && cur.goid == id {
		return cur
	}
	for i := len(tasks) - 1; i >= 0; i-- {
		if tasks[i].goid == id && tasks[i].st != done {
			return tasks[i]
		}
	}
	return nil
}

func stuck() string {
	var sb bytes.Buffer
	for _, t := range tasks {
		if t.st != done {
			what := "blocked in a native operation"
			if t.st == blocked {
				what = fmt.Sprintf("waiting for a lock (%T)", t.on)
			}
			fmt.Fprintf(&sb, "[task %d %s: %s] ", t.id, t.name, what)
		}
	}
	return sb.String()
}

// pick releases one of the runnable tasks
func pick(ready []*Task) {
	if q := quiesce; q != nil && q.st == parked {
		q.st = running
		raceOff()
		q.ch <- struct{}{}
		raceOn()
		return
	}
	// order: the task that ran last comes first, so that choice 0 means: no switch
	for i, t := range ready {
		if t == cur && i > 0 {
			copy(ready[1:i+1], ready[:i])
			ready[0] = t
			break
		}
	}
	k := 0
	if !aborting && ranked && len(ready) > 1 {
		if ready[0] == cur && (quantum == -1 || Draw(8) == 1) {
			cur.prio = -len(choices) - 1 // below all others
		}
		for i, t := range ready {
			if t.prio == 0 {
				t.prio = 1 + Draw(1<<16)
			}
			if t.prio > ready[k].prio {
				k = i
			}
		}
	} else if !aborting {
		if quantum == -1 && len(ready) > 1 { // quantum exhausted by force: somebody else
			k = 1 + Draw(len(ready)-1)
		} else {
			k = Draw(len(ready))
		}
	}
	t := ready[k]
	if t != cur {
		switches++
		ilHash = Mix64(ilHash ^ uint64(t.id)<<32 ^ uint64(uint32(lastSite)))
	}
	cur = t
	newQuantum()
	t.st = running
	raceOff()
	t.ch <- struct{}{}
	raceOn()
}

func newQuantum() {
	quantum, forced = maxQuantum, true
	if policy > 0 && live > 1 && !aborting {
		if q := Draw(policy + 1); q > 0 {
			quantum, forced = q, false
		}
	}
}

func register(name string) *Task {
	id := Goid()
	t := &Task{id: len(tasks), goid: id, name: name, ch: make(chan struct{})}
	if cur != nil {
		t.parent = cur.id
	}
	if len(tasks) >= maxTasks {
		panic("vsim: too many tasks")
	}
	tasks = append(tasks, t)
	if pending > 0 {
		pending--
	} else {
		live++
	}
	if live > maxLive {
		maxLive = live
	}
	park(t)
	return t
}

func notify() {
	select {
	case wake <- struct{}{}:
	default:
	}
}

func park(t *Task) {
	t.st = parked
	wait(t)
}

func wait(t *Task) {
	raceOff()
	notify()
	<-t.ch
	raceOn()
	if aborting && t.id != 0 {
		runtime.Goexit()
	}
}

func finish() {
	if t := self(); t != nil && t.st != done {
		t.st = done
		live--
		raceOff()
		notify()
		raceOn()
	}
}

// ---- called by instrumented code

// Y is a yield point
func Y(site int32) {
	if !on {
		return
	}
	steps++
	hit[site] = true
	if live > 1 || steps > budget {
		yield(site)
	}
}

func yield(site int32) {
	t := self()
	if t == nil {
		register("goroutine@" + strconv.Itoa(int(site)))
		return
	}
	if steps > budget {
		overrun = true
		aborting = true
		if t.id != 0 {
			runtime.Goexit()
		}
		budget = 1 << 62
		panic(Overran{})
	}
	if aborting {
		if t.id != 0 {
			runtime.Goexit()
		}
		return
	}
	if t != cur { // woken by a native operation while another task runs
		park(t)
		return
	}
	lastSite = site
	quantum--
	if quantum <= 0 {
		if live <= 1 {
			newQuantum()
			return
		}
		if forced {
			quantum = -1
		}
		park(t)
	}
}

var alarms []int64 // instants at which sleeping tasks wake

// Sleep is time.Sleep for the harness: no two tasks wake at the same instant, which has no order in a synctest bubble,
// but within a few ns of each other and are then scheduled like any other.
func Sleep(d time.Duration) {
	now := int64(time.Since(start))
	at := now + int64(d)
	for again := true; again; {
		again = false
		k := 0
		for _, a := range alarms {
			if a == at {
				at++
				again = true
			}
			if a >= now {
				alarms[k] = a
				k++
			}
		}
		alarms = alarms[:k]
	}
	alarms = append(alarms, at)
	time.Sleep(time.Duration(at - now))
	Y(0)
}

// Overran is the panic value raised in the main task when the step budget of the run is exhausted
type Overran struct{}

func (Overran) Error() string { return "step budget exhausted" }

// BeforeGo precedes a go statement
func BeforeGo() {
	if on {
		pending++
		live++
		if live > maxLive {
			maxLive = live
		}
	}
}

// AfterGo follows a go statement: the new goroutine has registered or has blocked or finished when it returns
func AfterGo() {
	if on {
		force()
	}
}

// Done is deferred first by a goroutine
func Done() {
	if on {
		finish()
	}
}

// force parks the caller and waits until it is picked again
func force() {
	t := self()
	if t == nil {
		register("goroutine")
		return
	}
	if aborting {
		return
	}
	park(t)
}

// Block parks the caller until Wake(obj); it must re-check its condition afterwards
func Block(obj any) {
	t := self()
	if t == nil {
		t = register("goroutine")
	}
	t.st, t.on = blocked, obj
	wait(t)
}

// Wake makes all tasks blocked on obj runnable
func Wake(obj any) {
	for _, t := range tasks {
		if t.st == blocked && t.on == obj {
			t.st, t.on = parked, nil
		}
	}
	raceOff()
	notify() // the caller may have been woken by the passing of time, without the root knowing
	raceOn()
}

// Active tells whether a run is in progress
func Active() bool { return on }

// Gosched forces a scheduling decision
func Gosched() {
	if on {
		if live > 1 {
			force()
		}
		return
	}
	runtime.Gosched()
}

// ---- called by harnesses

// Go starts a harness task
func Go(name string, fn func()) {
	BeforeGo()
	go func() {
		defer Done()
		register(name)
		fn()
	}()
	AfterGo()
}

// Abort makes every task but main unwind at its next yield point
func Abort() {
	aborting = true
	for _, t := range tasks {
		if t.st == blocked {
			t.st = parked
		}
	}
	raceOff()
	notify()
	raceOn()
}

// Others returns the number of tasks other than the caller that are still alive, once everything is quiescent:
// runnable tasks or tasks waiting for a lock count, goroutines blocked natively count too if they announced themselves.
func Others() int {
	me := self()
	if !on || me == nil {
		return 0
	}
	// quiesce without giving the others a turn: park, and have the root pick us again
	quiesce = me
	park(me)
	quiesce = nil
	n := 0
	for _, o := range tasks {
		if o != me && (o.st == parked || o.st == blocked) {
			n++
		}
	}
	return n
}

var quiesce *Task

// Ev is a recorded event of a run
type Ev struct {
	Seq, Task, Kind int
	A, B            int64
	S               string
	At              time.Duration
}

var evs []Ev

// Rec records an event; safe from any task, and invisible to the race detector
func Rec(kind int, a, b int64, s string) int {
	evs = append(evs, Ev{len(evs), TaskID(), kind, a, b, s, time.Since(start)})
	return len(evs) - 1
}

// Recs returns the events recorded in this run
func Recs() []Ev { return evs }

// TaskID identifies the calling task; goroutines not known yet get -1
func TaskID() int {
	if t := self(); t != nil {
		return t.id
	}
	return -1
}

// MaxLive is the highest number of simultaneously live tasks so far
func MaxLive() int { return maxLive }

// ResetMaxLive restarts the measurement
func ResetMaxLive() { maxLive = live }

// Live is the number of live tasks
func Live() int { return live }

// Started is the number of tasks ever started
func Started() int { return len(tasks) }

// Switches so far
func Switches() int { return switches }

// Steps so far
func Steps() int64 { return steps }

// Now is the simulated time since the start of the run
func Now() time.Duration { return time.Since(start) }

// Trace records an event of the history
func Trace(format string, args ...any) {
	if !on {
		return
	}
	s := text(format, args)
	h := trHash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	trHash = Mix64(h)
	if Sink != 0 {
		sink("E " + stamp(s) + "\n")
	}
	if tracing {
		trace = append(trace, stamp(s))
	}
}

// Tracing tells whether events are kept
func Tracing() bool { return tracing }

// Events is the recorded history
func Events() []string { return trace }

// Choices is the choice sequence of the run
func Choices() []uint32 { return choices }

// Hits returns the sites reached by this process
func Hits() (out []int32) {
	for i, h := range hit {
		if h {
			out = append(out, int32(i))
		}
	}
	return
}

// ---- counters, safe from any task and invisible to the race detector

type counter struct {
	group, name string
	n           int64
}

var counters []counter

// Count counts an occurrence, for the evidence
func Count(group, name string) {
	for i := range counters {
		if counters[i].name == name && counters[i].group == group {
			counters[i].n++
			return
		}
	}
	counters = append(counters, counter{group, name, 1})
}

// Counters returns the counts of a group since the start of the process
func Counters(group string) map[string]int64 {
	out := map[string]int64{}
	for _, c := range counters {
		if c.group == group {
			out[c.name] = c.n
		}
	}
	return out
}

var (
	evals int64
	nontr bool
)

// Eval counts an evaluation of an oracle
func Eval() { evals++ }

// Evals of this run
func Evals() int64 { return evals }

// MarkNonTrivial marks the run
func MarkNonTrivial() { nontr = true }

// NonTrivial tells whether the run is marked
func NonTrivial() bool { return nontr }
