package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"verif.local/sim/vos"
	"verif.local/sim/vsim"
)

// Result is what a worker process reports
type Result struct {
	Runs, Nontrivial, Evals, Steps, Switches int64
	SimNS                                    float64
	MaxTasks                                 int
	MaxSteps                                 int64
	IL, State                                []uint64
	Hashes                                   map[string][2]uint64 // of the first runs, for the determinism check
	Faults, Probes                           map[string]int64
	Sites                                    []int32
	Viol                                     *FoundViolation
	Events                                   []string
	Samples                                  []string
	Cut                                      bool // the time limit ended the batch
	WallNS                                   int64
}

// FoundViolation is a violation with what is needed to replay it
type FoundViolation struct {
	Index      int
	Seed       uint64
	Class, Msg string
	Choices    []uint32
	Events     []string
}

const maxHashes = 400000

var (
	res    Result
	ils    = map[uint64]struct{}{}
	states = map[uint64]struct{}{}
	began  time.Time
	status *os.File
)

func env(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func flush() {
	for h := range ils {
		res.IL = append(res.IL, h)
	}
	for h := range states {
		res.State = append(res.State, h)
	}
	sort.Slice(res.IL, func(i, j int) bool { return res.IL[i] < res.IL[j] })
	sort.Slice(res.State, func(i, j int) bool { return res.State[i] < res.State[j] })
	res.Faults, res.Probes = vsim.Counters("fault"), vsim.Counters("probe")
	res.Sites = vsim.Hits()
	res.WallNS = int64(time.Since(began))
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(os.Getenv("SIM_OUT"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker: cannot write result:", err)
		os.Exit(4)
	}
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// runOne simulates one run and returns its violation
func runOne(t *testing.T, c *Check, idx int, cfg vsim.Config) *FoundViolation {
	status.WriteAt([]byte(fmt.Sprintf("%12d\n", idx)), 0)
	var (
		out  vsim.Outcome
		e    = &E{}
		viol *FoundViolation
	)
	cfg.Budget = c.Budget
	found := func() {
		if e.viol != nil && viol == nil {
			viol = &FoundViolation{Index: idx, Seed: cfg.Seed, Class: e.viol.Class, Msg: e.viol.Msg,
				Choices: append([]uint32{}, vsim.Choices()...), Events: append([]string{}, vsim.Events()...)}
		}
	}
	ok := t.Run("run", func(t *testing.T) {
		synctest.Test(t, func(t *testing.T) {
			vos.Reset()
			out = vsim.Run(cfg, func() {
				defer e.guard("main")
				c.Run(e)
			})
			switch {
			case e.viol != nil:
			case out.Overrun:
				e.viol = &Violation{"no-progress", "the step budget of the run was exhausted"}
			case out.Deadlock:
				e.viol = &Violation{"deadlock", "no thread can ever proceed: " + out.Detail}
			case out.Leak:
				e.viol = &Violation{"leak", "a thread is left blocked forever: " + out.Detail}
			}
			found()
			if out.Deadlock || out.Leak {
				// goroutines are stuck: this process cannot go on
				res.Viol = viol
				flush()
				os.Exit(0)
			}
		})
	})
	if !ok && viol == nil {
		e.viol = &Violation{"race", "the race detector reported a data race"}
		found()
	}
	if !ok && viol != nil && viol.Class != "race" {
		viol.Msg += " (and the race detector reported a data race)"
	}
	res.Runs++
	res.Evals += vsim.Evals()
	res.Steps += out.Steps
	res.Switches += int64(out.Switches)
	res.SimNS += float64(out.Sim)
	if out.Tasks > res.MaxTasks {
		res.MaxTasks = out.Tasks
	}
	res.MaxSteps = max(res.MaxSteps, out.Steps)
	if vsim.NonTrivial() {
		res.Nontrivial++
		if len(states) < maxHashes {
			states[e.hash] = struct{}{}
		}
	}
	if out.Tasks > 1 && len(ils) < maxHashes {
		ils[vsim.Mix64(out.IL^e.hash)] = struct{}{}
	}
	if res.Hashes == nil {
		res.Hashes = map[string][2]uint64{}
	}
	if len(res.Hashes) < 40 {
		res.Hashes[strconv.Itoa(idx)] = [2]uint64{out.TrHash ^ e.hash, out.IL ^ uint64(out.Steps)}
	}
	return viol
}

func TestWorker(t *testing.T) {
	mode := os.Getenv("SIM_MODE")
	if mode == "" {
		t.Skip("run by the driver")
	}
	began = time.Now()
	c := Checks[os.Getenv("SIM_CHECK")]
	if mode == "meta" {
		b, _ := json.Marshal(map[string]any{"pool": c.Pool, "poolthorough": c.PoolThorough, "fresh": c.Fresh, "race": c.Race, "quick": c.Quick, "thorough": c.Thorough, "rule": c.Rule,
			"real": c.Real, "stub": c.Stub, "assume": c.Assume})
		os.WriteFile(os.Getenv("SIM_OUT"), b, 0o644)
		return
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	var err error
	if status, err = os.OpenFile(os.Getenv("SIM_STATUS"), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644); err != nil {
		t.Fatal(err)
	}
	if s := os.Getenv("SIM_SINK"); s != "" {
		f, err := os.OpenFile(s, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
		if err != nil {
			t.Fatal(err)
		}
		vsim.Sink = int(f.Fd())
		defer f.Close()
	}
	if err := indPrepare(); err != nil {
		t.Fatal(err)
	}
	base, _ := strconv.ParseUint(os.Getenv("SIM_SEED"), 10, 64)
	seedOf := func(i int) uint64 { return vsim.Mix64(base ^ vsim.Mix64(hash(c.ID)+uint64(i)*7919)) }
	defer flush()
	switch mode {
	case "run":
		from, step, count := env("SIM_FROM", 0), env("SIM_STEP", 1), env("SIM_COUNT", 1)
		limit := time.Duration(env("SIM_LIMIT_MS", 60000)) * time.Millisecond
		for i, n := from, 0; i < count; i, n = i+step, n+1 {
			sample := from == 0 && n >= 3 && n < 5
			v := runOne(t, c, i, vsim.Config{Seed: seedOf(i), Tracing: sample})
			if sample {
				ev := vsim.Events()
				if len(ev) > 40 {
					ev = append(ev[:40:40], "...")
				}
				res.Samples = append(res.Samples, fmt.Sprintf("run %d:\n%s", i, strings.Join(ev, "\n")))
			}
			if v != nil {
				res.Viol = v
				return
			}
			if n%64 == 63 {
				runtime.GC()
			}
			if time.Since(began) > limit {
				res.Cut = true
				return
			}
		}
	case "base": // the result of one use of the pool, alone
		alone := *c
		alone.Run = func(e *E) { res.Samples = []string{indUse(env("SIM_USE", 0), "/work/alone")} }
		res.Viol = runOne(t, &alone, 0, vsim.Config{Replay: []uint32{}})
	case "seq": // the runs of a history, in one process; the last one is traced
		var idx []int
		b, err := os.ReadFile(os.Getenv("SIM_CANDS"))
		if err == nil {
			err = json.Unmarshal(b, &idx)
		}
		if err != nil {
			t.Fatal(err)
		}
		for k, i := range idx {
			v := runOne(t, c, i, vsim.Config{Seed: seedOf(i), Tracing: k == len(idx)-1})
			if v != nil {
				res.Viol = v
				return
			}
			if k%64 == 63 {
				runtime.GC()
			}
		}
	case "cand": // try candidate choice sequences; stop at the first that fails with the class wanted
		var cands [][]uint32
		b, err := os.ReadFile(os.Getenv("SIM_CANDS"))
		if err == nil {
			err = json.Unmarshal(b, &cands)
		}
		if err != nil {
			t.Fatal(err)
		}
		want := os.Getenv("SIM_CLASS")
		tracing := os.Getenv("SIM_TRACE") != ""
		for i, cand := range cands {
			if cand == nil {
				cand = []uint32{}
			}
			v := runOne(t, c, i, vsim.Config{Replay: cand, Tracing: tracing})
			if tracing {
				res.Events = vsim.Events()
			}
			if v != nil && (want == "" || v.Class == want) {
				res.Viol = v
				return
			}
		}
	}
}
