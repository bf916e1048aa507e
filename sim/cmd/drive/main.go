// Command drive decides one property: it builds the instrumented code under test with the simulator, searches seeded
// schedules and fault sequences with parallel workers, minimises the first violation and writes the evidence.
//
//	drive check ID          (tier from VERIF_TIER, seed from VERIF_SEED)
//	drive replay FILE       re-executes a replay file
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type violation struct {
	Index      int
	Seed       uint64
	Class, Msg string
	Choices    []uint32
	Events     []string
}

type result struct {
	Runs, Nontrivial, Evals, Steps, Switches int64
	SimNS                                    float64
	MaxTasks                                 int
	MaxSteps                                 int64
	IL, State                                []uint64
	Hashes                                   map[string][2]uint64
	Faults, Probes                           map[string]int64
	Sites                                    []int32
	Viol                                     *violation
	Events                                   []string
	Samples                                  []string
	Cut                                      bool
	WallNS                                   int64
}

type meta struct {
	Race               bool
	Quick, Thorough    int
	Pool, PoolThorough int
	Fresh              int
	Rule               string
	Real, Stub, Assume []string
}

// Replay is the file that reproduces a violation
type Replay struct {
	Property  string   `json:"property"`
	Check     string   `json:"check"`
	Seed      uint64   `json:"seed"`
	Index     int      `json:"run_index"`
	VerifSeed uint64   `json:"verif_seed"`
	Pool      int      `json:"pool,omitempty"`
	Class     string   `json:"class"`
	Message   string   `json:"message"`
	Choices   []uint32 `json:"choices"`
	History   []int    `json:"history,omitempty"` // the violation needs state left by these runs in the process
	Original  int      `json:"choices_before_minimising"`
	Trace     []string `json:"trace"`
	Reproduce string   `json:"reproduce"`
}

var (
	verif, repo, tmp string
	seed             uint64
	tier             string
	race             bool
	worker           string
	baseFile         string
)

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", args...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if strings.HasPrefix(filepath.Base(tmp), "microsim-") {
		os.RemoveAll(tmp)
	}
}

func run(dir string, env []string, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	b, err := cmd.CombinedOutput()
	return string(b), err
}

// stdOverlay adds the stand-in for the standard library's sync.Pool to an overlay file, and returns the new file
func stdOverlay(file string) string {
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(file)
	if err != nil || json.Unmarshal(b, &ov) != nil {
		return ""
	}
	goroot, err := run(tmp, nil, "go", "env", "GOROOT")
	if err != nil {
		return ""
	}
	pool := filepath.Join(strings.TrimSpace(goroot), "src", "sync", "pool.go")
	if _, err := os.Stat(pool); err != nil {
		return ""
	}
	ov.Replace[pool] = filepath.Join(verif, "sim", "std", "pool.go.txt")
	b, _ = json.Marshal(ov)
	out := strings.TrimSuffix(file, ".json") + "-race.json"
	if os.WriteFile(out, b, 0o644) != nil {
		return ""
	}
	return out
}

// build instruments the working tree and compiles the worker
func build(raceBuild bool) {
	sim := filepath.Join(verif, "sim")
	var log strings.Builder
	for _, level := range []string{"3", "2", "1"} {
		out := filepath.Join(tmp, "inst"+level)
		os.MkdirAll(out, 0o755)
		if o, err := run(sim, []string{"SIM_LEVEL=" + level}, filepath.Join(tmp, "instr"), repo, out); err != nil {
			fmt.Fprintf(&log, "instrumenting at level %s: %v\n%s\n", level, err, o)
			continue
		}
		worker = filepath.Join(tmp, "worker")
		overlays := []string{filepath.Join(out, "overlay.json")}
		if raceBuild {
			if o := stdOverlay(overlays[0]); o != "" {
				overlays = []string{o, overlays[0]}
			}
		}
		args := []string{"test", "-c", "-vet=off", "-o", worker}
		if repo != "/repo" {
			// A copy of the tree is being looked at
			b, err := os.ReadFile(filepath.Join(sim, "go.mod"))
			if err == nil {
				err = os.WriteFile(filepath.Join(tmp, "sim.mod"), []byte(strings.Replace(string(b), "=> /repo", "=> "+repo, 1)), 0o644)
			}
			if err != nil {
				fatal("%v", err)
			}
			args = append(args, "-modfile="+filepath.Join(tmp, "sim.mod"))
		}
		if raceBuild {
			args = append(args, "-race")
			for _, p := range []string{"vsim", "vsync", "vos"} {
				args = append(args, "-gcflags=verif.local/sim/"+p+"=-race=false -l")
			}
		}
		var o string
		var err error
		for i, ov := range overlays {
			if o, err = run(sim, nil, "go", append(args, "-overlay", ov, "./harness")...); err == nil {
				break
			}
			if i < len(overlays)-1 {
				fmt.Fprintf(os.Stderr, "note: not built with the stand-in for sync.Pool: %v\n", err)
			}
		}
		if err == nil {
			if level != "3" {
				fmt.Fprintf(os.Stderr, "note: instrumented at the reduced level %s\n%s", level, log.String())
			}
			race = raceBuild
			b, _ := os.ReadFile(filepath.Join(out, "sites.json"))
			os.WriteFile(filepath.Join(tmp, "sites.json"), b, 0o644)
			return
		}
		fmt.Fprintf(&log, "building at level %s: %v\n%s\n", level, err, o)
	}
	fatal("cannot build the simulation of the working tree\n%s", log.String())
}

type proc struct {
	res    *result
	crash  string // stderr tail if the process died
	status int
	killed bool
	stderr string
}

var procSeq struct {
	sync.Mutex
	n int
}

// start runs one worker process to its end
func start(check, mode string, limit time.Duration, env ...string) proc {
	procSeq.Lock()
	procSeq.n++
	id := procSeq.n
	procSeq.Unlock()
	out := filepath.Join(tmp, fmt.Sprintf("out%d.json", id))
	st := filepath.Join(tmp, fmt.Sprintf("status%d", id))
	defer os.Remove(out)
	defer os.Remove(st)
	cmd := exec.Command(worker, "-test.run", "^TestWorker$", "-test.timeout", "0")
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "SIM_CHECK="+check, "SIM_MODE="+mode, "SIM_OUT="+out, "SIM_STATUS="+st, "GORACE=history_size=3 exitcode=0 atexit_sleep_ms=0", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single")
	cmd.Env = append(cmd.Env, fmt.Sprint("SIM_SEED0=", seed))
	if baseFile != "" {
		cmd.Env = append(cmd.Env, "SIM_BASE="+baseFile)
	}
	cmd.Env = append(cmd.Env, env...)
	var stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stderr, &stderr
	if err := cmd.Start(); err != nil {
		fatal("cannot start worker: %v", err)
	}
	var p proc
	killed := make(chan bool, 1)
	timer := time.AfterFunc(limit, func() { killed <- true; cmd.Process.Kill() })
	cmd.Wait()
	timer.Stop()
	select {
	case <-killed:
		p.killed = true
	default:
	}
	p.stderr = stderr.String()
	if b, err := os.ReadFile(st); err == nil {
		p.status, _ = strconv.Atoi(strings.TrimSpace(string(b)))
	}
	if b, err := os.ReadFile(out); err == nil {
		var r result
		if err := json.Unmarshal(b, &r); err != nil {
			fatal("bad worker result: %v", err)
		}
		p.res = &r
		if r.Viol != nil && r.Viol.Class == "race" {
			r.Viol.Msg = raceReport(p.stderr)
		}
		return p
	}
	if !p.killed {
		p.crash = crashReport(p.stderr)
	}
	return p
}

var addr = regexp.MustCompile(`0x[0-9a-f]+`)

func raceReport(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return "data race"
	}
	s = s[i:]
	if j := strings.Index(s, "=================="); j > 0 {
		s = s[:j]
	}
	return addr.ReplaceAllString(s, "0x..")
}

func crashReport(s string) string {
	for _, k := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack exceeds"} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			break
		}
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	if s == "" {
		s = "the process died without a message"
	}
	return addr.ReplaceAllString(s, "0x..")
}

func genuineCrash(s string) bool {
	// Only what the Go runtime reports about the program itself; running out of memory or being killed is trouble of the environment
	return strings.HasPrefix(s, "panic: ") || strings.HasPrefix(s, "runtime: goroutine stack exceeds") ||
		strings.HasPrefix(s, "fatal error: ") && !strings.Contains(s, "out of memory") && !strings.Contains(s, "cannot allocate")
}

// try runs candidates and returns the index of the first failing with class, or -1
func try(check, class string, cands [][]uint32) (int, *violation) {
	f := filepath.Join(tmp, fmt.Sprintf("cands%d.json", time.Now().UnixNano()))
	b, _ := json.Marshal(cands)
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	p := start(check, "cand", 60*time.Second, "SIM_CANDS="+f, "SIM_CLASS="+class)
	if p.res != nil {
		if p.res.Viol != nil {
			return p.res.Viol.Index, p.res.Viol
		}
		return -1, nil
	}
	if class == "crash" && genuineCrash(p.crash) {
		return p.status, &violation{Class: "crash", Msg: p.crash, Choices: cands[p.status]}
	}
	return -1, nil
}

func trimZeros(c []uint32) []uint32 {
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}

// shrink minimises a choice sequence while the class of the violation persists
func shrink(check string, v *violation, limit time.Duration) []uint32 {
	deadline := time.Now().Add(limit)
	best := trimZeros(v.Choices)
	batch := 48
	if v.Class == "crash" || v.Class == "deadlock" || v.Class == "leak" || v.Class == "race" {
		batch = 24
	}
	improve := func(cands [][]uint32) bool {
		for len(cands) > 0 && time.Now().Before(deadline) {
			n := min(batch, len(cands))
			if i, w := try(check, v.Class, cands[:n]); i >= 0 {
				next := trimZeros(cands[i])
				if w != nil && len(w.Choices) > 0 && len(trimZeros(w.Choices)) < len(next) {
					next = trimZeros(w.Choices)
				}
				best = next
				return true
			}
			cands = cands[n:]
		}
		return false
	}
	for round := 0; round < 40 && time.Now().Before(deadline); round++ {
		changed := false
		for size := (len(best) + 1) / 2; size >= 1; size /= 2 {
			for again := true; again && time.Now().Before(deadline); {
				var cands [][]uint32
				for i := 0; i+size <= len(best); i += size {
					// delete a span
					cands = append(cands, append(append([]uint32{}, best[:i]...), best[i+size:]...))
				}
				for i := 0; i+size <= len(best); i += size {
					// zero a span
					c := append([]uint32{}, best...)
					nz := false
					for j := i; j < i+size; j++ {
						nz = nz || c[j] != 0
						c[j] = 0
					}
					if nz {
						cands = append(cands, c)
					}
				}
				if len(cands) > 600 {
					cands = cands[:600]
				}
				again = improve(cands)
				changed = changed || again
			}
			if size == 1 {
				break
			}
		}
		// reduce values
		for again := true; again && time.Now().Before(deadline); {
			var cands [][]uint32
			for i, x := range best {
				for _, y := range []uint32{x / 2, x - 1} {
					if x > 1 && y < x {
						c := append([]uint32{}, best...)
						c[i] = y
						cands = append(cands, c)
					}
				}
			}
			if len(cands) > 400 {
				cands = cands[:400]
			}
			again = improve(cands)
			changed = changed || again
		}
		if !changed {
			break
		}
	}
	return best
}

// detail re-executes choices with tracing on and returns the violation
func detail(check, class string, choices []uint32) (*violation, []string) {
	f := filepath.Join(tmp, "final.json")
	b, _ := json.Marshal([][]uint32{choices})
	os.WriteFile(f, b, 0o644)
	sink := filepath.Join(tmp, "final.sink")
	p := start(check, "cand", 120*time.Second, "SIM_CANDS="+f, "SIM_TRACE=1", "SIM_SINK="+sink)
	if p.res != nil {
		if v := p.res.Viol; v != nil {
			return v, v.Events
		}
		return nil, p.res.Events
	}
	if !genuineCrash(p.crash) {
		return nil, nil
	}
	_, ev := readSink(sink)
	return &violation{Class: "crash", Msg: p.crash, Choices: choices}, ev
}

// history executes runs one after another in one process and returns the violation, which has to be in the last one
func history(check, class string, verifSeed uint64, idx []int) (*violation, []string) {
	f := filepath.Join(tmp, "seq.json")
	b, _ := json.Marshal(idx)
	os.WriteFile(f, b, 0o644)
	p := start(check, "seq", 120*time.Second, "SIM_CANDS="+f, fmt.Sprint("SIM_SEED=", verifSeed))
	last := idx[len(idx)-1]
	if p.res != nil {
		if v := p.res.Viol; v != nil && v.Index == last && (class == "" || v.Class == class) {
			return v, v.Events
		}
		return nil, nil
	}
	if genuineCrash(p.crash) && p.status == last && (class == "" || class == "crash") {
		return &violation{Index: last, Class: "crash", Msg: p.crash}, nil
	}
	return nil, nil
}

// shrinkHistory removes runs that the last one does not need to fail
func shrinkHistory(check, class string, verifSeed uint64, idx []int, limit time.Duration) []int {
	deadline := time.Now().Add(limit)
	last := idx[len(idx)-1]
	best := idx[:len(idx)-1]
	for size := (len(best) + 1) / 2; size >= 1 && len(best) > 0; {
		changed := false
		for i := 0; i < len(best) && time.Now().Before(deadline); {
			end := min(i+size, len(best))
			cand := append(append([]int{}, best[:i]...), best[end:]...)
			if v, _ := history(check, class, verifSeed, append(append([]int{}, cand...), last)); v != nil {
				best, changed = cand, true
			} else {
				i = end
			}
		}
		if size == 1 && !changed || !time.Now().Before(deadline) {
			break
		}
		size = max(1, size/2)
	}
	return append(append([]int{}, best...), last)
}

func readSink(path string) (choices []uint32, events []string) {
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<22)
	for sc.Scan() {
		switch l := sc.Text(); {
		case strings.HasPrefix(l, "C "):
			n, _ := strconv.ParseUint(l[2:], 10, 32)
			choices = append(choices, uint32(n))
		case strings.HasPrefix(l, "E "):
			events = append(events, l[2:])
		}
	}
	return
}

type known struct{ property, class, pattern, text string }

// knownFindings reads /verif/known-findings.txt: lines "finding: property=<id> class=<class> match=<regexp> :: <text>"
func knownFindings(id string) (out []known) {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "finding: "), " :: ")
		k := known{text: text}
		for _, f := range strings.Fields(head) {
			n, v, _ := strings.Cut(f, "=")
			switch n {
			case "property":
				k.property = v
			case "class":
				k.class = v
			case "match":
				k.pattern = v
			}
		}
		if k.property == id {
			out = append(out, k)
		}
	}
	return
}

func isKnown(ks []known, v *violation) bool {
	for _, k := range ks {
		if k.class == v.Class {
			if re, err := regexp.Compile(k.pattern); err == nil && re.MatchString(v.Msg) {
				return true
			}
		}
	}
	return false
}

func getMeta(check string) (m meta) {
	out := filepath.Join(tmp, "meta.json")
	cmd := exec.Command(worker, "-test.run", "^TestWorker$")
	cmd.Env = append(os.Environ(), "SIM_CHECK="+check, "SIM_MODE=meta", "SIM_OUT="+out)
	b, err := cmd.CombinedOutput()
	if err != nil {
		fatal("worker meta: %v\n%s", err, b)
	}
	mb, _ := os.ReadFile(out)
	if err := json.Unmarshal(mb, &m); err != nil {
		fatal("worker meta: %v", err)
	}
	return
}

// raceChecks are built with the race detector; read from the sources so that only one build is needed
func wantsRace(id string) bool {
	files, _ := filepath.Glob(filepath.Join(verif, "sim", "harness", "*.go"))
	re := regexp.MustCompile(`ID:\s*"` + id + `",\s*Race:\s*true`)
	for _, f := range files {
		if b, _ := os.ReadFile(f); re.Match(b) {
			return true
		}
	}
	return false
}

func main() {
	if len(os.Args) != 3 {
		fmt.Fprintln(os.Stderr, "usage: drive check ID | drive replay FILE")
		os.Exit(2)
	}
	verif, tmp = os.Getenv("SIM_VERIF"), os.Getenv("SIM_TMP")
	repo = os.Getenv("SIM_REPO")
	if repo == "" {
		repo = "/repo"
	}
	seed, _ = strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if tier = os.Getenv("VERIF_TIER"); tier != "thorough" {
		tier = "quick"
	}
	code := 0
	switch os.Args[1] {
	case "check":
		if os.Args[2] == "warm" {
			build(false)
			build(true)
			break
		}
		code = check(os.Args[2])
	case "replay":
		code = replayFile(os.Args[2])
	default:
		fatal("unknown command")
	}
	cleanup()
	os.Exit(code)
}

func replayFile(path string) int {
	var r Replay
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		fatal("%v", err)
	}
	build(wantsRace(r.Check))
	seed = r.VerifSeed
	baseline(r.Check, r.Pool)
	var (
		v  *violation
		ev []string
	)
	if len(r.History) > 0 {
		v, ev = history(r.Check, "", r.VerifSeed, r.History)
	} else {
		v, ev = detail(r.Check, "", r.Choices)
	}
	for _, l := range ev {
		fmt.Println(l)
	}
	if v == nil {
		fmt.Println("no violation")
		return 0
	}
	same := "the same violation as recorded"
	if v.Class != r.Class || v.Msg != r.Message {
		same = "DIFFERS from the recorded violation"
	}
	fmt.Printf("%s: %s\n(%s)\nVIOLATION property=%s replay=%s\n", v.Class, v.Msg, same, r.Property, path)
	return 1
}

// baseline finds out the result that each use of a pool has alone in a new process
func baseline(id string, n int) {
	if n == 0 {
		return
	}
	results := make([]string, n)
	next := make(chan int, n)
	for k := range results {
		next <- k
	}
	close(next)
	var wg sync.WaitGroup
	for w := 0; w < max(1, min(runtime.NumCPU(), 16)); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range next {
				p := start(id, "base", 60*time.Second, fmt.Sprint("SIM_USE=", k))
				if p.res == nil || len(p.res.Samples) != 1 {
					results[k] = "crash: " + p.crash
				} else {
					results[k] = p.res.Samples[0]
				}
			}
		}()
	}
	wg.Wait()
	f := filepath.Join(tmp, "baseline.json")
	b, _ := json.Marshal(results)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		fatal("%v", err)
	}
	baseFile = f
}

func check(id string) int {
	begin := time.Now()
	build(wantsRace(id))
	built := time.Since(begin)
	m := getMeta(id)
	if m.Race != race {
		fatal("race mode of %s is inconsistent", id)
	}
	count, limit := m.Quick, 70*time.Second
	pool := m.Pool
	if tier == "thorough" {
		pool = m.PoolThorough
	}
	baseline(id, pool)
	if tier == "thorough" {
		count, limit = m.Thorough, 12*time.Minute
	}
	if s, err := strconv.Atoi(os.Getenv("SIM_RUNS")); err == nil {
		count = s
	}
	W := runtime.NumCPU()
	if s, err := strconv.Atoi(os.Getenv("SIM_WORKERS")); err == nil {
		W = s
	}
	W = max(1, min(W, 16, count))
	// each worker process makes Fresh of the runs, so that what the process keeps between runs is new every so often
	per := count
	if m.Fresh > 0 {
		per = m.Fresh
	}
	parts := make([][]proc, W)
	searchBegin := time.Now()
	var wg sync.WaitGroup
	for w := range parts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for from := w; from < count; from += per * W {
				left := limit - time.Since(searchBegin)
				if left <= 0 {
					return
				}
				p := start(id, "run", left+60*time.Second,
					fmt.Sprint("SIM_SEED=", seed), fmt.Sprint("SIM_FROM=", from), fmt.Sprint("SIM_STEP=", W),
					fmt.Sprint("SIM_COUNT=", min(count, from+per*W)), fmt.Sprint("SIM_LIMIT_MS=", left.Milliseconds()))
				parts[w] = append(parts[w], p)
				if p.res == nil || p.res.Viol != nil || p.res.Cut {
					return
				}
			}
		}()
	}
	wg.Wait()
	search := time.Since(searchBegin)

	var (
		total  = result{Faults: map[string]int64{}, Probes: map[string]int64{}, Hashes: map[string][2]uint64{}}
		ils    = map[uint64]bool{}
		states = map[uint64]bool{}
		sites  = map[int32]bool{}
		first  *violation

		processes int
	)
	for _, p := range slices.Concat(parts...) {
		processes++
		if p.res == nil {
			if p.killed {
				fatal("a worker exceeded its time limit in run %d", p.status)
			}
			if !genuineCrash(p.crash) {
				fatal("a worker died in run %d: %s", p.status, p.crash)
			}
			if first == nil || p.status < first.Index {
				first = &violation{Index: p.status, Class: "crash", Msg: p.crash}
			}
			continue
		}
		r := p.res
		total.Runs += r.Runs
		total.Nontrivial += r.Nontrivial
		total.Evals += r.Evals
		total.Steps += r.Steps
		total.Switches += r.Switches
		total.SimNS += r.SimNS
		total.MaxTasks = max(total.MaxTasks, r.MaxTasks)
		total.MaxSteps = max(total.MaxSteps, r.MaxSteps)
		total.Cut = total.Cut || r.Cut
		total.Samples = append(total.Samples, r.Samples...)
		for k, n := range r.Faults {
			total.Faults[k] += n
		}
		for k, n := range r.Probes {
			total.Probes[k] += n
		}
		for _, h := range r.IL {
			ils[h] = true
		}
		for _, h := range r.State {
			states[h] = true
		}
		for _, s := range r.Sites {
			sites[s] = true
		}
		for k, h := range r.Hashes {
			total.Hashes[k] = h
		}
		if r.Viol != nil && (first == nil || r.Viol.Index < first.Index) {
			first = r.Viol
		}
	}

	ks := knownFindings(id)
	violations := 0
	code := 0
	if first != nil {
		alone := true
		if first.Choices == nil { // a crash: run it again, writing the choices through
			sink := filepath.Join(tmp, "crash.sink")
			p := start(id, "run", 120*time.Second, fmt.Sprint("SIM_SEED=", seed), fmt.Sprint("SIM_FROM=", first.Index),
				"SIM_STEP=1", fmt.Sprint("SIM_COUNT=", first.Index+1), "SIM_SINK="+sink)
			if p.res != nil || !genuineCrash(p.crash) {
				alone = false
			} else {
				first.Choices, _ = readSink(sink)
				first.Msg = p.crash
			}
		}
		original := len(first.Choices)
		shrinkFor := 40 * time.Second
		if s, err := strconv.Atoi(os.Getenv("SIM_SHRINK_S")); err == nil {
			shrinkFor = time.Duration(s) * time.Second
		}
		var (
			v       *violation
			ev      []string
			choices = first.Choices
			hist    []int
		)
		if alone {
			if again, _ := detail(id, first.Class, choices); again == nil || again.Class != first.Class {
				alone = false
			}
		}
		if alone {
			choices = shrink(id, first, shrinkFor)
			v, ev = detail(id, first.Class, choices)
			if v == nil || v.Class != first.Class {
				choices = first.Choices
				if v, ev = detail(id, first.Class, choices); v == nil {
					v = first
				}
			}
		} else { // it needs state that earlier runs left in the process
			w := first.Index % W
			for i := w + (first.Index-w)/W/per*per*W; i <= first.Index; i += W {
				hist = append(hist, i)
			}
			if v, _ = history(id, first.Class, seed, hist); v == nil {
				if first.Class == "crash" {
					fatal("run %d crashed a worker, but neither alone nor after the runs before it does so again:\n%s", first.Index, first.Msg)
				}
				v, hist = first, nil
				fmt.Println("note: this violation was observed, but did not come back when the run was repeated, alone or after its predecessors")
			} else {
				hist = shrinkHistory(id, first.Class, seed, hist, shrinkFor)
				v, ev = history(id, first.Class, seed, hist)
				if v == nil {
					v = first
				}
				fmt.Printf("the violation needs state left by earlier runs of the process: runs %v\n", hist)
			}
		}
		rep := Replay{Property: id, Check: id, Seed: first.Seed, Index: first.Index, VerifSeed: seed, Pool: pool, Class: v.Class, Message: v.Msg,
			Choices: choices, History: hist, Original: original, Trace: ev}
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", id, seed, first.Index))
		rep.Reproduce = "bash /verif/replay.sh " + path
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fatal("%v", err)
		}
		for _, l := range ev {
			fmt.Println("  ", l)
		}
		fmt.Printf("%s: %s\n(run %d, choices %d, minimised to %d)\n", v.Class, v.Msg, first.Index, original, len(choices))
		violations = 1
		if isKnown(ks, v) {
			violations = 0
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			code = 1
		}
	}
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
	}

	// determinism: repeat the runs whose histories were hashed in one process and compare
	det := map[string]any{"runs_repeated": 0, "mismatches": 0}
	if first == nil {
		p := start(id, "run", 120*time.Second, fmt.Sprint("SIM_SEED=", seed), "SIM_FROM=0", "SIM_STEP=1", "SIM_COUNT=40", "SIM_LIMIT_MS=20000")
		if p.res != nil {
			n, bad := 0, 0
			for k, h := range p.res.Hashes {
				if g, found := total.Hashes[k]; found {
					n++
					if g != h {
						bad++
						if os.Getenv("SIM_DEBUG") != "" {
							fmt.Println("nondeterministic run", k)
						}
					}
				}
			}
			det["runs_repeated"], det["mismatches"] = n, bad
		}
	}

	// which instrumented statements were reached, by package
	var st []struct{ Pkg, Pos string }
	if b, err := os.ReadFile(filepath.Join(tmp, "sites.json")); err == nil {
		json.Unmarshal(b, &st)
	}
	reach := map[string]string{}
	tot, got := map[string]int{}, map[string]int{}
	for i, s := range st {
		tot[s.Pkg]++
		if sites[int32(i)] {
			got[s.Pkg]++
		}
	}
	for p, n := range got {
		reach[strings.TrimPrefix(p, "github.com/bantling/micro/")] = fmt.Sprintf("%d/%d", n, tot[p])
	}
	if len(total.Samples) > 2 {
		total.Samples = total.Samples[:2]
	}
	if len(total.Samples) == 0 {
		total.Samples = []string{"(none)"}
	}
	hours := search.Hours()
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"wall_s": time.Since(begin).Seconds(), "violations": violations,
		"coverage": map[string]any{
			"evaluations":             total.Runs,
			"distinct_nontrivial":     len(states),
			"rule":                    m.Rule,
			"samples":                 total.Samples,
			"simulated_runs":          total.Runs,
			"nontrivial_runs":         total.Nontrivial,
			"oracle_evaluations":      total.Evals,
			"runs_per_hour":           int64(float64(total.Runs) / max(hours, 1e-9)),
			"seeds_per_hour":          int64(float64(total.Runs) / max(hours, 1e-9)),
			"simulated_time_s":        total.SimNS / 1e9,
			"scheduler_steps":         total.Steps,
			"task_switches":           total.Switches,
			"max_tasks_in_a_run":      total.MaxTasks,
			"max_steps_in_a_run":      total.MaxSteps,
			"faults_injected":         total.Faults,
			"probes":                  total.Probes,
			"distinct_interleavings":  len(ils),
			"interleaving_measure":    "hash of the sequence of (task, statement) at which the running task changed, with the run's input",
			"statements_reached":      reach,
			"components_real":         m.Real,
			"components_stub":         m.Stub,
			"race_detector":           race,
			"determinism":             det,
			"cut_short_by_time_limit": total.Cut,
			"workers":                 W,
			"worker_processes":        processes,
			"build_s":                 built.Seconds(),
		},
		"assumptions": append([]string{"sampled search: absence of a violation is evidence, not proof"}, m.Assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	var fk []string
	for k, n := range total.Faults {
		fk = append(fk, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(fk)
	fmt.Printf("%s: %d runs (%d distinct non-trivial), %d evaluations, %d interleavings, %.0f s simulated, faults: %s; build %.1fs search %.1fs; determinism %v\n",
		id, total.Runs, len(states), total.Evals, len(ils), total.SimNS/1e9, strings.Join(fk, " "), built.Seconds(), search.Seconds(), det)
	return code
}
