package harness

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"

	"github.com/bantling/micro/code"
	"github.com/bantling/micro/io/writer"

	"verif.local/sim/vos"
)

// C22: source generators on a simulated file system that fails

type genFile struct {
	path    string
	text    string
	tainted bool // a write failed
	w       writer.Writer[string]
}

type genModel struct {
	g       *code.BaseGenerator
	base    string // as given
	abs     string
	set     bool // a base path was given
	ready   bool // and accepted
	cur     string
	dirs    map[string]bool // created by Dir
	srcs    map[string]bool // created by Src
	foreign map[string]bool // created by another process
	tree    map[string]string
	files   []*genFile
	last    *genFile
	loose   bool // a failure left the contents of the base path open
}

func isOp(name string) bool {
	switch name {
	case "close", "sync", "chmod", "stat":
		return false
	}
	return true
}

type genWorld struct {
	e        *E
	injected int
}

// act performs an operation of a generator; it tells whether it panicked and whether a file system operation was made to fail
func (w *genWorld) act(what string, fn func()) (val any, panicked, injected bool) {
	before := w.injected
	val, panicked = Catch(fn)
	injected = w.injected > before
	w.e.Trace("%s: panics %v (%v)", what, panicked, val)
	if injected {
		w.e.Assert(panicked, "gen-hidden", "%s: a file system operation failed (%s), but the call succeeded", what, lastFailed())
	}
	return
}

func lastFailed() string {
	for i := len(vos.Log) - 1; i >= 0; i-- {
		if vos.Log[i].Err != nil {
			return fmt.Sprint(vos.Log[i].Name, " ", vos.Log[i].Path, ": ", vos.Log[i].Err)
		}
	}
	return "?"
}

// mostly draws one of the first n
func mostly[T any](e *E, of []T, n int) T {
	if e.Draw(3) > 0 {
		return of[e.Draw(n)]
	}
	return of[e.Draw(len(of))]
}

func under(dir, p string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }

func diffTree(a, b map[string]string, skip func(p string) bool) string {
	var out []string
	for p, v := range a {
		if w, ok := b[p]; !skip(p) && (!ok || v != w) {
			out = append(out, fmt.Sprintf("%s: %q (exists %v) instead of %q", p, w, ok, v))
		}
	}
	for p, w := range b {
		if _, ok := a[p]; !skip(p) && !ok {
			out = append(out, fmt.Sprintf("%s: %q instead of nothing", p, w))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func init() {
	var (
		bases = []string{"gen", "/work/gen", "./gen/", "out/../gen", "deep/er/gen", "deep", "gen2", "/work/old", "old", "/ro/x", "afile", "afile/x", "/tmp/g", "old/sub", "."}
		names = []string{"a", "b", "a/b", "a", "a/b/c", "b/", "./a", "a/../b", "x.go", "..", "../gen2", "../x", "a/../../old", "/abs", "/../z", ".", "", "...", "..a", "a//b", "a/..", "b/../..",
			"A", "A/B", "b/C", "a b", "~", "$HOME", "%2e%2e/x", "a\\b", "ä", "a.b", "a-b", strings.Repeat("long/", 60) + "end", "a/" + strings.Repeat("n", 200)}
		srcs = []string{"x.go", "y.go", "x.go", "sub/z.go", "b/x.go", "../x.go", "a", "..", "./x.go", "../../keep", "a/../x.go", "/x.go", "/../../x.go", ".", "", "..go", "missing/x.go",
			"X.go", "Y.go", "x.GO", "x_test.go", "a b.go", "x", "~", "$x.go", "é.go", strings.Repeat("n", 200) + ".go"}
		texts = []string{"package a\n", "", "é✓", "x", strings.Repeat("0123456789", 20)}
	)
	register(&Check{
		ID: "C22", Quick: 400000, Thorough: 10000000,
		Rule:   "a run = 1-2 source generators with random base paths, directories, sources (valid, repeated, outside their directory) and writes on a populated in-memory file system where a seeded operation fails or writes short; the whole tree is compared with a model after each operation; non-trivial = an operation had to be refused or failed; distinct = by operations and outcome",
		Real:   []string{"code.BaseGenerator", "io/writer.OfIOWriterAsStrings", "funcs.Map2*", "union.Maybe"},
		Stub:   []string{"file system (in memory, failing)"},
		Assume: []string{"failures of close, sync and stat are not injected", "two generators do not share a base path"},
		Run: func(e *E) {
			w := &genWorld{e: e}
			for p, s := range map[string]string{"/work/keep": "k", "/work/old/f": "f", "/work/old/sub/g": "g", "/work/old2": "o", "/work/afile": "text", "/work/gen/stale": "s", "/work/gen/a/stale": "t", "/work/gen2/x.go": "g2", "/etc/passwd": "p", "/tmp/t": "t"} {
				vos.Put(p, s)
			}
			vos.Put("/work/gen3/", "")
			vos.Put("/ro/", "")
			vos.Chmod("/ro", 0o555)
			vos.Log = nil
			if e.Faults = e.Bool(); e.Faults {
				at := e.Draw(16)
				forever := e.OneIn(4)
				err := []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EROFS, syscall.EMFILE, syscall.EINTR}[e.Draw(6)]
				short := e.Draw(4)
				only := []string{"", "", "write", "create", "removeall"}[e.Draw(5)]
				if only != "" {
					at = e.Draw(4)
				}
				exists := e.OneIn(6)
				n := 0
				vos.Fault = func(op, p string, size int) (int, error) {
					if !isOp(op) || only != "" && op != only {
						return -1, nil
					}
					n++
					if n-1 != at && !(forever && n-1 > at) {
						return -1, nil
					}
					if op == "write" {
						if size == 0 {
							return -1, nil
						}
						w.injected++
						k := min(short*size/3, size-1)
						if short > 0 {
							e.Fault("short write")
							if short == 1 {
								return k, nil
							}
							return k, err
						}
						e.Fault("write error")
						return 0, err
					}
					w.injected++
					e.Fault(op + " error")
					if exists && (op == "mkdir" || op == "mkdirall") { // another process was faster
						return 0, syscall.EEXIST
					}
					if op == "removeall" && short > 0 { // some of it, or all of it, is gone nevertheless
						e.Fault("partial removal")
						return short, err
					}
					return 0, err
				}
			}
			gens := []*genModel{}
			for n := e.Range(1, 2); n > 0; n-- {
				gens = append(gens, &genModel{g: &code.BaseGenerator{}, dirs: map[string]bool{}, srcs: map[string]bool{}, foreign: map[string]bool{}, tree: map[string]string{}})
			}
			refused := false
			absOf := func(p string) string {
				if !strings.HasPrefix(p, "/") {
					p = "/work/" + p
				}
				return path.Clean(p)
			}
			most := 20
			if e.OneIn(50) {
				most = 120
			}
			crowd := 0 // so many different directories or sources
			if e.OneIn(300) {
				crowd, most = e.Range(10, 90), 300
				if e.OneIn(12) {
					crowd, most = e.Range(90, 700), 1600
				}
				e.Probe("many names")
			}
			for step := e.Range(2, most); step > 0; step-- {
				m := gens[e.Draw(len(gens))]
				if m.ready && e.OneIn(12) { // another process leaves a file
					if p := path.Clean(m.cur + "/" + srcs[e.Draw(3)]); vos.Tree()[p] == "" && !m.srcs[p] && vos.Tree()[m.cur] == "<dir>" {
						e.Fault("file of another process")
						vos.Put(p, "of another process, and longer than most")
						m.tree[p] = "?"
						m.foreign[p] = true
					}
				}
				before := vos.Tree()
				loose := func(p string) bool { return false } // what a failing operation may have changed
				k := e.Draw(10)
				if !m.set && k > 0 {
					k = 1
				}
				switch {
				case k <= 1: // base path
					b := mostly(e, bases, 7)
					abs := absOf(b)
					if !m.set {
						clash := false
						for _, o := range gens {
							clash = clash || o != m && o.set && (under(o.abs, abs) || under(abs, o.abs))
						}
						if clash || k == 0 && e.Bool() { // use it without a base path
							_, panicked, _ := w.act("dir without a base path", func() { m.g.Dir("a") })
							e.Assert(panicked, "gen-no-base", "Dir succeeds without a base path")
							_, panicked, _ = w.act("source without a base path", func() { m.g.Src([]string{"x.go", "tmp/x.go", "work/x.go", "tmp/t", "/tmp/x.go"}[e.Draw(5)]) })
							e.Assert(panicked, "gen-no-base", "Src succeeds without a base path")
							break
						}
					}
					_, panicked, injected := w.act("base path "+b, func() { m.g.SetBasePath(b) })
					if m.set {
						refused = true
						e.Assert(panicked, "gen-second-base", "a second base path %q is accepted", b)
						e.Assert(path.Clean(m.g.GetBasePath()) == path.Clean(m.base), "gen-base", "the base path is %q instead of %q", m.g.GetBasePath(), m.base)
						break
					}
					m.set, m.base, m.abs, m.cur = true, b, abs, abs
					bad := before[abs] != "" && before[abs] != "<dir>"
					for d := path.Dir(abs); d != "/"; d = path.Dir(d) {
						bad = bad || before[d] != "" && before[d] != "<dir>"
					}
					bad = bad || under("/ro", abs)
					if bad {
						refused = true
						e.Assert(panicked, "gen-bad-base", "the base path %q is accepted", b)
					} else if !injected && b != "." {
						e.Assert(!panicked, "gen-refused", "the base path %q is refused", b)
					}
					m.ready = !panicked
					if m.ready {
						e.Assert(path.Clean(m.g.GetBasePath()) == path.Clean(b), "gen-base", "the base path is %q instead of %q", m.g.GetBasePath(), b)
						after := vos.Tree()
						e.Assert(after[abs] == "<dir>", "gen-base", "the base path %q does not exist", b)
					}
					m.loose = panicked
					loose = func(p string) bool { return under(abs, p) || under(p, abs) && before[p] == "" }
				case !m.ready:
				case k <= 4: // directory
					name := mostly(e, names, 8)
					if crowd > 0 {
						name = fmt.Sprint("d", e.Draw(crowd))
					}
					clean := path.Clean(name)
					p := path.Clean(m.abs + "/" + clean)
					_, panicked, injected := w.act("dir "+name, func() { m.g.Dir(name) })
					outside := clean == ".." || strings.HasPrefix(clean, "../")
					open := name == "" || clean == "." || strings.HasPrefix(name, "/") || before[p] == "<dir>"
					blocked := false
					for d := p; under(m.abs, d); d = path.Dir(d) {
						blocked = blocked || before[d] != "" && before[d] != "<dir>" || before[d] == "" && m.tree[d] != "" && m.tree[d] != "<dir>"
						_, isFile := before[d]
						blocked = blocked || isFile && before[d] == "" // an empty file
					}
					switch {
					case outside || m.dirs[p] || blocked:
						refused = true
						e.Assert(panicked, "gen-bad-dir", "Dir(%q) succeeds (outside %v, exists %v, a file is in the way %v)", name, outside, m.dirs[p], blocked)
					case !injected && !open && !m.loose:
						e.Assert(!panicked, "gen-refused", "Dir(%q) is refused", name)
					}
					if panicked {
						loose = func(q string) bool { return injected && under(m.abs, q) && under(q, p) }
						if injected {
							m.loose = true
						}
						break
					}
					m.dirs[p] = true
					m.cur = p
					for d := p; under(m.abs, d); d = path.Dir(d) {
						m.tree[d] = "<dir>"
					}
					after := vos.Tree()
					e.Assert(after[p] == "<dir>", "gen-dir", "Dir(%q) did not make %s", name, p)
					loose = func(q string) bool { return under(m.abs, q) && under(q, p) }
				case k <= 7: // source
					name := mostly(e, srcs, 4)
					if crowd > 0 && e.Bool() {
						name = fmt.Sprint("s", e.Draw(crowd), ".go")
					}
					clean := path.Clean(name)
					p := path.Clean(m.cur + "/" + clean)
					_, panicked, injected := w.act("source "+name, func() { m.g.Src(name) })
					outside := clean == ".." || strings.HasPrefix(clean, "../")
					open := strings.HasPrefix(name, "/")
					parentOK := before[path.Dir(p)] == "<dir>"
					switch {
					case outside || m.srcs[p] || before[p] == "<dir>" || p == m.cur:
						refused = true
						e.Assert(panicked, "gen-bad-src", "Src(%q) in %s succeeds (outside %v, exists %v)", name, m.cur, outside, m.srcs[p])
					case !injected && !open && parentOK && !m.loose && !m.foreign[p]:
						e.Assert(!panicked, "gen-refused", "Src(%q) in %s is refused", name, m.cur)
					}
					if panicked {
						loose = func(q string) bool { return injected && q == p && !m.srcs[p] }
						if injected {
							m.loose = true
						}
						break
					}
					after := vos.Tree()
					s, ok := after[p]
					e.Assert(ok && s == "", "gen-src", "Src(%q) did not make an empty %s: %q, %v", name, p, s, ok)
					m.srcs[p] = true
					m.tree[p] = ""
					m.last = &genFile{path: p, w: m.g.CurrentSrc()}
					m.files = append(m.files, m.last)
					loose = func(q string) bool { return q == p || !parentOK && under(m.abs, q) && under(q, p) }
				default: // write
					if m.last == nil {
						break
					}
					f := m.last
					wr := m.g.CurrentSrc()
					if e.OneIn(4) {
						f = m.files[e.Draw(len(m.files))]
						wr = f.w
					}
					if f.tainted {
						break
					}
					text := texts[e.Draw(len(texts))]
					if e.Bool() {
						text = fmt.Sprintf("// %d\n", e.Draw(1000))
						if e.OneIn(40) { // around the sizes buffers have
							text = strings.Repeat("x", []int{512, 1024, 4096, 8192, 65536}[e.Draw(5)]-2+e.Draw(5))
						}
					}
					before := w.injected
					var err error
					val, panicked := Catch(func() { err = wr.Write(text) })
					e.Trace("write %q to %s: %v", clip(text), f.path, err)
					if w.injected > before {
						e.Assert(err != nil || panicked, "gen-hidden", "writing %q to %s: the write failed (%s), but success is reported", clip(text), f.path, lastFailed())
					} else {
						e.Assert(!panicked && err == nil, "gen-refused", "writing to %s fails: %v %v", f.path, err, val)
					}
					if err != nil || panicked {
						f.tainted = true
					} else {
						f.text += text
					}
					loose = func(q string) bool { return q == f.path }
				}
				after := vos.Tree()
				if d := diffTree(before, after, loose); d != "" {
					e.Fail("gen-tree", "the operation changed what it should not: %s", d)
				}
				for _, m := range gens {
					for _, f := range m.files {
						s, ok := after[f.path]
						e.Assert(ok, "gen-lost", "%s no longer exists", f.path)
						e.Assert(f.tainted || s == f.text, "gen-content", "%s holds %q instead of %q", f.path, clip(s), clip(f.text))
						e.Assert(strings.HasPrefix(s, f.text), "gen-content", "%s holds %q, which does not begin with %q", f.path, clip(s), clip(f.text))
					}
					if m.ready && !m.loose {
						for p, s := range after {
							_, known := m.tree[p]
							e.Assert(!under(m.abs, p) || known || p == m.abs, "gen-extra", "%s (%q) exists below the base path although nothing made it", p, clip(s))
						}
					}
				}
			}
			if refused || w.injected > 0 {
				e.NonTrivial()
			}
			var all []string
			for p, s := range vos.Tree() {
				all = append(all, p+"="+s)
			}
			sort.Strings(all)
			e.State(all)
			for _, m := range gens {
				e.State(m.base)
			}
		},
	})
}
