package harness

import (
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"

	"verif.local/sim/vsim"
)

// ---- shared generators

// pinfo draws a parallelism setting for n items
func pinfo(e *E, n int) (info []stream.PInfo, desc string) {
	switch e.Draw(3) {
	case 0:
		return nil, "default"
	case 1:
		k := pnum(e, n)
		return []stream.PInfo{{N: k, PUnit: stream.Threads}}, fmt.Sprintf("threads=%d", k)
	}
	k := pnum(e, n)
	return []stream.PInfo{{N: k, PUnit: stream.Items}}, fmt.Sprintf("items=%d", k)
}

func pnum(e *E, n int) int {
	switch e.Draw(6) {
	case 0, 1, 2:
		return 1 + e.Draw(max(1, n))
	case 3:
		if e.OneIn(3) {
			return 1 + e.Draw(4)
		}
		return n + e.Draw(4)
	case 4:
		return []int{0, -1, -7, math.MinInt}[e.Draw(4)]
	}
	return []int{1000, math.MaxInt32, math.MaxInt}[e.Draw(3)]
}

func size(e *E) int {
	switch e.Draw(4) {
	case 0:
		return e.Draw(5)
	case 1:
		return 2 + e.Draw(12)
	}
	if e.OneIn(60) {
		if e.OneIn(10) {
			if e.OneIn(10) {
				return 1800 + e.Draw(14000)
			}
			return 300 + e.Draw(1500)
		}
		return 41 + e.Draw(260)
	}
	return e.Draw(41)
}

// distinct items with an id in the low digits
func items(e *E, n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = e.Draw(50)*[]int{10000, 100000}[min(1, n/10000)] + i
	}
	return out
}

type named struct{ v int }

func (n named) String() string { return fmt.Sprint("n", n.v) }

// elementwise is a transform whose output for an item depends only on that item, with its model
type elementwise[T, U any] struct {
	name  string
	apply func(iter.Iter[T]) iter.Iter[U]
	model func(T) []U
}

func mul(n int) int { vsim.Y(0); r := n*3 + 1; vsim.Y(0); return r }

// intChain draws a chain of element-wise transforms on ints
func intChain(e *E, depth int) elementwise[int, int] {
	var c elementwise[int, int]
	switch e.Draw(7) {
	case 0:
		c = elementwise[int, int]{"map", stream.Map(mul), func(n int) []int { return []int{mul(n)} }}
	case 1:
		m := 2 + e.Draw(3)
		r := e.Draw(m)
		keep := func(n int) bool { vsim.Y(0); return n%m != r }
		c = elementwise[int, int]{fmt.Sprintf("filter%%%d!=%d", m, r), stream.Filter(keep), func(n int) []int {
			if keep(n) {
				return []int{n}
			}
			return nil
		}}
	case 2:
		m := 2 + e.Draw(3)
		dup := func(n int) (out []int) {
			for i := 0; i < n%m; i++ {
				vsim.Y(0)
				out = append(out, n*10+i)
			}
			return
		}
		c = elementwise[int, int]{fmt.Sprintf("expand%%%d", m), func(it iter.Iter[int]) iter.Iter[int] {
			return stream.ExpandSlices(stream.Map(dup)(it))
		}, dup}
	case 3:
		c = elementwise[int, int]{"maperror", stream.MapError(func(n int) (int, error) { vsim.Y(0); return -n, nil }), func(n int) []int { return []int{-n} }}
	case 4:
		c = elementwise[int, int]{"peek", stream.Peek(func(n int) { vsim.Y(0) }), func(n int) []int { return []int{n} }}
	case 5:
		c = elementwise[int, int]{"zero", stream.Map(func(n int) int { return 0 }), func(n int) []int { return []int{0} }}
	default:
		c = elementwise[int, int]{"none", stream.Filter(func(n int) bool { return false }), func(n int) []int { return nil }}
		if e.Bool() {
			c = elementwise[int, int]{"identity", func(it iter.Iter[int]) iter.Iter[int] { return it }, func(n int) []int { return []int{n} }}
		}
	}
	if depth > 0 && e.Bool() {
		d := intChain(e, depth-1)
		a := c
		c = elementwise[int, int]{a.name + "|" + d.name, func(it iter.Iter[int]) iter.Iter[int] { return d.apply(a.apply(it)) }, func(n int) (out []int) {
			for _, x := range a.model(n) {
				out = append(out, d.model(x)...)
			}
			return
		}}
	}
	if depth > 1 && e.OneIn(6) { // workers that have workers
		a := c
		info, desc := pinfo(e, 1+e.Draw(20))
		c.name = "parallel(" + desc + ": " + a.name + ")"
		c.apply = stream.Parallel(a.apply, info...)
	}
	return c
}

// then extends a chain by a conversion of the item type
func then[T, U, V any](a elementwise[T, U], name string, f func(U) V) elementwise[T, V] {
	return elementwise[T, V]{a.name + "|" + name, func(it iter.Iter[T]) iter.Iter[V] { return stream.Map(f)(a.apply(it)) }, func(t T) (out []V) {
		for _, x := range a.model(t) {
			out = append(out, f(x))
		}
		return
	}}
}

// collect pulls an iter to its end
func collect[T any](it iter.Iter[T], limit int) (out []T, err error) {
	for len(out) <= limit {
		v, err := it.Next()
		if err != nil {
			return out, err
		}
		out = append(out, v)
	}
	return out, fmt.Errorf("harness: more than %d items", limit)
}

func modelAll[T, U any](in []T, f func(T) []U) (out []U) {
	for _, v := range in {
		out = append(out, f(v)...)
	}
	return
}

// slowSource is a source that is not a slice: each item arrives at its own time
func slowSource[T any](e *E, in []T) iter.Iter[T] {
	i := 0
	return iter.OfIter(func() (T, error) {
		vsim.Y(0)
		if i < len(in) {
			i++
			stall(e, 6, "slow source")
			return in[i-1], nil
		}
		var zv T
		return zv, iter.EOI
	})
}

// stall lets the thread sleep now and then, for a millisecond up to days
func stall(e *E, n int, kind string) {
	if e.OneIn(n) {
		e.Fault(kind)
		vsim.Sleep([]time.Duration{time.Millisecond, time.Second, time.Minute, time.Hour, 50 * time.Hour}[e.Draw(5)])
	}
}

// slowly is a transform whose workers stall
func slowly[T, U any](e *E, apply func(iter.Iter[T]) iter.Iter[U]) func(iter.Iter[T]) iter.Iter[U] {
	return func(it iter.Iter[T]) iter.Iter[U] {
		stall(e, 8, "slow worker")
		out := apply(it)
		return iter.OfIter(func() (U, error) {
			stall(e, 8, "slow worker")
			return out.Next()
		})
	}
}

func parallelCase[T, U any](e *E, who string, in []T, tr elementwise[T, U], info []stream.PInfo, desc string) {
	keep := append([]T{}, in...)
	var src iter.Iter[T]
	slow := e.Draw(3) == 1
	if slow {
		src = slowSource(e, in)
	} else {
		src = iter.OfSlice(in)
	}
	e.Trace("%s: parallel %s over %d items %v with %s", who, tr.name, len(in), in, desc)
	before := append([]T{}, in...)
	apply := tr.apply
	if e.OneIn(4) {
		apply = slowly(e, apply)
	}
	got, err := collect(stream.Parallel(apply, info...)(src), 20*len(in)+20)
	want := modelAll(keep, tr.model)
	e.Trace("%s: got %v, %v", who, got, err)
	e.Assert(err == iter.EOI, "parallel-error", "%s (%s, %s, %d items): ends with %v instead of end of iteration", tr.name, desc, who, len(in), err)
	e.Assert(len(got) == len(want) && (len(got) == 0 || reflect.DeepEqual(got, want)), "parallel-mismatch",
		"%s (%s) of %v: got %v, sequentially %v", tr.name, desc, keep, got, want)
	e.Assert(reflect.DeepEqual(in, before), "parallel-source-modified", "%s (%s): the caller's source %v became %v", tr.name, desc, before, in)
}

// outlives decides whether workers were at work after the call that started them returned. The thread of a worker whose
// work is done may still have to end.
func outlives(e *E, threads, evReturn int, desc string, n int) {
	if threads > 0 {
		vsim.Sleep(100 * 24 * time.Hour)
		left := vsim.Others()
		e.Assert(left == 0, "parallel-worker-outlives", "%d workers never end (%s, %d items)", left, desc, n)
	}
	returned := false
	for _, ev := range vsim.Recs() {
		e.Assert(!returned || ev.Kind == evReturn, "parallel-worker-outlives", "%d threads still run, and at least one works after the call has returned (%s, %d items)", threads, desc, n)
		returned = returned || ev.Kind == evReturn
	}
}

func init() {
	register(&Check{
		ID: "C01", Race: true, Quick: 120000, Thorough: 1500000,
		Rule: "a run = random items, element-wise transform chain, item types, parallelism setting, 1-3 concurrent uses, under a seeded schedule of the workers' statements; non-trivial = at least 2 workers ran; distinct = by input, setting, chain and result",
		Real: []string{"stream.Parallel and the stream transforms", "iter", "goroutines and WaitGroup of the library (scheduled by the simulator)"},
		Stub: []string{"thread scheduler (seeded)", "user transforms and sources (generated)"},
		Run: func(e *E) {
			users := 1
			if e.OneIn(5) {
				users = 2 + e.Draw(2)
			}
			one := func(who string) func() {
				n := size(e)
				in := items(e, n)
				info, desc := pinfo(e, n)
				c := intChain(e, 2)
				kind := e.Draw(6)
				if users == 1 && e.OneIn(400) { // a crowd of workers that have workers
					n = 100 + e.Draw(500)
					in = items(e, n)
					info, desc = []stream.PInfo{{N: 1 + n/(2+e.Draw(4)), PUnit: stream.Threads}}, fmt.Sprint("crowd of ", n)
					c = intChain(e, 0)
					c.name = "parallel by 2(" + c.name + ")"
					inner := stream.Parallel(c.apply, stream.PInfo{N: 2, PUnit: stream.Threads})
					c.apply = inner
					if e.Bool() { // all start before any of them goes on
						c.apply = func(it iter.Iter[int]) iter.Iter[int] {
							e.Fault("slow worker")
							vsim.Sleep(time.Hour)
							return inner(it)
						}
					}
				}
				e.State(in, desc, c.name, kind)
				if n > 1 {
					e.NonTrivial()
				}
				return func() {
					switch kind {
					case 0, 1:
						parallelCase(e, who, in, c, info, desc)
					case 2:
						parallelCase(e, who, in, then(c, "string", func(n int) string { vsim.Y(0); return fmt.Sprint("s", n) }), info, desc)
					case 3:
						parallelCase(e, who, in, then(c, "any", func(n int) any {
							if n%5 == 0 {
								return nil
							}
							return n
						}), info, desc)
					case 4: // both item types are interfaces, different ones
						ein := make([]any, n)
						for i := range ein {
							ein[i] = in[i]
						}
						a := elementwise[any, int]{"int", stream.Map(func(a any) int { return a.(int) }), func(a any) []int { return []int{a.(int)} }}
						b := elementwise[any, int]{"any|" + c.name, func(it iter.Iter[any]) iter.Iter[int] { return c.apply(a.apply(it)) }, func(v any) []int { return c.model(v.(int)) }}
						parallelCase(e, who, ein, then(b, "stringer", func(n int) fmt.Stringer { return named{n} }), info, desc)
					case 5:
						parallelCase(e, who, in, then(c, "slice", func(n int) []int { return []int{n, n + 1} }), info, desc)
					}
				}
			}
			if users == 1 {
				one("main")()
				return
			}
			for i := 0; i < users; i++ {
				fn := one(fmt.Sprint("user", i))
				e.Go(fmt.Sprint("user", i), fn)
			}
			e.Join()
		},
	})

	register(&Check{
		ID: "C02", Race: true, Quick: 120000, Thorough: 1500000,
		Rule: "a run = random items, transform chain with a random set of failing items, optional source error, parallelism setting, under a seeded schedule; non-trivial = at least two workers and at least one failure; distinct = by input, failing set, setting and outcome",
		Real: []string{"stream.Parallel and the stream transforms", "iter", "goroutines and WaitGroup of the library (scheduled by the simulator)"},
		Stub: []string{"thread scheduler (seeded)", "user transforms and sources (generated, failing)"},
		Run: func(e *E) {
			n := size(e)
			in := items(e, n)
			info, desc := pinfo(e, n)
			srcErrAt := -1
			if e.OneIn(5) {
				srcErrAt = e.Draw(n + 1)
			}
			errOf := map[int]error{}
			for i := range in {
				if e.Draw(4) == 1 {
					errOf[in[i]] = fmt.Errorf("item %d failed", in[i])
				}
			}
			if e.OneIn(3) {
				clear(errOf)
			}
			if e.OneIn(3) && n > 0 { // exactly one
				clear(errOf)
				k := in[e.Draw(n)]
				errOf[k] = drawErr(e, fmt.Sprintf("item %d failed", k))
			}
			errSource := drawErr(e, "source failed")
			kind := e.Draw(6)
			const (
				evFail = 1 + iota
				evStep
				evReturn
			)
			lame := e.OneIn(4)
			step := func(v int) (int, error) {
				vsim.Rec(evStep, int64(v), 0, "")
				defer vsim.Rec(evStep, int64(v), 1, "")
				vsim.Y(0)
				if lame {
					stall(e, 8, "slow worker")
				}
				if err := errOf[v]; err != nil {
					e.Fault("transform error")
					vsim.Rec(evFail, int64(v), 0, "")
					vsim.Y(0)
					return v, err
				}
				vsim.Y(0)
				return v + 7, nil
			}
			i := 0
			src := iter.OfIter(func() (int, error) {
				if i == srcErrAt {
					e.Fault("source error")
					return 0, errSource
				}
				if i < n {
					i++
					return in[i-1], nil
				}
				return 0, iter.EOI
			})
			e.Trace("items %v failing %v source error at %d, %s, kind %d", in, errOf, srcErrAt, desc, kind)
			var (
				outcome string
				first   error
				count   int
			)
			pull := func(next func() (any, error)) {
				for {
					v, err := next()
					if err != nil {
						first = err
						break
					}
					count++
					e.Trace("item %v", v)
					e.Assert(count <= 3*n+3, "parallel-endless", "more items than the source could give")
				}
				for k := 0; k < 3; k++ {
					_, err := next()
					e.Assert(err == first, "parallel-error-not-sticky", "first %v, then %v", first, err)
				}
			}
			live := -1
			switch kind {
			case 0, 1:
				it := stream.Parallel(stream.MapError(step), info...)(src)
				vsim.Rec(evReturn, 0, 0, "")
				live = vsim.Others()
				pull(func() (any, error) { v, err := it.Next(); return v, err })
			case 2:
				it := stream.Parallel(func(s iter.Iter[int]) iter.Iter[string] {
					return stream.Map(func(v int) string { vsim.Y(0); return fmt.Sprint(v) })(stream.MapError(step)(s))
				}, info...)(src)
				vsim.Rec(evReturn, 0, 0, "")
				live = vsim.Others()
				pull(func() (any, error) { v, err := it.Next(); return v, err })
			case 5: // workers that have workers
				inner, d := pinfo(e, n)
				desc += ", " + d
				it := stream.Parallel(stream.Parallel(stream.MapError(step), inner...), info...)(src)
				vsim.Rec(evReturn, 0, 0, "")
				live = vsim.Others()
				pull(func() (any, error) { v, err := it.Next(); return v, err })
			case 3:
				it := stream.Parallel(func(s iter.Iter[int]) iter.Iter[int] {
					return stream.MapError(step)(stream.Filter(func(v int) bool { return v%3 != 0 })(s))
				}, info...)(src)
				vsim.Rec(evReturn, 0, 0, "")
				live = vsim.Others()
				pull(func() (any, error) { v, err := it.Next(); return v, err })
			case 4: // an item fails after some of what it expands to
				it := stream.Parallel(func(s iter.Iter[int]) iter.Iter[int] {
					return stream.MapError(func(v int) (int, error) {
						if v%10 == 1 {
							return step(v / 10)
						}
						return v, nil
					})(stream.ExpandSlices(stream.Map(func(v int) []int { return []int{v * 10, v*10 + 1} })(s)))
				}, info...)(src)
				vsim.Rec(evReturn, 0, 0, "")
				live = vsim.Others()
				pull(func() (any, error) { v, err := it.Next(); return v, err })
			}
			outlives(e, live, evReturn, desc, n)
			happened := map[error]bool{}
			for _, ev := range vsim.Recs() {
				if ev.Kind == evFail {
					happened[errOf[int(ev.A)]] = true
				}
			}
			if srcErrAt >= 0 {
				happened[errSource] = true
			}
			mustFail := srcErrAt >= 0
			good := 0
			for _, v := range in {
				if kind == 3 && v%3 == 0 {
					continue
				}
				good++
				if kind == 4 {
					good++
				}
				if errOf[v] != nil {
					mustFail = true
				}
			}
			outcome = fmt.Sprint(count, first)
			e.State(in, desc, kind, len(errOf), srcErrAt, outcome)
			if n > 1 && mustFail {
				e.NonTrivial()
			}
			if mustFail {
				e.Assert(first != iter.EOI, "parallel-error-lost", "items %v, failing %v, source error at %d (%s): ended normally after %d items", in, errOf, srcErrAt, desc, count)
				e.Assert(happened[first], "parallel-error-wrong", "reported %v, which nothing returned", first)
				e.Assert(count == 0, "parallel-partial", "%d items before the error %v (%s)", count, first, desc)
			} else {
				e.Assert(first == iter.EOI, "parallel-error-made-up", "nothing failed, but %v is reported", first)
				e.Assert(count == good, "parallel-count", "%d items instead of %d (%s)", count, good, desc)
			}
		},
	})

	register(&Check{
		ID: "C03", Race: true, Quick: 120000, Thorough: 1500000,
		Rule: "a run = random number of items and parallelism setting, workers observed through the transform they are given, under a seeded schedule; non-trivial = at least two workers; distinct = by number of items, setting, and split",
		Real: []string{"stream.Parallel", "iter", "goroutines and WaitGroup of the library (scheduled by the simulator)"},
		Stub: []string{"thread scheduler (seeded)", "user transforms (observing)"},
		Run: func(e *E) {
			n := size(e)
			if e.OneIn(12) {
				n = 50 + e.Draw(200)
				if e.OneIn(8) {
					n = 250 + e.Draw(4000)
				}
			}
			lame := e.OneIn(4)
			in := items(e, n)
			info, desc := pinfo(e, n)
			if n > 1000 { // not a thread for every item
				info, desc = nil, "default"
				if e.OneIn(3) {
					k := 1 + e.Draw(1200)
					info, desc = []stream.PInfo{{N: k, PUnit: stream.Threads}}, fmt.Sprintf("threads=%d", k)
				} else if e.Bool() {
					k := n/1200 + 1 + e.Draw([]int{3, n}[e.Draw(2)])
					info, desc = []stream.PInfo{{N: k, PUnit: stream.Items}}, fmt.Sprintf("items=%d", k)
				}
			}
			fails := e.OneIn(6)
			const (
				evStart = 1 + iota
				evItem
				evItemEnd
				evReturn
			)
			// Every application of the transform is one worker
			transform := func(it iter.Iter[int]) iter.Iter[int] {
				w := vsim.Rec(evStart, 0, 0, "")
				return stream.MapError(func(v int) (int, error) {
					vsim.Rec(evItem, int64(w), int64(v), "")
					defer vsim.Rec(evItemEnd, int64(w), int64(v), "")
					vsim.Y(0)
					if lame {
						stall(e, 8, "slow worker")
					}
					if fails && v%11 == 3 {
						return 0, fmt.Errorf("failed")
					}
					return v, nil
				})(it)
			}
			me := vsim.TaskID()
			e.Trace("%d items, %s", n, desc)
			it := stream.Parallel(transform, info...)(iter.OfSlice(in))
			vsim.Rec(evReturn, 0, 0, "")
			others := vsim.Others()
			got, err := collect(it, n+1)
			outlives(e, others, evReturn, desc, n)
			workers := map[int][]int{}
			tasks := map[int]bool{}
			var order []int
			for _, ev := range vsim.Recs() {
				switch ev.Kind {
				case evStart:
					order = append(order, ev.Seq)
					workers[ev.Seq] = nil
					tasks[ev.Task] = true
				case evItem:
					workers[int(ev.A)] = append(workers[int(ev.A)], int(ev.B))
				}
			}
			var split []int
			seen := map[int]int{}
			pos := map[int]int{}
			for i, v := range in {
				pos[v] = i
			}
			for _, w := range order {
				split = append(split, len(workers[w]))
				last := -1
				for _, v := range workers[w] {
					seen[v]++
					e.Assert(pos[v] > last, "parallel-order", "a worker got item %d out of order (%s)", v, desc)
					last = pos[v]
				}
			}
			e.State(n, desc, split)
			if len(order) > 1 {
				e.NonTrivial()
			}
			failing := false
			for _, v := range in {
				if fails && v%11 == 3 {
					failing = true
				}
			}
			for _, v := range in {
				if failing {
					e.Assert(seen[v] <= 1, "parallel-twice", "item %d was processed %d times (%s)", v, seen[v], desc)
				} else {
					e.Assert(seen[v] == 1, "parallel-once", "item %d of %d was processed %d times (%s)", pos[v], n, seen[v], desc)
				}
			}
			if !failing {
				e.Assert(err == iter.EOI && len(got) == n, "parallel-result", "%d items of %d, %v (%s)", len(got), n, err, desc)
			}
			W := len(order)
			switch {
			case n == 0:
				e.Assert(W == 0, "parallel-workers", "no items, but %d workers", W)
			case n == 1:
				e.Assert(W == 1 && tasks[me] && len(tasks) == 1, "parallel-single", "one item, processed by %d workers, in the caller's thread: %v", W, tasks[me])
			case len(info) == 0:
				root := math.Sqrt(float64(n))
				e.Assert(math.Abs(float64(W)-root) <= 1, "parallel-workers", "%d items: %d workers, square root %.2f", n, W, root)
			case info[0].PUnit == stream.Threads:
				e.Assert(W >= 1 && W <= max(1, info[0].N), "parallel-workers", "%d items, %s: %d workers", n, desc, W)
			default:
				for _, s := range split {
					e.Assert(s <= max(1, info[0].N), "parallel-bucket", "%d items, %s: a worker got %d items (%v)", n, desc, s, split)
				}
			}
		},
	})
}
