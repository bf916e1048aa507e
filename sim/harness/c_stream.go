package harness

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/tuple"

	"verif.local/sim/vsim"
)

func expectSeq(e *E, what string, got []int, end error, want seq, in any) {
	expectItems(e, "stream-mismatch", what, got, want.items, in)
	e.Assert(endOK(end, want.end), "stream-end", "%s: ended with %v instead of %v (%v)", what, end, want.end, in)
}

// ---- C15: sources and their models

type modelSource struct {
	items  []int
	end    error
	anyOrd bool          // the items come in any order (a map)
	more   func(int) int // endless: item i
	asked  func() int    // how often the underlying function was asked; nil if unknown
	name   string
}

// iterSource draws a source of ints, with its model
func iterSource(e *E, depth int) (iter.Iter[int], modelSource) {
	n := e.Draw(6)
	if e.OneIn(200) {
		n = 6 + e.Draw(300)
	}
	items := smallItems(e, n)
	switch k := e.Draw(12); {
	case k <= 2: // any function: values with errors, and it revives after its end
		var end error = iter.EOI
		if e.Bool() {
			end = drawErr(e, "function failed")
			e.Fault("source error")
		}
		revive := e.Bool()
		calls, i := 0, 0
		it := iter.OfIter(func() (int, error) {
			calls++
			if i < len(items) {
				i++
				return items[i-1], nil
			}
			if i == len(items) {
				i++
				return 99, end // the value is to be ignored
			}
			if revive {
				e.Fault("revived source asked")
				return 1000 + calls, nil
			}
			return 0, errors.New("another error")
		})
		return it, modelSource{items: items, end: end, asked: func() int { return calls }, name: fmt.Sprintf("function %v %v", items, end)}
	case k == 3:
		return iter.Of(items...), modelSource{items: items, end: iter.EOI, name: fmt.Sprintf("Of%v", items)}
	case k == 4:
		return iter.OfSlice(items), modelSource{items: items, end: iter.EOI, name: fmt.Sprintf("OfSlice%v", items)}
	case k == 5:
		return iter.OfEmpty[int](), modelSource{end: iter.EOI, name: "OfEmpty"}
	case k == 6:
		v := e.Draw(9)
		return iter.OfOne(v), modelSource{items: []int{v}, end: iter.EOI, name: fmt.Sprint("OfOne ", v)}
	case k == 7:
		m := map[int]int{}
		var want []int
		for i, v := range items {
			m[i] = v
			want = append(want, i*1000+v)
		}
		if len(items) == 0 && e.Bool() {
			m = nil
		}
		if len(items) > 0 && e.OneIn(3) { // keys that are not equal to themselves
			fm := map[float64]int{}
			want = nil
			for i, v := range items {
				if i%3 == 0 {
					fm[math.NaN()] = v
					want = append(want, -7000+v)
				} else {
					fm[float64(i)/2] = v
					want = append(want, i*1000+v)
				}
			}
			next := iter.OfMap(fm)
			return iter.OfIter(func() (int, error) {
				t, err := next.Next()
				if err != nil {
					e.Assert(t == tuple.Two[float64, int]{}, "value-with-error", "map source: %v with %v", t, err)
				}
				if t.T != t.T {
					return -7000 + t.U, err
				}
				return int(t.T*2)*1000 + t.U, err
			}), modelSource{items: want, end: iter.EOI, anyOrd: true, name: fmt.Sprintf("OfMap%v with keys that are no numbers", items)}
		}
		next := iter.OfMap(m)
		it := iter.OfIter(func() (int, error) {
			t, err := next.Next()
			if err != nil {
				e.Assert(t == tuple.Two[int, int]{}, "value-with-error", "map source: %v with %v", t, err)
			}
			return t.T*1000 + t.U, err
		})
		return it, modelSource{items: want, end: iter.EOI, anyOrd: true, name: fmt.Sprintf("OfMap%v", m)}
	case k == 8:
		init := items
		lits := append([]int{}, init...)
		seed := 0
		if len(lits) > 0 {
			seed, lits = lits[len(lits)-1], lits[:len(lits)-1]
		}
		f := func(n int) int { return n*2 + 1 }
		return iter.OfIter(iter.InfiniteIterGen(f, init...)), modelSource{name: fmt.Sprintf("Infinite%v", init), more: func(i int) int {
			if i < len(lits) {
				return lits[i]
			}
			v := seed
			for ; i >= len(lits); i-- {
				v = f(v)
			}
			return v
		}}
	case k == 9:
		return iter.OfIter(iter.FibonnaciIterGen()), modelSource{name: "Fibonacci", more: func(i int) int {
			a, b := 1, 1
			for ; i > 0; i-- {
				a, b = b, a+b
			}
			return a
		}}
	}
	if depth <= 0 {
		return iter.OfSlice(items), modelSource{items: items, end: iter.EOI, name: fmt.Sprintf("OfSlice%v", items)}
	}
	if e.OneIn(3) {
		it, m := iterSource(e, depth-1)
		err := drawErr(e, "replacement error")
		if e.OneIn(4) {
			err = iter.EOI
		}
		m.end, m.asked, m.name = err, nil, fmt.Sprintf("SetError(%s)", m.name)
		return iter.SetError(it, err), m
	}
	var parts []iter.Iter[int]
	out := modelSource{end: iter.EOI, name: "Concat("}
	n, sub := e.Draw(4), depth-1
	if e.OneIn(12) { // many parts
		n, sub = []int{6, 12, 20, 70, 300}[e.Draw(5)], 0
		if e.OneIn(200) {
			n = 400 + e.Draw(2500)
		}
	}
	for ; n > 0; n-- {
		if e.OneIn(4) {
			parts = append(parts, nil)
			out.name += "nil,"
			continue
		}
		it, m := iterSource(e, sub)
		if m.more != nil || m.anyOrd || n > 20 && m.end != iter.EOI {
			continue
		}
		out.name += m.name
		if e.OneIn(3) { // a part that was used before
			if v, err := it.Next(); err == nil {
				m.items = m.items[1:]
				out.name += "[used]"
				if e.Bool() {
					it.Unread(v + 50)
					it.Unread(v + 51)
					m.items = append([]int{v + 51, v + 50}, m.items...)
					out.name += "[unread]"
				}
			}
		}
		out.name += ","
		parts = append(parts, it)
		if out.end == iter.EOI {
			out.items = append(out.items, m.items...)
			out.end = m.end
		}
	}
	out.name += ")"
	if e.Bool() {
		return iter.Concat(parts...), out
	}
	return iter.OfIter(iter.ConcatIterGen(parts)), out
}

func init() {
	register(&Check{
		ID: "C15", Several: true, Quick: 1600000, Thorough: 40000000,
		Rule: "a run = a random source (function that may fail and revive, slice, map, single, endless, concatenation with nil, used and failing parts, replaced error) and a random history of reads and unreads; non-trivial = the end was reached or something was unread; distinct = by source and history",
		Real: []string{"iter.IterImpl", "iter.Of*", "iter.*IterGen", "iter.Concat", "iter.SetError", "iter.Maybe"},
		Stub: []string{"user functions (generated, failing, reviving)", "map iteration order (seeded)"},
		Run: func(e *E) {
			it, m := iterSource(e, 2)
			e.Trace("source %s then %v", m.name, m.end)
			e.State(m.name)
			var buf []int
			pos, ended := 0, false
			left := map[int]int{}
			for _, v := range m.items {
				left[v]++
			}
			read := func() {
				var v int
				var err error
				if e.OneIn(6) {
					r := iter.Maybe(it)
					if e.Assert(r.HasResult() != r.HasError(), "maybe", "Maybe gives neither or both of value and error"); r.HasResult() {
						v = r.Get()
					} else {
						err = r.Error()
					}
				} else {
					v, err = it.Next()
				}
				e.Trace("next: %d, %v", v, err)
				switch {
				case len(buf) > 0:
					w := buf[len(buf)-1]
					buf = buf[:len(buf)-1]
					e.Assert(err == nil && v == w, "unread", "%s: unread value %d, got %d, %v", m.name, w, v, err)
				case m.more != nil:
					w := m.more(pos)
					pos++
					e.Assert(err == nil && v == w, "iter-mismatch", "%s: item %d is %d instead of %d, %v", m.name, pos-1, v, w, err)
				case pos < len(m.items):
					e.Assert(err == nil, "iter-short", "%s: %v instead of item %d", m.name, err, pos)
					if m.anyOrd {
						e.Assert(left[v] > 0, "iter-mismatch", "%s: %d is no remaining item", m.name, v)
						left[v]--
					} else {
						e.Assert(v == m.items[pos], "iter-mismatch", "%s: item %d is %d instead of %d", m.name, pos, v, m.items[pos])
					}
					pos++
				default:
					ended = true
					e.NonTrivial()
					e.Assert(err == m.end, "iter-end", "%s: %v (value %d) instead of %v", m.name, err, v, m.end)
					e.Assert(v == 0, "value-with-error", "%s: value %d with %v", m.name, v, err)
				}
				if m.asked != nil {
					e.Assert(m.asked() == pos+b2i(ended), "asked", "%s: the function was asked %d times for %d items (ended %v)", m.name, m.asked(), pos, ended)
				}
			}
			steps, reads := e.Draw([]int{6, 15, 40}[e.Draw(3)]), 2
			if e.OneIn(2000) { // a deep stack of unread values
				steps, reads = drawBulk(e)/16, e.Draw(2)
			}
			if m.more != nil && e.OneIn(1000) { // far into an endless source
				steps, reads = 3000+e.Draw(4000), 3
			}
			for n := steps; n > 0; n-- {
				if e.Draw(3) < reads {
					read()
					e.State(0)
				} else {
					v := e.Draw(200)
					it.Unread(v)
					buf = append(buf, v)
					e.NonTrivial()
					e.State(v)
					e.Trace("unread %d", v)
				}
			}
			if m.more == nil {
				for k := len(buf) + len(m.items) - pos + 2; k > 0; k-- {
					read()
				}
			}
		},
	})

	register(&Check{
		ID: "C16", Several: true, Budget: 80000000, Quick: 1400000, Thorough: 30000000,
		Rule: "a run = a random chain of 1-4 stream operations over a random source that ends or fails at a random item, with operations that fail on some items; non-trivial = a failure occurred; distinct = by chain, items and end",
		Real: []string{"all operations of stream", "iter", "math and conv as used by them"},
		Stub: []string{"sources and user functions (generated, failing)", "thread scheduler (seeded)", "map iteration order (seeded)"},
		Run: func(e *E) {
			p := pipeline(e, e.Range(1, 4), false)
			in := drawSeq(e, []int{4, 10, 40}[e.Draw(3)])
			if e.OneIn(1000) { // very many items
				p = pipeline(e, e.Range(1, 2), false)
				items := make([]int, []int{260, 5000, 33000, 70000}[e.Draw(4)]+e.Draw(20))
				for i := range items {
					items[i] = i%7 - 2
					if len(in.items) > 0 {
						items[i] = in.items[i%len(in.items)]
					}
				}
				in.items = items
				if e.OneIn(3) { // and counts of them
					n := uint(len(items) - 12 + e.Draw(20))
					if p = limitStage(n); e.Bool() {
						p = skipStage(n)
					}
				}
			}
			most := len(in.items) // what one run can hold: threads, steps
			if strings.Contains(p.name, "parallel") {
				most = 700
			} else if strings.Count(p.name, "expand") > 1 {
				most = 3000
			}
			in.items = in.items[:min(most, len(in.items))]
			want := p.model(in)
			e.Trace("%s over %v then %v", p.name, in.items, in.end)
			src := &countingSource{e: e, s: in}
			var it nexter[int]
			if e.OneIn(4) && in.end == iter.EOI {
				it = ofIter(p.apply(iter.OfSlice(in.items)))
			} else {
				it = ofIter(p.apply(iter.OfIter(src.next)))
			}
			got, end := drain(e, p.name, it, nil, len(want.items), same)
			expectSeq(e, p.name, got, end, want, fmt.Sprint(in.items, " then ", in.end))
			e.Assert(src.over == 0, "read-after-end", "%s: the source was asked again %d times after its end", p.name, src.over)
			e.State(p.name, in)
			if in.end != iter.EOI || want.end != iter.EOI {
				e.NonTrivial()
			}
		},
	})

	register(&Check{
		ID: "C17", Several: true, Budget: 40000000, Quick: 1200000, Thorough: 30000000,
		Rule: "a run = chains of 1-4 lazy operations built one after another on one shared source (finite, failing or endless) and pulled in random amounts, with the number of source items read compared with a demand driven reference after every step; non-trivial = more than one batch; distinct = by chains, items and pulls",
		Real: []string{"stream.Map, MapError, Filter, Skip, Limit, Peek, ExpandSlices, Distinct, Duplicate, AllMatch, AnyMatch, NoneMatch, ReduceToBool, Generator", "iter"},
		Stub: []string{"sources (counting, failing, endless)", "user functions", "clock"},
		Run: func(e *E) {
			in := drawSeq(e, []int{6, 20, 60}[e.Draw(3)])
			lib := &countingSource{e: e, s: in, endless: e.OneIn(3)}
			ref := &countingSource{e: e, s: in, endless: lib.endless}
			src := iter.OfIter(lib.next)
			rsrc := sticky(ref.next)
			var names []string
			batches := e.Range(1, 4)
			for b := 0; b < batches; b++ {
				p := lazyPipeline(e, e.Range(1, 4))
				if lib.endless {
					p = cat(limitStage(uint(5+e.Draw(30))), p) // some operations need an end
				}
				names = append(names, p.name)
				it, rit := p.apply(src), p.lazy(rsrc)
				e.Trace("batch %d: %s", b, p.name)
				e.Assert(lib.asked <= ref.asked, "eager", "%s: building it took %d items from the source", p.name, lib.asked-ref.asked)
				pulls := e.Draw(12)
				if b == 0 && lib.endless && e.OneIn(2000) { // very many items
					n := []int{260, 5000, 33000, 66000}[e.Draw(4)] + e.Draw(20)
					if p = limitStage(uint(n)); e.Bool() {
						p = skipStage(uint(n))
					}
					names[0] = p.name
					it, rit = p.apply(src), p.lazy(rsrc)
					pulls = n - 4 + e.Draw(20)
				} else if e.OneIn(100) {
					pulls = 12 + e.Draw(300)
				}
				for i := 0; i < pulls; i++ {
					if e.OneIn(10) {
						vsim.Sleep(time.Second)
					}
					w, werr := rit()
					v, err := it.Next()
					e.Trace("pull: %d, %v; read %d, needed %d", v, err, lib.asked, ref.asked)
					e.Assert(v == w && endOK(err, werr), "stream-mismatch", "%s: %d, %v instead of %d, %v (%v, batch %d)", p.name, v, err, w, werr, in, b)
					e.Assert(lib.asked <= ref.asked, "eager", "%s: read %d source items where %d suffice (%v, batch %d, pull %d)", p.name, lib.asked, ref.asked, in, b, i)
				}
				e.State(p.name, pulls)
			}
			e.State(in, lib.endless)
			if batches > 1 {
				e.NonTrivial()
			}
		},
	})

	register(&Check{
		ID: "C18", Race: true, Quick: 160000, Thorough: 4000000,
		Rule: "a run = one random pipeline of 1-4 operations, built once, applied to 2-4 sources (finite or failing) that are drained one after the other, interleaved by a seeded choice, or in concurrent threads; non-trivial = interleaved or concurrent; distinct = by pipeline, sources and mode",
		Real: []string{"all operations of stream", "iter", "math and conv as used by them"},
		Stub: []string{"sources and user functions", "thread scheduler (seeded)", "map iteration order (seeded)"},
		Run: func(e *E) {
			p := pipeline(e, e.Range(1, 4), true)
			mode := e.Draw(3)
			if mode == 2 && !p.plain {
				mode = 1
			}
			n := e.Range(2, 4)
			ins := make([]seq, n)
			for i := range ins {
				ins[i] = drawSeq(e, 15)
			}
			if e.OneIn(100) {
				for i := range ins {
					ins[i] = drawSeq(e, 150)
				}
			}
			if e.OneIn(4) {
				ins[1] = ins[0]
			}
			e.Trace("%s mode %d over %v", p.name, mode, ins)
			e.State(p.name, mode, ins)
			if mode > 0 {
				e.NonTrivial()
			}
			open := func(i int) iter.Iter[int] { return p.apply(iter.OfIter((&countingSource{e: e, s: ins[i]}).next)) }
			check := func(i int, got []int, end error) {
				expectSeq(e, fmt.Sprintf("%s: use %d (mode %d)", p.name, i, mode), got, end, p.model(ins[i]), fmt.Sprint(ins))
			}
			switch mode {
			case 0:
				for i := range ins {
					got, end := collect(open(i), 1000000)
					check(i, got, end)
				}
			case 1:
				its := make([]iter.Iter[int], n)
				outs := make([][]int, n)
				var live []int
				opened := 0
				for opened < n || len(live) > 0 {
					k := e.Draw(len(live) + b2i(opened < n))
					if k == len(live) {
						its[opened] = open(opened)
						live = append(live, opened)
						opened++
						continue
					}
					i := live[k]
					v, err := its[i].Next()
					if err == nil {
						outs[i] = append(outs[i], v)
						continue
					}
					check(i, outs[i], err)
					if e.OneIn(4) {
						_, again := its[i].Next()
						e.Assert(again == err, "not-sticky", "%s: %v, then %v", p.name, err, again)
					}
					live = append(live[:k], live[k+1:]...)
				}
			default:
				for i := range ins {
					e.Go(fmt.Sprint("user", i), func() {
						got, end := collect(open(i), 1000000)
						check(i, got, end)
					})
				}
				e.Join()
			}
		},
	})
}

var _ = reflect.DeepEqual
var _ = vsim.Y
