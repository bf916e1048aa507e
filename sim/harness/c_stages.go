package harness

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"

	"verif.local/sim/vsim"
)

// seq is a finished sequence: its items and what ends it
type seq struct {
	items []int
	end   error
}

// String does not depend on addresses, unlike %v of the struct
func (s seq) String() string { return fmt.Sprintf("%v then %v", s.items, s.end) }

// errAny stands for an error the library makes up itself
var errAny = errors.New("(any error of the library's own)")

// stage is one operation (or a fixed combination) on a stream of ints, with its reference models
type stage struct {
	name  string
	apply func(iter.Iter[int]) iter.Iter[int]
	model func(seq) seq
	lazy  func(puller) puller // demand driven reference; nil if the operation may read everything at once
	plain bool                // may be applied concurrently
}

// puller is the demand driven reference of an iterator
type puller func() (int, error)

func sticky(p puller) puller {
	var end error
	return func() (int, error) {
		if end != nil {
			return 0, end
		}
		v, err := p()
		if err != nil {
			end = err
			return 0, err
		}
		return v, nil
	}
}

func cat(a, b stage) stage {
	s := stage{name: a.name + " | " + b.name, plain: a.plain && b.plain,
		apply: func(it iter.Iter[int]) iter.Iter[int] { return b.apply(a.apply(it)) },
		model: func(s seq) seq { return b.model(a.model(s)) }}
	if a.lazy != nil && b.lazy != nil {
		s.lazy = func(p puller) puller { return b.lazy(a.lazy(p)) }
	}
	return s
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func aggregate(f func([]int) []int) func(seq) seq {
	return func(s seq) seq {
		if s.end != iter.EOI {
			return seq{nil, s.end}
		}
		return seq{f(s.items), iter.EOI}
	}
}

// distinctStage is Distinct or Duplicate of some type
func distinctStage[T comparable](typ string, twice bool, enc func(int) T, dec func(T) int) stage {
	op, name := stream.Distinct[T], "distinct "
	if twice {
		op, name = stream.Duplicate[T], "duplicate "
	}
	keepOf := func() func(int) bool {
		seen := map[T]int{}
		return func(n int) bool {
			v := enc(n)
			seen[v]++
			if twice {
				return seen[v] == 2
			}
			return v != v || seen[v] == 1
		}
	}
	out := func(n int) int { return dec(enc(n)) }
	return stage{name: name + typ, plain: true,
		apply: func(it iter.Iter[int]) iter.Iter[int] { return stream.Map(dec)(op(stream.Map(enc)(it))) },
		model: func(s seq) seq {
			t := filterModel(keepOf())(s)
			items := []int{}
			for _, v := range t.items {
				items = append(items, out(v))
			}
			return seq{items, t.end}
		},
		lazy: func(p puller) puller {
			q := filterLazy(keepOf())(p)
			return func() (int, error) {
				v, err := q()
				if err != nil {
					return 0, err
				}
				return out(v), nil
			}
		}}
}

// avgStage is the average of a narrow integer type, with items about half as large as the type allows
func avgStage[T int8 | int16 | int32 | int64 | int | uint8 | uint16 | uint32 | uint64](name string, avg func(iter.Iter[T]) iter.Iter[T], lo int64, hi uint64) stage {
	item := func(n int) T {
		if n%5 == 0 { // small
			return T(abs(n) % 3)
		}
		f := T(hi/256 + 1)
		if lo == 0 {
			return T(abs(n)%128)*f + T(abs(n)%2)
		}
		return T(n%64)*f + T(n%2)
	}
	wide := func(v T) *big.Int {
		if v > 0 {
			return new(big.Int).SetUint64(uint64(v))
		}
		return big.NewInt(int64(v))
	}
	code := func(v T) int { return int(v>>1)%1000003*2 + int(v&1) }
	return stage{name: name, plain: true, apply: func(it iter.Iter[int]) iter.Iter[int] {
		return stream.Map(code)(avg(stream.Map(item)(it)))
	}, model: func(s seq) seq {
		t, most, least := new(big.Int), new(big.Int).SetUint64(hi), big.NewInt(lo)
		for _, v := range s.items {
			if t.Add(t, wide(item(v))); t.Cmp(most) > 0 || t.Cmp(least) < 0 {
				return seq{nil, errAny}
			}
		}
		if s.end != iter.EOI || len(s.items) == 0 {
			return seq{nil, s.end}
		}
		n := big.NewInt(int64(len(s.items)))
		q, r := new(big.Int).QuoRem(t, n, new(big.Int))
		if r.Abs(r).Lsh(r, 1).Cmp(n) >= 0 { // half away from zero
			q.Add(q, big.NewInt(int64(t.Sign())))
		}
		if q.Sign() < 0 {
			return seq{[]int{code(T(q.Int64()))}, iter.EOI}
		}
		return seq{[]int{code(T(q.Uint64()))}, iter.EOI}
	}}
}

func roundDiv(a, b int) int { // half away from zero
	q, r := a/b, a%b
	if 2*abs(r) >= b {
		if a < 0 {
			q--
		} else {
			q++
		}
	}
	return q
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// lazyStage draws an operation that works item by item
func lazyStage(e *E) stage {
	switch e.Draw(13) {
	case 0:
		k := e.Range(-2, 3)
		f := func(n int) int { vsim.Y(0); return n + k }
		return stage{name: fmt.Sprintf("map +%d", k), plain: true, apply: stream.Map(f),
			model: func(s seq) seq {
				var out []int
				for _, v := range s.items {
					out = append(out, f(v))
				}
				return seq{out, s.end}
			},
			lazy: func(p puller) puller {
				return sticky(func() (int, error) {
					v, err := p()
					if err != nil {
						return 0, err
					}
					return f(v), nil
				})
			}}
	case 1, 2:
		m := e.Range(2, 4)
		r := e.Draw(m)
		keep := func(n int) bool { vsim.Y(0); return abs(n)%m != r }
		if e.OneIn(6) {
			keep = func(n int) bool { return false }
		}
		return stage{name: fmt.Sprintf("filter %%%d!=%d", m, r), plain: true, apply: stream.Filter(keep), model: filterModel(keep), lazy: filterLazy(keep)}
	case 3:
		m, r := e.Range(2, 9), e.Draw(9)
		errItem := drawErr(e, fmt.Sprintf("operation failed on %%%d=%d", m, r))
		f := func(n int) (int, error) {
			vsim.Y(0)
			if abs(n)%m == r {
				return n * 7, errItem // the value is to be ignored
			}
			return n - 1, nil
		}
		return stage{name: fmt.Sprintf("maperror %%%d=%d", m, r), plain: true, apply: stream.MapError(f),
			model: func(s seq) seq {
				var out []int
				for _, v := range s.items {
					w, err := f(v)
					if err != nil {
						return seq{out, err}
					}
					out = append(out, w)
				}
				return seq{out, s.end}
			},
			lazy: func(p puller) puller {
				return sticky(func() (int, error) {
					v, err := p()
					if err != nil {
						return 0, err
					}
					return f(v)
				})
			}}
	case 4:
		n := uint(e.Draw(6))
		if e.OneIn(40) {
			n = uint(e.Draw(400))
		} else if e.OneIn(80) {
			n = hugeCount(e)
		}
		return skipStage(n)
	case 5, 6:
		n := uint(e.Draw(8))
		if e.OneIn(40) {
			n = uint(e.Draw(400))
		} else if e.OneIn(80) {
			n = hugeCount(e)
		}
		return limitStage(n)
	case 7:
		return stage{name: "peek", plain: true, apply: stream.Peek(func(int) { vsim.Y(0) }), model: func(s seq) seq { return s }, lazy: sticky}
	case 8:
		m := e.Range(2, 4)
		dup := func(n int) (out []int) {
			vsim.Y(0)
			for i := 0; i < abs(n)%m; i++ {
				out = append(out, n+i)
			}
			if abs(n)%5 == 1 {
				return nil
			}
			return
		}
		return stage{name: fmt.Sprintf("expand slices %%%d", m), plain: true,
			apply: func(it iter.Iter[int]) iter.Iter[int] { return stream.ExpandSlices(stream.Map(dup)(it)) },
			model: func(s seq) seq {
				var out []int
				for _, v := range s.items {
					out = append(out, dup(v)...)
				}
				return seq{out, s.end}
			},
			lazy: func(p puller) puller {
				var have []int
				return sticky(func() (int, error) {
					for len(have) == 0 {
						v, err := p()
						if err != nil {
							return 0, err
						}
						have = dup(v)
					}
					v := have[0]
					have = have[1:]
					return v, nil
				})
			}}
	case 9, 10:
		twice := e.Bool()
		switch {
		case !e.OneIn(3):
			return distinctStage("int", twice, func(n int) int { return n }, func(n int) int { return n })
		case e.Bool(): // some are not equal to themselves, and some that look different are equal
			return distinctStage("float", twice, func(n int) float64 {
				switch abs(n) % 7 {
				case 3:
					return math.NaN()
				case 4:
					return math.Copysign(0, -1)
				case 5:
					return 0
				}
				return float64(n/3) + 0.5
			}, func(f float64) int {
				if f != f {
					return -777
				}
				return int(f * 2)
			})
		case e.Bool(): // of different types
			return distinctStage("any", twice, func(n int) any {
				switch abs(n) % 5 {
				case 0:
					return nil
				case 1:
					return n / 3
				case 2:
					return int64(n / 3)
				case 3:
					return fmt.Sprint(n / 3)
				}
				return [2]any{n / 4, "x"}
			}, func(v any) int {
				switch x := v.(type) {
				case int:
					return x*4 + 1
				case int64:
					return int(x)*4 + 2
				case string:
					return len(x)*4 + 3
				case [2]any:
					return x[0].(int) * 4
				}
				return 4000
			})
		}
		type rec struct {
			a int8
			b string
			c bool
		}
		return distinctStage("struct", twice, func(n int) rec { return rec{int8(n / 5), fmt.Sprint(abs(n) % 2), n < 0} }, func(r rec) int {
			return int(r.a)*4 + len(r.b) + 2*b2i(r.c)
		})
	case 11:
		m, r := e.Range(1, 5), e.Draw(5)
		pred := func(n int) bool { vsim.Y(0); return abs(n)%m == r }
		kind := e.Draw(5)
		var f func(iter.Iter[int]) iter.Iter[bool]
		var empty, stop bool
		test := pred
		switch kind {
		case 0:
			f, empty, stop = stream.AllMatch(pred), true, false
		case 1:
			f, empty, stop = stream.AnyMatch(pred), false, true
		case 2:
			f, empty, stop = stream.NoneMatch(pred), true, false
			test = func(n int) bool { return !pred(n) }
		default:
			empty, stop = e.Bool(), e.Bool()
			f = stream.ReduceToBool(pred, empty, stop)
		}
		return stage{name: fmt.Sprintf("match kind %d %%%d=%d (%v %v)", kind, m, r, empty, stop), plain: true,
			apply: func(it iter.Iter[int]) iter.Iter[int] { return stream.Map(b2i)(f(it)) },
			model: func(s seq) seq {
				res := empty
				for _, v := range s.items {
					if res = test(v); res == stop {
						return seq{[]int{b2i(res)}, iter.EOI}
					}
				}
				if s.end != iter.EOI {
					return seq{nil, s.end}
				}
				return seq{[]int{b2i(res)}, iter.EOI}
			},
			lazy: func(p puller) puller {
				done := false
				return sticky(func() (int, error) {
					if done {
						return 0, iter.EOI
					}
					done = true
					res := empty
					for {
						v, err := p()
						if err == iter.EOI {
							return b2i(res), nil
						}
						if err != nil {
							return 0, err
						}
						if res = test(v); res == stop {
							return b2i(res), nil
						}
					}
				})
			}}
	}
	// a custom stateful operation: running totals
	gen := func() func(iter.Iter[int]) iter.Iter[int] {
		total := 0
		return stream.Map(func(n int) int { vsim.Y(0); total += n; return total })
	}
	return stage{name: "generator: running total",
		apply: stream.Generator(gen),
		model: func(s seq) seq {
			var out []int
			total := 0
			for _, v := range s.items {
				total += v
				out = append(out, total)
			}
			return seq{out, s.end}
		},
		lazy: func(p puller) puller {
			total := 0
			return sticky(func() (int, error) {
				v, err := p()
				if err != nil {
					return 0, err
				}
				total += v
				return total, nil
			})
		}}
}

// hugeCount draws a number around the sizes that smaller integers hold
func hugeCount(e *E) uint {
	return []uint{1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63}[e.Draw(5)] - 2 + uint(e.Draw(4))
}

func skipStage(n uint) stage {
	return stage{name: fmt.Sprint("skip ", n), plain: true, apply: stream.Skip[int](n),
		model: func(s seq) seq { return seq{s.items[min(n, uint(len(s.items))):], s.end} },
		lazy: func(p puller) puller {
			left := n
			return sticky(func() (int, error) {
				for ; left > 0; left-- {
					if _, err := p(); err != nil {
						return 0, err
					}
				}
				return p()
			})
		}}
}

func limitStage(n uint) stage {
	return stage{name: fmt.Sprint("limit ", n), plain: true, apply: stream.Limit[int](n),
		model: func(s seq) seq {
			if uint(len(s.items)) >= n {
				return seq{s.items[:n], iter.EOI}
			}
			return s
		},
		lazy: func(p puller) puller {
			left := n
			return sticky(func() (int, error) {
				if left == 0 {
					return 0, iter.EOI
				}
				left--
				return p()
			})
		}}
}

func filterModel(keep func(int) bool) func(seq) seq {
	return func(s seq) seq {
		var out []int
		for _, v := range s.items {
			if keep(v) {
				out = append(out, v)
			}
		}
		return seq{out, s.end}
	}
}

func filterLazy(keep func(int) bool) func(puller) puller {
	return func(p puller) puller {
		return sticky(func() (int, error) {
			for {
				v, err := p()
				if err != nil {
					return 0, err
				}
				if keep(v) {
					return v, nil
				}
			}
		})
	}
}

// wholeStage draws an operation that needs the whole input
func wholeStage(e *E, reuse bool) stage {
	same := func(s []int) []int { return s }
	sorted := func(s []int) []int { t := append([]int{}, s...); sort.Ints(t); return t }
	one := func(name string, op func(iter.Iter[int]) iter.Iter[int], f func([]int) []int) stage {
		return stage{name: name, plain: true, apply: op, model: aggregate(f)}
	}
	single := func(f func([]int) int) func([]int) []int {
		return func(s []int) []int {
			if len(s) == 0 {
				return nil
			}
			return []int{f(s)}
		}
	}
	fold := func(s []int, first int, f func(a, b int) int) int {
		for _, v := range s {
			first = f(first, v)
		}
		return first
	}
	mix := func(a, b int) int { vsim.Y(0); return (a*3 + b) % 100003 }
	toBig := stream.Map(func(n int) *big.Int { return big.NewInt(int64(n)) })
	ofBig := stream.Map(func(n *big.Int) int { return int(n.Int64()) })
	toRat := stream.Map(func(n int) *big.Rat { return big.NewRat(int64(n), 3) })
	ofRat := stream.Map(func(r *big.Rat) int {
		n := new(big.Rat).Mul(r, big.NewRat(3, 1))
		return int(n.Num().Int64()*7 + n.Denom().Int64())
	})
	ratModel := func(n int64, d int64) int { r := big.NewRat(n, d); return int(r.Num().Int64()*7 + r.Denom().Int64()) }
	sum := func(s []int) int { return fold(s, 0, func(a, b int) int { return a + b }) }
	toFloat := func(n int) *big.Float { // in eighths, with digits to spare
		f := new(big.Float).SetPrec(53)
		if n%2 == 0 || abs(n) > 1<<44 {
			f.SetPrec(128)
		}
		return f.Quo(f.SetInt64(int64(n)), big.NewFloat(8))
	}
	ofFloat := func(f *big.Float, times int) int {
		x := new(big.Float).SetPrec(256).Mul(f, big.NewFloat(8))
		x.Mul(x, big.NewFloat(float64(times)))
		n, _ := x.Add(x, big.NewFloat(0.5)).Int(nil) // towards zero
		if x.Sign() < 0 && !x.IsInt() {
			n.Sub(n, big.NewInt(1))
		}
		return int(n.Int64())
	}
	switch e.Draw(27) {
	case 0:
		return one("reduce", stream.Reduce(mix), single(func(s []int) int { return fold(s[1:], s[0], mix) }))
	case 1:
		id := e.Draw(5)
		return one(fmt.Sprint("reduce from ", id), stream.Reduce(mix, id), func(s []int) []int { return []int{fold(s, id, mix)} })
	case 2: // text of the items, back to a number
		f := func(t string, n int) string { vsim.Y(0); return t + fmt.Sprint(abs(n)%10) }
		h := func(t string) int { return int(vsim.Mix64(hash64(t)) >> 40) }
		if e.Bool() {
			return one("reduceto", func(it iter.Iter[int]) iter.Iter[int] { return stream.Map(h)(stream.ReduceTo(f)(it)) },
				single(func(s []int) int {
					t := ""
					for _, v := range s {
						t = f(t, v)
					}
					return h(t)
				}))
		}
		return one("reduceto from x", func(it iter.Iter[int]) iter.Iter[int] { return stream.Map(h)(stream.ReduceTo(f, "x")(it)) },
			func(s []int) []int {
				t := "x"
				for _, v := range s {
					t = f(t, v)
				}
				return []int{h(t)}
			})
	case 3:
		return one("reduce to slice | expand", func(it iter.Iter[int]) iter.Iter[int] { return stream.ExpandSlices(stream.ReduceToSlice(it)) }, same)
	case 4:
		pad := e.Draw(3)
		if reuse { // into the same target each time: what it holds is copied when it is complete
			target := make([]int, 20+pad)
			into := stream.ReduceIntoSlice(target)
			return stage{name: fmt.Sprint("reduce into the same slice +", pad), apply: func(it iter.Iter[int]) iter.Iter[int] {
				lim, begun := stream.Limit[int](20)(it), false
				src := iter.OfIter(func() (int, error) {
					if !begun {
						begun = true
						for i := range target {
							target[i] = -5
						}
					}
					return lim.Next()
				})
				return stream.Limit[int](20)(stream.ExpandSlices(stream.Map(func(s []int) []int { return append([]int{}, s...) })(into(src))))
			}, model: intoSlice(20)}
		}
		return stage{name: fmt.Sprint("reduce into slice +", pad), apply: func(it iter.Iter[int]) iter.Iter[int] {
			target := make([]int, 400+pad)
			for i := range target {
				target[i] = -5
			}
			return stream.Limit[int](uint(400))(stream.ExpandSlices(stream.ReduceIntoSlice(target)(stream.Limit[int](400)(it))))
		}, model: intoSlice(400)}
	case 5:
		m := e.Range(1, 5)
		if e.OneIn(3) {
			m = 100000 // many keys
		}
		return one(fmt.Sprint("to map by %", m, " | expand | sort"), func(it iter.Iter[int]) iter.Iter[int] {
			kv := stream.Map(func(n int) tuple.Two[int, int] { return tuple.Of2(n%m, n) })(it)
			return stream.SortOrdered(stream.Map(func(t tuple.Two[int, int]) int { return t.T*100003 + t.U })(stream.ExpandMaps(stream.ReduceToMap(kv))))
		}, func(s []int) []int {
			last := map[int]int{}
			for _, v := range s {
				last[v%m] = v
			}
			var out []int
			for k, v := range last {
				out = append(out, k*100003+v)
			}
			sort.Ints(out)
			return out
		})
	case 6:
		if e.OneIn(3) { // keys that are not equal to themselves
			return one("expand maps of no numbers | sort", func(it iter.Iter[int]) iter.Iter[int] {
				ms := stream.Map(func(n int) map[float64]int {
					m := map[float64]int{}
					for i := 0; i < abs(n)%3; i++ {
						m[math.NaN()] = n
						m[float64(i)] = n
					}
					return m
				})(it)
				return stream.SortOrdered(stream.Map(func(t tuple.Two[float64, int]) int {
					if t.T != t.T {
						return t.U*8 + 5
					}
					return t.U*8 + int(t.T)
				})(stream.ExpandMaps(ms)))
			}, func(s []int) []int {
				var out []int
				for _, n := range s {
					for i := 0; i < abs(n)%3; i++ {
						out = append(out, n*8+5, n*8+i)
					}
				}
				sort.Ints(out)
				return out
			})
		}
		return one("expand maps | sort", func(it iter.Iter[int]) iter.Iter[int] {
			ms := stream.Map(func(n int) map[int]int {
				if n%4 == 0 {
					return nil
				}
				m := map[int]int{}
				for i := 0; i < abs(n)%3; i++ {
					m[n+i] = i
				}
				return m
			})(it)
			return stream.SortOrdered(stream.Map(func(t tuple.Two[int, int]) int { return t.T*4 + t.U })(stream.ExpandMaps(ms)))
		}, func(s []int) []int {
			var out []int
			for _, n := range s {
				if n%4 != 0 {
					for i := 0; i < abs(n)%3; i++ {
						out = append(out, (n+i)*4+i)
					}
				}
			}
			sort.Ints(out)
			return out
		})
	case 7:
		return one("count", stream.Count[int], func(s []int) []int { return []int{len(s)} })
	case 8:
		return one("sum", stream.Sum[int], single(sum))
	case 9:
		return one("max", stream.Max[int], single(func(s []int) int { t := sorted(s); return t[len(t)-1] }))
	case 10:
		return one("min", stream.Min[int], single(func(s []int) int { return sorted(s)[0] }))
	case 11:
		return one("avg", stream.AvgInt[int], single(func(s []int) int { return roundDiv(sum(s), len(s)) }))
	case 12:
		return one("avg of unsigned", func(it iter.Iter[int]) iter.Iter[int] {
			return stream.Map(func(u uint) int { return int(u) })(stream.AvgUint(stream.Map(func(n int) uint { return uint(abs(n)) })(it)))
		}, single(func(s []int) int {
			t := 0
			for _, v := range s {
				t += abs(v)
			}
			return roundDiv(t, len(s))
		}))
	case 13: // sums overflow
		switch e.Draw(9) {
		case 0:
			return avgStage("avg int8", stream.AvgInt[int8], math.MinInt8, math.MaxInt8)
		case 1:
			return avgStage("avg int16", stream.AvgInt[int16], math.MinInt16, math.MaxInt16)
		case 2:
			return avgStage("avg int32", stream.AvgInt[int32], math.MinInt32, math.MaxInt32)
		case 3:
			return avgStage("avg int64", stream.AvgInt[int64], math.MinInt64, math.MaxInt64)
		case 4:
			return avgStage("avg int", stream.AvgInt[int], math.MinInt, math.MaxInt)
		case 5:
			return avgStage("avg uint8", stream.AvgUint[uint8], 0, math.MaxUint8)
		case 6:
			return avgStage("avg uint16", stream.AvgUint[uint16], 0, math.MaxUint16)
		case 7:
			return avgStage("avg uint32", stream.AvgUint[uint32], 0, math.MaxUint32)
		}
		return avgStage("avg uint64", stream.AvgUint[uint64], 0, math.MaxUint64)
	case 14:
		return stage{name: "abs int8", plain: true, apply: func(it iter.Iter[int]) iter.Iter[int] {
			return stream.Map(func(n int8) int { return int(n) })(stream.Abs(stream.Map(func(n int) int8 {
				if n%9 == 0 && n != 0 {
					return -128
				}
				return int8(n % 100)
			})(it)))
		}, model: func(s seq) seq {
			var out []int
			for _, n := range s.items {
				if n%9 == 0 && n != 0 {
					return seq{out, errAny}
				}
				out = append(out, abs(n%100))
			}
			return seq{out, s.end}
		}}
	case 15:
		switch e.Draw(5) {
		case 0:
			return one("big sum", func(it iter.Iter[int]) iter.Iter[int] { return ofBig(stream.SumBigOps(toBig(it))) }, single(sum))
		case 1:
			return one("big max", func(it iter.Iter[int]) iter.Iter[int] { return ofBig(stream.MaxCmp(toBig(it))) }, single(func(s []int) int { t := sorted(s); return t[len(t)-1] }))
		case 2:
			return one("big min", func(it iter.Iter[int]) iter.Iter[int] { return ofBig(stream.MinCmp(toBig(it))) }, single(func(s []int) int { return sorted(s)[0] }))
		case 3:
			return stage{name: "big abs", plain: true, apply: func(it iter.Iter[int]) iter.Iter[int] { return ofBig(stream.AbsBigOps(toBig(it))) },
				model: func(s seq) seq {
					var out []int
					for _, v := range s.items {
						out = append(out, abs(v))
					}
					return seq{out, s.end}
				}}
		}
		return one("big sort", func(it iter.Iter[int]) iter.Iter[int] { return ofBig(stream.SortCmp(toBig(it))) }, sorted)
	case 16:
		return one("rational sum", func(it iter.Iter[int]) iter.Iter[int] { return ofRat(stream.SumBigOps(toRat(it))) }, single(func(s []int) int { return ratModel(int64(sum(s)), 1) }))
	case 17:
		return one("rational avg", func(it iter.Iter[int]) iter.Iter[int] { return ofRat(stream.AvgBigOps(toRat(it))) }, single(func(s []int) int { return ratModel(int64(sum(s)), int64(len(s))) }))
	case 18:
		return one("reverse", stream.Reverse[int], func(s []int) []int {
			var out []int
			for i := len(s) - 1; i >= 0; i-- {
				out = append(out, s[i])
			}
			return out
		})
	case 19:
		return one("sort", stream.SortOrdered[int], sorted)
	case 20:
		k := e.Range(2, 7)
		less := func(a, b int) bool {
			if abs(a)%k != abs(b)%k {
				return abs(a)%k > abs(b)%k
			}
			return a < b
		}
		return one(fmt.Sprint("sort by %", k), stream.SortBy(less), func(s []int) []int {
			t := append([]int{}, s...)
			sort.Slice(t, func(i, j int) bool { return less(t[i], t[j]) })
			return t
		})
	case 21:
		return one("sort complex", func(it iter.Iter[int]) iter.Iter[int] {
			return stream.Map(func(c complex128) int { return int(real(c)) })(stream.SortComplex(stream.Map(func(n int) complex128 { return complex(float64(abs(n)), 0) })(it)))
		}, func(s []int) []int {
			t := []int{}
			for _, v := range s {
				t = append(t, abs(v))
			}
			return sorted(t)
		})
	case 23:
		return one("float sum", func(it iter.Iter[int]) iter.Iter[int] {
			return stream.Map(func(f *big.Float) int { return ofFloat(f, 1) })(stream.SumBigOps(stream.Map(toFloat)(it)))
		}, single(sum))
	case 24:
		return one("float avg", func(it iter.Iter[int]) iter.Iter[int] {
			n := 0
			return stream.Map(func(f *big.Float) int { return ofFloat(f, n) })(stream.AvgBigOps(stream.Map(func(v int) *big.Float { n++; return toFloat(v) })(it)))
		}, single(sum))
	case 25:
		return stage{name: "float abs", plain: true, apply: func(it iter.Iter[int]) iter.Iter[int] {
			return stream.Map(func(f *big.Float) int { return ofFloat(f, 1) })(stream.AbsBigOps(stream.Map(toFloat)(it)))
		}, model: func(s seq) seq {
			var out []int
			for _, v := range s.items {
				out = append(out, abs(v))
			}
			return seq{out, s.end}
		}}
	case 22: // concatenation with a part of its own
		extra := items(e, e.Draw(3))
		return stage{name: fmt.Sprint("concat with ", extra), plain: true, apply: func(it iter.Iter[int]) iter.Iter[int] {
			return iter.Concat(iter.OfSlice(extra), nil, it, iter.OfEmpty[int](), iter.OfSlice(extra))
		}, model: func(s seq) seq {
			out := append(append([]int{}, extra...), s.items...)
			if s.end == iter.EOI {
				out = append(out, extra...)
			}
			return seq{out, s.end}
		}}
	}
	m := e.Range(2, 5)
	info, desc := pinfo(e, 10)
	errItem := drawErr(e, "a worker failed")
	fails := e.OneIn(3)
	work := func(n int) (int, error) {
		vsim.Y(0)
		if fails && abs(n)%7 == 3 {
			return n, errItem
		}
		return n * 2, nil
	}
	keep := func(n int) bool { return abs(n)%m != 1 }
	return stage{name: "parallel " + desc, plain: true, apply: stream.Parallel(func(it iter.Iter[int]) iter.Iter[int] {
		return stream.MapError(work)(stream.Filter(keep)(it))
	}, info...), model: aggregateErr(func(s []int) ([]int, error) {
		var out []int
		for _, v := range s {
			if keep(v) {
				w, err := work(v)
				if err != nil {
					return nil, err
				}
				out = append(out, w)
			}
		}
		return out, nil
	})}
}

func aggregateErr(f func([]int) ([]int, error)) func(seq) seq {
	return func(s seq) seq {
		if s.end != iter.EOI {
			return seq{nil, s.end}
		}
		out, err := f(s.items)
		if err != nil {
			return seq{nil, err}
		}
		return seq{out, iter.EOI}
	}
}

func hash64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// pipeline draws a chain of operations
func pipeline(e *E, n int, reuse bool) stage {
	var s stage
	for i := 0; i < n; i++ {
		var t stage
		if e.Draw(5) < 3 {
			t = lazyStage(e)
		} else {
			t = wholeStage(e, reuse)
		}
		if i == 0 {
			s = t
		} else {
			s = cat(s, t)
		}
	}
	return s
}

func lazyPipeline(e *E, n int) stage {
	s := lazyStage(e)
	for i := 1; i < n; i++ {
		s = cat(s, lazyStage(e))
	}
	return s
}

func smallItems(e *E, n int) []int {
	out := make([]int, n)
	k := []int{3, 10, 100, 10000}[e.Draw(4)]
	for i := range out {
		out[i] = e.Draw(k)
		if e.OneIn(6) {
			out[i] = -out[i]
		}
	}
	return out
}

// countingSource delivers items, then its end, and counts how often it was asked
type countingSource struct {
	e       *E
	s       seq
	i       int
	asked   int
	over    int // asked again after the end
	endless bool
}

func (c *countingSource) next() (int, error) {
	vsim.Y(0)
	c.asked++
	if c.i < len(c.s.items) {
		c.i++
		return c.s.items[c.i-1], nil
	}
	if c.endless {
		c.i++
		return (c.i*7919)%101 - 20, nil
	}
	if c.i > len(c.s.items) {
		c.over++
	}
	c.i++
	if c.s.end != iter.EOI {
		c.e.Fault("source error")
	}
	return 77, c.s.end // the value is to be ignored
}

func drawSeq(e *E, max int) seq {
	n := e.Draw(max)
	if max >= 40 && e.OneIn(150) {
		n = 40 + e.Draw(300)
		if e.OneIn(15) {
			n = 300 + e.Draw(2500)
		}
	}
	s := seq{smallItems(e, n), iter.EOI}
	if e.OneIn(3) {
		s.end = drawErr(e, "simulated source error")
	}
	return s
}

func endOK(got, want error) bool {
	if want == errAny {
		return got != nil && got != iter.EOI && got != errRead
	}
	return got == want
}

// intoSlice is the model of a reduction of the first n items into a slice that holds -5 everywhere, of which n are used
func intoSlice(n int) func(seq) seq {
	return func(s seq) seq {
		if len(s.items) >= n {
			s = seq{s.items[:n], iter.EOI}
		}
		if s.end != iter.EOI {
			return seq{nil, s.end}
		}
		out := append([]int{}, s.items...)
		for len(out) < n {
			out = append(out, -5)
		}
		return seq{out[:n], iter.EOI}
	}
}
