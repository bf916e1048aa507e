package harness

import (
	"bytes"
	"fmt"
	"math/big"
	goreflect "reflect"
	"sort"
	"strings"
	"time"

	"github.com/bantling/micro/conv"
	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/encoding/json/write"
	"github.com/bantling/micro/funcs"
	mio "github.com/bantling/micro/io"
	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/iter"
	mmath "github.com/bantling/micro/math"
	"github.com/bantling/micro/reflect"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"
	"github.com/bantling/micro/union"
	unionreflect "github.com/bantling/micro/union/reflect"

	"verif.local/sim/vsim"
)

// C26: threads that share a value and only read it.
//
// A shared value comes with operations that are not supposed to change it. Each operation writes its result out as text
// and then overwrites it if the result is the receiver's own (a converted number, a copied collection). What the result
// has to be is found out by the same operation on a value built the same way that nobody else has.

// reading is an operation on a shared value
type reading struct {
	name string
	fn   func(g *gen) string
}

// shareable is a value, what it looks like, and the operations that leave it alone
type shareable struct {
	look func() string
	ops  []reading
}

func ints(v []int) string { return fmt.Sprint(v, len(v), v == nil) }

func fill(v []int) {
	for i := range v {
		v[i] = -7777
	}
}

func sortedText(vals []string) string {
	sort.Strings(vals)
	return strings.Join(vals, ", ")
}

func mapText[K comparable, V any](m map[K]V) string {
	var parts []string
	for k, v := range m {
		parts = append(parts, fmt.Sprintf("%v:%v", k, v))
	}
	return sortedText(parts) + fmt.Sprint(m == nil)
}

// attempt is the text of what fn returns, or of what it panics with
func attempt(fn func() string) (out string) {
	p, panicked := Catch(func() { out = fn() })
	if panicked {
		return fmt.Sprintf("panic: %v", p)
	}
	return
}

func scribbleAny(v any) {
	switch x := v.(type) {
	case map[string]any:
		for _, k := range sortedKeys(x) {
			scribbleAny(x[k])
		}
		clear(x)
	case []any:
		for i := range x {
			scribbleAny(x[i])
			x[i] = "scribbled"
		}
	}
}

func anyText(v any) string {
	switch x := v.(type) {
	case map[string]any:
		out := "{"
		for _, k := range sortedKeys(x) {
			out += fmt.Sprintf("%q:", k) + anyText(x[k]) + ","
		}
		return out + "}"
	case []any:
		out := "["
		for _, e := range x {
			out += anyText(e) + ","
		}
		return out + "]"
	case *big.Int, *big.Float, *big.Rat:
		return show(x)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

func shareJSON(g *gen) shareable {
	var doc any = g.jsonAny(3)
	if g.bool() {
		doc = []any{doc, map[string]any{"a": g.jsonAny(2), "b": []any{g.jsonAny(1), g.n(9)}}, g.word()}
	} else {
		doc = map[string]any{"a": []any{g.jsonAny(2), g.jsonAny(2), g.word()}, "b": doc, "c": map[string]any{"d": g.bool()}}
	}
	v := json.MustToValue(map[string]any{"doc": numbers(doc)}).AsMap()["doc"]
	paths := []string{".a", ".a[0]", ".a[2]", ".b", ".c.d", "[1].a", "[1].b[1]", "[0]", "[2]", ".a[9]", ".q", "[1].b[0]"}
	p := paths[g.n(len(paths))]
	search, perr := json.ParsePath(p)
	return shareable{
		look: func() string { return showJSON(v) },
		ops: []reading{
			{"show", func(g *gen) string { return showJSON(v) }},
			{"write", func(g *gen) string {
				var buf bytes.Buffer
				err := write.Write(v, writer.OfIOWriterAsRunes(&buf))
				back, err2 := parse.Parse(g.reader(buf.String()))
				out := show(err, err2)
				if err2 == nil {
					out += showJSON(back)
					scribble(back)
				}
				return out
			}},
			{"write to a failing destination", func(g *gen) string {
				w := mio.NewErrorWriter(g.n(3), fmt.Errorf("failed %d", g.n(50)))
				err := write.Write(v, writer.OfIOWriterAsRunes(w))
				return show(len(w.Output()), err)
			}},
			{"search", func(g *gen) string {
				out := p + show(perr)
				if perr != nil {
					return out
				}
				r, err := search(v)
				return out + showJSON(r) + show(err)
			}},
			{"search by a path of its own", func(g *gen) string {
				fn, err := json.ParsePath(paths[g.n(len(paths))])
				out := show(err)
				if err == nil {
					r, err := fn(v)
					out += showJSON(r) + show(err)
				}
				return out
			}},
			{"ToAny", func(g *gen) string {
				a := v.ToAny()
				out := anyText(a)
				scribbleAny(a)
				return out
			}},
			{"ToMap", func(g *gen) string {
				return attempt(func() string { m := v.ToMap(); out := anyText(m); scribbleAny(m); return out })
			}},
			{"ToSlice", func(g *gen) string {
				return attempt(func() string { s := v.ToSlice(); out := anyText(s); scribbleAny(s); return out })
			}},
			{"parts", func(g *gen) string {
				return attempt(func() string { return mapText(v.AsMap()) }) + attempt(func() string { return show(len(v.AsSlice())) }) +
					attempt(v.AsString) + attempt(func() string { return string(v.AsNumber()) }) + show(v.IsDocument(), v.IsNull(), v.Type().String())
			}},
			{"into another value", func(g *gen) string {
				w := json.MustSliceToValue([]json.Value{v, json.MustNumberToValue(g.n(5))})
				x := json.MustMapToValue(map[string]json.Value{"x": v, "y": w})
				var buf bytes.Buffer
				err := write.Write(x, writer.OfIOWriterAsRunes(&buf))
				return showJSON(x) + show(err, len(buf.String()))
			}},
		},
	}
}

// numbers replaces the number texts of the generator by those of the library
func numbers(v any) any {
	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for _, k := range sortedKeys(x) {
			out[k] = numbers(x[k])
		}
		return out
	case []any:
		out := []any{}
		for _, e := range x {
			out = append(out, numbers(e))
		}
		return out
	case fmt.Stringer:
		return json.NumberString(x.String())
	}
	return v
}

// shareGo shares a map and a slice that are turned into JSON values
func shareGo(g *gen) shareable {
	m := map[string]any{
		"s": g.word(), "l": []any{g.word(), g.n(9), map[string]any{"x": g.bool(), "big": big.NewInt(g.i64())}},
		"r": big.NewRat(g.i64(), 4), "f": big.NewFloat(float64(g.n(1000)) / 8), "n": numbers(g.jsonAny(2)), "u": uint8(g.n(200)),
	}
	l := []any{m["l"], m["n"], g.word()}
	vm := map[string]json.Value{"a": json.StringToValue(g.word()), "b": json.TrueValue, "c": json.MustSliceToValue([]any{g.n(9)})}
	vl := []json.Value{json.MustNumberToValue(g.n(99)), json.NullValue, json.FalseValue}
	return shareable{
		look: func() string {
			return anyText(m) + anyText(l) + showJSON(json.MustMapToValue(vm)) + showJSON(json.MustSliceToValue(vl))
		},
		ops: []reading{
			{"MapToValue", func(g *gen) string {
				v, err := json.MapToValue(m)
				if err != nil {
					return show(err)
				}
				out := showJSON(v)
				clear(v.AsMap())
				return out
			}},
			{"SliceToValue", func(g *gen) string {
				v, err := json.SliceToValue(l)
				if err != nil {
					return show(err)
				}
				out := showJSON(v)
				scribble(v)
				return out
			}},
			{"ToValue", func(g *gen) string {
				return showJSON(json.MustToValue(m)) + showJSON(json.MustToValue(l)) + showJSON(json.MustSliceToValue(vl)) + showJSON(json.MustMapToValue(vm))
			}},
			{"write", func(g *gen) string {
				return attempt(func() string {
					var buf bytes.Buffer
					err := write.Write(json.MustMapToValue(vm), writer.OfIOWriterAsRunes(&buf))
					err2 := write.Write(json.MustSliceToValue(vl), writer.OfIOWriterAsRunes(&buf))
					return show(len(buf.String()), err, err2)
				})
			}},
			{"flatten values", func(g *gen) string {
				a, err := funcs.ConvertToSlice[json.Value]("no", []any{vl[0], vl[1]})
				b, err2 := funcs.ConvertToSlice[string]("no", m["l"])
				c, err3 := funcs.ConvertToMap[string, string]("no", m)
				return show(len(a), err, b, err2, len(c), err3)
			}},
		},
	}
}

func shareDecimals(g *gen) shareable {
	a, b := indDecimals(g)
	text := func() string { return showDec(a) + showDec(b) }
	return shareable{
		look: text,
		ops: []reading{
			{"show", func(g *gen) string {
				return text() + show(a.Cmp(b), a.MagnitudeLessThanOne(), b.MagnitudeLessThanOne())
			}},
			{"add", func(g *gen) string { r, err := a.Add(b); return showDec(r) + show(err) }},
			{"sub", func(g *gen) string { r, err := b.Sub(a); return showDec(r) + show(err) }},
			{"mul", func(g *gen) string { r, err := a.Mul(b); return showDec(r) + show(err) }},
			{"div", func(g *gen) string { r, err := a.Div(b); return showDec(r) + show(err) }},
			{"div int", func(g *gen) string {
				out := ""
				p := uint(1 + g.n(9))
				q, err := a.DivIntAdd(p)
				for i, d := range q {
					out += showDec(d)
					q[i] = mmath.Decimal{}
				}
				r, rem, err2 := b.DivIntQuoRem(p)
				return out + showDec(r) + showDec(rem) + show(err, err2)
			}},
			{"negate", func(g *gen) string { return showDec(a.Negate()) + showDec(b.Negate()) }},
			{"format", func(g *gen) string { x, y := mmath.AdjustDecimalFormat(a, b); return show(x, y) }},
			{"copies", func(g *gen) string {
				x, y := a, b
				x.Normalize()
				err := mmath.AdjustDecimalScale(&x, &y)
				return showDec(x) + showDec(y) + show(err)
			}},
			{"max", func(g *gen) string { return showDec(mmath.MaxCmp(a, b)) + showDec(mmath.MinCmp(a, b)) }},
			{"sort", func(g *gen) string {
				l := funcs.SliceSortCmp([]mmath.Decimal{a, b, a})
				return showDec(l[0]) + showDec(l[1]) + showDec(l[2])
			}},
		},
	}
}

func shareBigs(g *gen) shareable {
	x := new(big.Int).Mul(big.NewInt(g.i64()), big.NewInt(int64(1+g.n(5))))
	y := new(big.Float).Quo(big.NewFloat(float64(g.i64())), big.NewFloat(4))
	z := big.NewRat(g.i64(), int64(1+g.n(4)))
	if g.bool() {
		z.SetInt64(g.i64())
	}
	if g.bool() { // numbers of several words
		x.Lsh(x, uint(g.n(200))).Add(x, big.NewInt(g.i64()))
		z.Mul(z, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(g.n(150)))))
		y = new(big.Float).SetPrec(200).SetInt(x)
		y.Quo(y, big.NewFloat(16))
	}
	d := big.NewInt(int64(g.n(20) - 10))
	e := big.NewRat(int64(g.n(20)-10), 3)
	if g.n(3) == 0 {
		d.Lsh(d, uint(g.n(140))).Add(d, big.NewInt(int64(g.n(9))))
		e.Mul(e, new(big.Rat).SetInt(d))
	}
	text := func() string { return show(x, y, z, d, e) }
	read := func(name string, fn func(g *gen) string) reading {
		return reading{name, func(g *gen) string { return attempt(func() string { return fn(g) }) }}
	}
	return shareable{
		look: text,
		ops: []reading{
			read("show", func(g *gen) string { return text() }),
			read("convert int", func(g *gen) string { return convAll(g, x) }),
			read("convert float", func(g *gen) string { return convAll(g, y) }),
			read("convert rat", func(g *gen) string { return convAll(g, z) }),
			read("int to others", func(g *gen) string {
				var f *big.Float
				var r *big.Rat
				conv.BigIntToBigFloat(x, &f)
				conv.BigIntToBigRat(x, &r)
				out := show(f, r)
				r.Num().SetInt64(3)
				r.SetInt64(4)
				f.SetInt64(5)
				return out
			}),
			read("float to others", func(g *gen) string {
				var i *big.Int
				var r *big.Rat
				err := conv.BigFloatToBigInt(y, &i)
				err2 := conv.BigFloatToBigRat(y, &r)
				out := show(i, r, err, err2)
				if i != nil {
					i.SetInt64(5)
				}
				if r != nil {
					r.SetInt64(5)
				}
				return out
			}),
			read("rat to others", func(g *gen) string {
				var i *big.Int
				var f *big.Float
				err := conv.BigRatToBigInt(z, &i)
				conv.BigRatToBigFloat(z, &f)
				out := show(i, f, err)
				if i != nil {
					i.Mul(i, big.NewInt(3)).Add(i, big.NewInt(1))
				}
				f.SetInt64(5)
				return out
			}),
			read("texts", func(g *gen) string {
				return show(conv.BigIntToString(x), conv.BigFloatToString(y), conv.BigRatToString(z), conv.BigRatToNormalizedString(z))
			}),
			read("by reflection", func(g *gen) string {
				var i *big.Int
				var f *big.Float
				var r *big.Rat
				err := conv.ReflectTo(goreflect.ValueOf(z), goreflect.ValueOf(&i))
				err2 := conv.ReflectTo(goreflect.ValueOf(x), goreflect.ValueOf(&f))
				err3 := conv.ReflectTo(goreflect.ValueOf(x), goreflect.ValueOf(&r))
				out := show(i, f, r, err, err2, err3)
				if i != nil {
					i.SetInt64(5)
				}
				if f != nil {
					f.SetInt64(5)
				}
				if r != nil {
					r.SetInt64(5)
				}
				var s string
				err = conv.ReflectTo(goreflect.ValueOf(y), goreflect.ValueOf(&s))
				err2 = conv.ReflectTo(goreflect.ValueOf(y), goreflect.ValueOf(&r))
				return out + show(s, err, r, err2)
			}),
			read("from any", func(g *gen) string {
				var i *big.Int
				var f *big.Float
				var r *big.Rat
				err := conv.AnyTo(any(x), &i)
				err2 := conv.AnyTo(any(y), &f)
				err3 := conv.AnyTo(any(z), &r)
				var j *big.Int
				err4 := conv.AnyTo(any(z), &j)
				out := show(i, f, r, j, err, err2, err3, err4)
				i.SetInt64(5)
				f.SetInt64(5)
				r.SetInt64(5)
				if j != nil {
					j.SetInt64(5)
				}
				return out
			}),
			read("divide ints", func(g *gen) string {
				var q *big.Int
				err := mmath.DivBigOps(x, d, &q)
				out := show(q, err)
				if q != nil {
					q.SetInt64(5)
				}
				var p *big.Int
				err = mmath.Div(x, d, &p)
				return out + show(p, err)
			}),
			read("divide rats", func(g *gen) string {
				var q *big.Rat
				err := mmath.DivBigOps(z, e, &q)
				out := show(q, err)
				if q != nil {
					q.SetInt64(5)
				}
				return out
			}),
			read("divide floats", func(g *gen) string {
				var q *big.Float
				err := mmath.DivBigOps(y, big.NewFloat(float64(1+g.n(8))), &q)
				out := show(q, err)
				if q != nil {
					q.SetInt64(5)
				}
				return out
			}),
			read("compare", func(g *gen) string {
				return show(mmath.MinCmp(x, d), mmath.MaxCmp(x, d), mmath.MinCmp(z, e), mmath.MaxCmp(z, e))
			}),
			read("to JSON", func(g *gen) string {
				a, err := json.NumberToValue(x)
				b, err2 := json.NumberToValue(y)
				c, err3 := json.NumberToValue(z)
				return show(a.Type(), b.Type(), c.Type(), err, err2, err3)
			}),
		},
	}
}

// shareBigList shares a list of big numbers
func shareBigList(g *gen) shareable {
	var is []*big.Int
	var rs []*big.Rat
	var fs []*big.Float
	for n := g.n(6); n > 0; n-- {
		is = append(is, big.NewInt(int64(g.n(60)-30)))
		rs = append(rs, big.NewRat(int64(g.n(60)-30), int64(1+g.n(5))))
		fs = append(fs, big.NewFloat(float64(g.n(60)-30)/8))
	}
	if len(is) > 0 && g.bool() { // numbers of several words
		is[0].Lsh(is[0], 130).Sub(is[0], big.NewInt(1))
		rs[0].SetFrac(is[0], big.NewInt(3))
		fs[0] = new(big.Float).SetPrec(180).SetInt(is[0])
	}
	text := func() string {
		out := ""
		for i := range is {
			out += show(is[i], rs[i], fs[i])
		}
		return out
	}
	one := func(a, b, c any, errs ...error) string {
		out := ""
		for _, e := range errs {
			out += show(e)
		}
		return out + show(a, b, c)
	}
	own := func(a *big.Int, b *big.Rat, c *big.Float) {
		if a != nil {
			a.SetInt64(55)
		}
		if b != nil {
			b.SetInt64(55)
		}
		if c != nil {
			c.SetInt64(55)
		}
	}
	return shareable{
		look: text,
		ops: []reading{
			{"show", func(g *gen) string { return text() }},
			{"sum", func(g *gen) string {
				a, e1 := stream.SumBigOps(iter.OfSlice(is)).Next()
				b, e2 := stream.SumBigOps(iter.OfSlice(rs)).Next()
				c, e3 := stream.SumBigOps(iter.OfSlice(fs)).Next()
				out := one(a, b, c, e1, e2, e3)
				own(a, b, c)
				return out
			}},
			{"average", func(g *gen) string {
				a, e1 := stream.AvgBigOps(iter.OfSlice(is)).Next()
				b, e2 := stream.AvgBigOps(iter.OfSlice(rs)).Next()
				c, e3 := stream.AvgBigOps(iter.OfSlice(fs)).Next()
				out := one(a, b, c, e1, e2, e3)
				own(a, b, c)
				return out
			}},
			{"absolute", func(g *gen) string {
				a, e1 := all(stream.AbsBigOps(iter.OfSlice(is)))
				b, e2 := all(stream.AbsBigOps(iter.OfSlice(rs)))
				c, e3 := all(stream.AbsBigOps(iter.OfSlice(fs)))
				out := show(e1, e2, e3)
				for i := range a {
					out += show(a[i], b[i], c[i])
					own(a[i], b[i], c[i])
				}
				return out
			}},
			{"extremes", func(g *gen) string {
				a, e1 := stream.MaxCmp(iter.OfSlice(is)).Next()
				b, e2 := stream.MinCmp(iter.OfSlice(rs)).Next()
				c, e3 := stream.MaxCmp(iter.OfSlice(fs)).Next()
				return one(a, b, c, e1, e2, e3)
			}},
			{"sort", func(g *gen) string {
				a, e1 := all(stream.SortCmp(iter.OfSlice(is)))
				b, e2 := all(stream.SortBy(func(x, y *big.Rat) bool { return x.Cmp(y) > 0 })(iter.OfSlice(rs)))
				out := show(e1, e2)
				for i := range a {
					out += show(a[i], b[i])
				}
				clear(a)
				clear(b)
				return out
			}},
			{"sort a copy", func(g *gen) string {
				c := funcs.SliceSortCmp(funcs.SliceCopy(is))
				out := ""
				for _, x := range c {
					out += show(x)
				}
				clear(c)
				return out
			}},
			{"remove", func(g *gen) string {
				if len(is) == 0 {
					return ""
				}
				out := ""
				for _, x := range funcs.SliceRemoveUncomparable(is, is[g.n(len(is))], g.bool()) {
					out += show(x)
				}
				return out
			}},
			{"convert", func(g *gen) string {
				out := ""
				for _, x := range is {
					var i *big.Int
					var s string
					err := conv.To(x, &i)
					err2 := conv.To(x, &s)
					out += show(i, s, err, err2)
					own(i, nil, nil)
				}
				return out
			}},
		},
	}
}

func shareSlice(g *gen) shareable {
	a := make([]int, 0, 20) // with room to grow in
	a = append(a, g.ints()...)
	if g.bool() {
		a = append(a, g.ints()...)
	}
	if g.n(8) == 0 { // many
		for n := 0; n < 150; n++ {
			a = append(a, g.n(200)-100)
		}
	}
	room := a[:cap(a)]
	nested := [][][]int{{a, {g.n(5)}}, {}, {{}, g.ints()}}
	rows := [][]int{} // rows of one array, each with room to grow in
	for i := g.n(4); i > 0; i-- {
		from := g.n(len(a) + 1)
		rows = append(rows, a[from:from+g.n(len(a)-from+1)])
	}
	anys := []any{}
	for _, v := range a {
		anys = append(anys, v)
	}
	isNeg := funcs.IsNegative[int]()
	replaced := ""
	return shareable{
		look: func() string { return replaced + ints(a) + ints(room) + fmt.Sprint(nested, rows, anys) },
		ops: []reading{
			{"copy", func(g *gen) string { c := funcs.SliceCopy(a); out := ints(c); fill(c); return out }},
			{"sort a copy", func(g *gen) string {
				c := funcs.SliceSortOrdered(funcs.SliceCopy(a))
				out := ints(c)
				fill(c)
				return out
			}},
			{"flatten", func(g *gen) string { c := funcs.SliceFlatten[int](nested); out := ints(c); fill(c); return out }},
			{"flatten rows", func(g *gen) string {
				c := funcs.SliceFlatten[int](rows)
				out := ints(c)
				fill(c[:cap(c)])
				return out
			}},
			{"flatten one dimension", func(g *gen) string { return ints(funcs.SliceFlatten[int](a)) }},
			{"index", func(g *gen) string {
				return show(funcs.SliceIndex(a, g.n(30)-15, 777), funcs.SliceIndex(nested, g.n(5)))
			}},
			{"to map", func(g *gen) string {
				m := funcs.SliceToMap(a)
				n := funcs.SliceToMapBy(a, func(i int) string { return fmt.Sprint(i / 3) })
				out := mapText(m) + mapText(n)
				clear(m)
				clear(n)
				return out
			}},
			{"unique", func(g *gen) string {
				u := funcs.SliceUniqueValues(a)
				out := ints(funcs.SliceSortOrdered(funcs.SliceCopy(u)))
				fill(u)
				return out
			}},
			{"remove", func(g *gen) string {
				v := g.n(40) - 20
				if len(a) > 0 && g.bool() {
					v = a[g.n(len(a))]
				}
				r := funcs.SliceRemove(a, v, g.bool())
				return ints(r)
			}},
			{"convert", func(g *gen) string {
				c, err := funcs.ConvertToSlice[int]("no", anys)
				d, err2 := funcs.ConvertToSlice[string]("no", anys)
				e, err3 := funcs.ConvertToSlice[int]("no", a)
				out := ints(c) + show(err, d, err2) + ints(e) + show(err3)
				if len(anys) > 0 {
					fill(c)
				}
				return out
			}},
			{"iterate", func(g *gen) string {
				it := iter.OfSlice(a)
				out := ""
				for n := 0; n < 50; n++ {
					v, err := it.Next()
					out += fmt.Sprint(v, err, " ")
					if err != nil {
						break
					}
					if g.n(4) == 0 {
						it.Unread(v*2 + 1)
						it.Unread(v)
						it.Next()
					}
				}
				return out
			}},
			{"iterate the rest of the arguments", func(g *gen) string {
				v, err := all(iter.Concat(iter.Of(a...), iter.OfSlice(a)))
				out := ints(v) + show(err)
				fill(v)
				return out
			}},
			{"iterate parts", func(g *gen) string {
				var parts [5]iter.Iter[int]
				for i := range parts {
					if g.n(3) > 0 {
						parts[i] = iter.OfSlice(a)
					}
				}
				was := parts
				used := parts[:1+g.n(4)]
				var it iter.Iter[int]
				if g.bool() {
					it = iter.Concat(used...)
				} else {
					it = iter.OfIter(iter.ConcatIterGen(used))
				}
				v, err := all(it)
				if was != parts {
					replaced = "the caller's iterators were replaced"
				}
				out := ints(v) + show(err)
				fill(v)
				return out
			}},
			{"collect", func(g *gen) string {
				v, err := stream.ReduceToSlice(iter.OfSlice(a)).Next()
				out := ints(v) + show(err)
				fill(v)
				return out
			}},
			{"reverse", func(g *gen) string {
				v, err := all(stream.Reverse(iter.OfSlice(a)))
				return ints(v) + show(err)
			}},
			{"sort", func(g *gen) string {
				v, err := all(stream.SortOrdered(iter.OfSlice(a)))
				w, err2 := all(stream.SortBy(func(x, y int) bool { return x > y })(iter.OfSlice(a)))
				return ints(v) + ints(w) + show(err, err2)
			}},
			{"distinct", func(g *gen) string {
				v, err := all(stream.Distinct(iter.OfSlice(a)))
				w, err2 := all(stream.Duplicate(iter.OfSlice(a)))
				return ints(v) + ints(w) + show(err, err2)
			}},
			{"parts", func(g *gen) string {
				v, err := all(stream.Limit[int](uint(g.n(6)))(stream.Skip[int](uint(g.n(4)))(iter.OfSlice(a))))
				w, err2 := all(stream.Filter(isNeg)(iter.OfSlice(a)))
				return ints(v) + ints(w) + show(err, err2)
			}},
			{"figures", func(g *gen) string {
				s, e1 := stream.Sum(iter.OfSlice(a)).Next()
				m, e2 := stream.Max(iter.OfSlice(a)).Next()
				v, e3 := stream.AvgInt(iter.OfSlice(a)).Next()
				c, e4 := stream.Count(iter.OfSlice(a)).Next()
				b, e5 := stream.AnyMatch(isNeg)(iter.OfSlice(a)).Next()
				return show(s, m, v, c, b, e1, e2, e3, e4, e5)
			}},
			{"absolute", func(g *gen) string { v, err := all(stream.Abs(iter.OfSlice(a))); return ints(v) + show(err) }},
			{"parallel", func(g *gen) string {
				pi := []stream.PInfo{}
				if g.bool() {
					pi = append(pi, stream.PInfo{N: 1 + g.n(4), PUnit: stream.PUnit(g.bool())})
				}
				v, err := all(stream.Parallel(stream.Map(func(i int) int { return i*2 + 1 }), pi...)(iter.OfSlice(a)))
				return ints(v) + show(err)
			}},
			{"expand", func(g *gen) string {
				v, err := all(stream.ExpandSlices(iter.OfSlice(nested[0])))
				return ints(v) + show(err)
			}},
			{"write", func(g *gen) string {
				own := []int{}
				err := writer.OfSliceWriter(&own).Write(a...)
				out := ints(own) + show(err)
				fill(own)
				return out
			}},
			{"collect behind others", func(g *gen) string {
				own := make([]int, len(a)+g.n(3))
				v, err := stream.ReduceIntoSlice(own)(iter.OfSlice(a)).Next()
				return ints(v) + show(err)
			}},
			{"first", func(g *gen) string {
				f := union.First(a)
				return show(f.Present(), f.OrElse(-5)) + attempt(func() string { return ints(funcs.MustNonEmptySlice(a)) })
			}},
			{"predicate of its values", func(g *gen) string {
				in := funcs.In(a...)
				out := ""
				for i := -20; i < 20; i += 3 {
					out += fmt.Sprint(in(i), " ")
				}
				return out
			}},
			{"append", func(g *gen) string { // to a variable of its own, cut to its length
				own := a[:len(a):len(a)]
				funcs.SliceAdd(&own, g.n(100))
				return ints(own)
			}},
		},
	}
}

// shareText shares slices of text and bytes that are written
func shareText(g *gen) shareable {
	var words []string
	for n := g.n(5); n > 0; n-- {
		words = append(words, g.word())
	}
	raw := []byte(strings.Join(words, "\n"))
	runes := []rune(string(raw))
	return shareable{
		look: func() string { return show(words, raw, runes) },
		ops: []reading{
			{"strings", func(g *gen) string {
				var buf bytes.Buffer
				err := writer.OfIOWriterAsStrings(&buf).Write(words...)
				return buf.String() + show(err)
			}},
			{"lines", func(g *gen) string {
				var buf bytes.Buffer
				err := writer.OfIOWriterAsLines(&buf).Write(words...)
				return buf.String() + show(err)
			}},
			{"bytes", func(g *gen) string {
				w := mio.NewErrorWriter(g.n(30), fmt.Errorf("failed %d", g.n(50)))
				err := writer.OfIOWriterAsBytes(w).Write(raw...)
				return string(w.Output()) + show(err)
			}},
			{"runes", func(g *gen) string {
				var buf bytes.Buffer
				err := writer.OfIOWriterAsRunes(&buf).Write(runes...)
				return buf.String() + show(err)
			}},
			{"failing reader", func(g *gen) string {
				b, err := all(iter.OfReader(mio.NewErrorReader(raw, fmt.Errorf("broken %d", g.n(9)))))
				out := show(b, err)
				clear(b)
				return out
			}},
			{"failing writer", func(g *gen) string {
				w := mio.NewErrorWriter(g.n(10), fmt.Errorf("failed %d", g.n(50)))
				n, err := w.Write(raw)
				out := string(w.Output()) + show(n, err)
				return out
			}},
			{"read", func(g *gen) string {
				r, e1 := all(iter.OfReaderAsRunes(bytes.NewReader(raw)))
				l, e2 := all(iter.OfReaderAsLines(bytes.NewReader(raw)))
				out := show(r, l, e1, e2)
				clear(r)
				clear(l)
				return out
			}},
			{"sort", func(g *gen) string {
				l, err := all(stream.SortOrdered(iter.OfSlice(words)))
				return show(l, err)
			}},
			{"map", func(g *gen) string {
				l, err := all(stream.Map(funcs.CamelCaseToSnakeCase)(iter.OfSlice(words)))
				return show(l, err)
			}},
		},
	}
}

func shareMap(g *gen) shareable {
	m := map[string]int{}
	m2 := map[string]map[int][]int{}
	for n := g.n(6); n > 0; n-- {
		m[g.word()] = g.n(50)
		funcs.Map2SliceAdd(&m2, g.word(), g.n(3), g.n(9))
	}
	ms := map[int][]string{1: {"a", "b"}, g.n(5): {g.word()}}
	ot := funcs.MapSortOrdered(m)
	anys := map[string]any{}
	for _, k := range sortedKeys(m) {
		anys[k] = m[k]
	}
	list := []map[string]int{m, nil, {"z": 1}}
	return shareable{
		look: func() string { return mapText(m) + fmt.Sprint(m2, ms, ot, anys) },
		ops: []reading{
			{"index", func(g *gen) string {
				k := g.word()
				return show(funcs.MapIndex(m, k, 42), funcs.MapTest(m, k), funcs.Map2Test(m2, k, g.n(3)), funcs.MapIndex(ms, g.n(5), []string{"none"}), funcs.MapIndex(m, k))
			}},
			{"keys", func(g *gen) string {
				k := funcs.MapKeysToSlice(m)
				out := sortedText(append([]string{}, k...))
				clear(k)
				return out
			}},
			{"sort", func(g *gen) string {
				a := funcs.MapSortOrdered(m)
				b := funcs.MapSortBy(m, func(x, y string) bool { return x > y })
				out := fmt.Sprint(a, b)
				clear(a)
				clear(b)
				return out
			}},
			{"iterate", func(g *gen) string {
				v, err := all(iter.OfMap(m))
				var parts []string
				for _, p := range v {
					parts = append(parts, fmt.Sprint(p))
				}
				return sortedText(parts) + show(err)
			}},
			{"collect", func(g *gen) string {
				v, err := stream.ReduceToMap(iter.OfMap(m)).Next()
				out := mapText(v) + show(err)
				clear(v)
				return out
			}},
			{"expand", func(g *gen) string {
				v, err := all(stream.ExpandMaps(iter.OfSlice(list)))
				var parts []string
				for _, p := range v {
					parts = append(parts, fmt.Sprint(p))
				}
				return sortedText(parts) + show(err)
			}},
			{"write", func(g *gen) string {
				own := map[string]int{}
				err := writer.OfMapWriter(own).Write(ot...)
				out := mapText(own) + show(err)
				clear(own)
				return out
			}},
			{"search", func(g *gen) string {
				k := g.word()
				if len(ot) > 0 && g.bool() {
					k = ot[g.n(len(ot))].T
				}
				i, ok := funcs.OrderedTuple2Search(ot, k)
				return show(i, ok)
			}},
			{"convert", func(g *gen) string {
				c, err := funcs.ConvertToMap[string, int]("no", anys)
				d, err2 := funcs.ConvertToMap[string, string]("no", anys)
				out := mapText(c) + show(err) + mapText(d) + show(err2)
				if len(anys) > 0 && c != nil {
					clear(c)
				}
				return out
			}},
		},
	}
}

func shareUnions(g *gen) shareable {
	a, b, c := union.Of2U[int, string](g.word()), union.Of3V[int, string, []int](g.ints()), union.Of4T[int, string, bool, float64](g.n(9))
	m, n, r := union.Of(g.ints()), union.Empty[string](), pick(g, union.OfResult(g.n(9)), union.OfError[int](fmt.Errorf("bad %d", g.n(9))))
	t2, t3, t4 := tuple.Of2(g.n(9), g.ints()), tuple.Of3(g.word(), g.n(9), g.bool()), tuple.Of4Same(g.n(9), 1, 2, 3)
	rg := mmath.OfRange(0, mmath.Closed, 20, mmath.Open, g.n(19))
	fr := mmath.OfRange(-0.5, mmath.Open, 2.5, mmath.Closed, 1)
	text := func() string {
		return show(a, b, c) + fmt.Sprint(m, n, r, t2, t3, t4) + show(rg, fr)
	}
	return shareable{
		look: text,
		ops: []reading{
			{"show", func(g *gen) string { return text() }},
			{"unions", func(g *gen) string {
				return show(a.Which().String(), a.U(), b.V(), c.T(), b.Which().String(), a.String(), b.String(), c.String()) +
					attempt(func() string { return show(a.T()) }) + attempt(func() string { return show(b.U()) }) + attempt(func() string { return show(c.W()) })
			}},
			{"optionals", func(g *gen) string {
				x, err := n.OrError(fmt.Errorf("none"))
				return show(m.Present(), m.Get(), m.OrElse(nil), n.Empty(), n.OrElse(g.word()), x, err, m.String(), n.String()) + attempt(n.Get)
			}},
			{"results", func(g *gen) string {
				return show(r.HasError(), r.HasResult()) + r.String() + attempt(func() string { return show(r.Get()) }) + attempt(func() string { return show(r.Error()) })
			}},
			{"copies", func(g *gen) string {
				x, y, z, w := a, b, m, rg
				x.SetT(g.n(9))
				y.SetU(g.word())
				z.SetEmpty()
				err := w.SetValue(g.n(30))
				return show(x, y, z.Present(), w.GetValue(), err)
			}},
			{"tuples", func(g *gen) string {
				p, q := t2.Values()
				u, v, w := t3.Values()
				return show(p, q, u, v, w, t2.String(), t3.String(), t4.String())
			}},
			{"ranges", func(g *gen) string {
				p, pm := rg.GetMin()
				q, qm := rg.GetMax()
				return show(rg.GetValue(), p, pm, q, qm, fr.GetValue())
			}},
			{"reflected", func(g *gen) string {
				v, w := goreflect.ValueOf(m), goreflect.ValueOf(&n)
				return show(unionreflect.MaybeValueIsPresent(v), unionreflect.MaybeValueIsPresent(w), unionreflect.GetMaybeValue(v).Interface()) +
					describe(unionreflect.GetMaybeType(v.Type()))
			}},
		},
	}
}

// shareFuncs shares functions made by the library
func shareFuncs(g *gen) shareable {
	v := g.n(20)
	filter := funcs.And(funcs.GreaterThan(v-5), funcs.Not(funcs.In(v, v+1)), funcs.Or(funcs.LessThanEqual(v+9), funcs.Equal(v+12)))
	chain := funcs.Compose(func(i int) int { return i * v }, func(i int) int { return i + 1 }, func(i int) int { return -i })
	chain3 := funcs.Compose3(func(i int) string { return fmt.Sprint(i + v) }, func(s string) []byte { return []byte(s + "!") }, func(b []byte) int { return len(b) })
	chain5 := funcs.Compose5(func(i int) int { return i + 1 }, func(i int) int { return i * 2 }, func(i int) float64 { return float64(i) / 4 }, func(f float64) string { return fmt.Sprint(f) }, func(s string) string { return s + "." })
	sup := funcs.SupplierOf(v)
	cached := funcs.SupplierCached(func() int { return v * 2 })
	path, perr := json.ParsePath(pick(g, ".a[1].b", ".a", "[0]", ".x.y", ".a[1]"))
	stage := stream.Map(func(i int) string { return fmt.Sprint(i - v) })
	sorter := stream.SortBy(func(a, b int) bool { return a%7 < b%7 || a%7 == b%7 && a < b })
	look := func() string {
		out := ""
		for i := -3; i < 25; i += 4 {
			out += show(filter(i), chain(i), chain3(i), chain5(i))
		}
		return out + show(sup(), cached(), perr)
	}
	return shareable{
		look: look,
		ops: []reading{
			{"filters", func(g *gen) string {
				out := ""
				for n := 5; n > 0; n-- {
					out += show(filter(g.n(40) - 5))
				}
				return out
			}},
			{"chains", func(g *gen) string {
				i := g.n(50)
				return show(chain(i), chain3(i), chain5(i))
			}},
			{"suppliers", func(g *gen) string { return show(sup(), cached()) }},
			{"search", func(g *gen) string {
				if perr != nil {
					return show(perr)
				}
				r, err := path(json.MustToValue(map[string]any{"a": []any{g.n(5), map[string]any{"b": g.word()}}, "x": map[string]any{"y": g.word()}}))
				r2, err2 := path(json.MustToValue([]any{g.word()}))
				return showJSON(r) + show(err) + showJSON(r2) + show(err2)
			}},
			{"stages", func(g *gen) string {
				x, err := all(stage(iter.OfSlice(g.ints())))
				y, err2 := all(sorter(iter.OfSlice(g.ints())))
				return show(x, err) + ints(y) + show(err2)
			}},
		},
	}
}

// shareTypes shares types and values that are reflected on
func shareTypes(g *gen) shareable {
	var types []goreflect.Type
	types = append(types, indTypes()...)
	types = append(types, indTypes2()...)
	types = append(types, indTypes3()...)
	types = append(types, goreflect.TypeOf(new(*string)), goreflect.TypeOf(big.NewInt(1)), goreflect.TypeOf(indMyInt(1)), goreflect.TypeOf(union.Of("")))
	n, f := g.n(300), float64(g.n(99))/4
	pn := &n
	ppn := &pn
	var nothing *int
	vals := []goreflect.Value{goreflect.ValueOf(n), goreflect.ValueOf(pn), goreflect.ValueOf(ppn), goreflect.ValueOf(f), goreflect.ValueOf(nothing),
		goreflect.ValueOf(indMyStr(g.word())), goreflect.ValueOf([]any{pn, f}), goreflect.ValueOf(big.NewRat(g.i64(), 3))}
	return shareable{
		look: func() string { return show(n, *pn, **ppn, f, vals[5].String(), vals[7].Interface()) },
		ops: []reading{
			{"fields", func(g *gen) string {
				t := types[g.n(len(types))]
				fs := reflect.FieldsByName(t)
				var names []string
				for _, f := range fs {
					names = append(names, showField(f))
				}
				clear(fs)
				return sortedText(names) + attempt(func() string { return showField(reflect.GetFieldByName(t, pick(g, "A", "B", "C", "D"))) })
			}},
			{"types", func(g *gen) string {
				t := types[g.n(len(types))]
				return describe(reflect.DerefType(t)) + describe(reflect.DerefTypeMaxOnePtr(t)) + describe(reflect.TypeToBaseType(t)) +
					show(reflect.IsBigPtr(t), reflect.IsNumeric(t), reflect.NumPointers(t), reflect.IsNillable[goreflect.Type](t), reflect.IsPrimitive[goreflect.Type](t), funcs.Nillable(t)) +
					describe(unionreflect.GetMaybeType(t))
			}},
			{"values", func(g *gen) string {
				v := vals[g.n(len(vals))]
				return show(reflect.TypeOf(v), reflect.IsNil(v), reflect.IsNillable[goreflect.Value](v)) +
					attempt(func() string { return describe(reflect.DerefValue(v).Type()) }) +
					attempt(func() string { return describe(reflect.DerefValueMaxOnePtr(v).Type()) }) +
					attempt(func() string { return describe(reflect.ValueToBaseType(v).Type()) }) +
					attempt(func() string { return describe(reflect.ResolveValueType(v).Type()) }) +
					attempt(func() string { return describe(reflect.ValueMaxOnePtrType(v)) }) +
					show(reflect.TypeAssert(v, types[g.n(len(types))], g.word()))
			}},
			{"convert", func(g *gen) string {
				v := vals[g.n(len(vals))]
				return attempt(func() string {
					var i16 int16
					var s string
					var mi indMyInt
					var r *big.Rat
					e1 := conv.ReflectTo(v, goreflect.ValueOf(&i16))
					e2 := conv.ReflectTo(v, goreflect.ValueOf(&s))
					e3 := conv.ReflectTo(v, goreflect.ValueOf(&mi))
					e4 := conv.ReflectTo(v, goreflect.ValueOf(&r))
					out := show(i16, s, mi, r, e1, e2, e3, e4)
					if r != nil {
						r.SetInt64(5)
					}
					return out
				})
			}},
			{"copy", func(g *gen) string {
				return attempt(func() string {
					own := new(int)
					reflect.SetPointerValue(goreflect.ValueOf(&own), vals[0])
					out := show(*own)
					*own = -1
					mb := union.Empty[int]()
					err := unionreflect.SetMaybeValue(goreflect.ValueOf(&mb), vals[0])
					return out + show(mb.OrElse(-9), err)
				})
			}},
		},
	}
}

var shareables = []struct {
	name string
	mk   func(g *gen) shareable
}{
	{"JSON value", shareJSON}, {"maps and slices for JSON", shareGo}, {"decimals", shareDecimals}, {"big numbers", shareBigs}, {"list of big numbers", shareBigList},
	{"slice", shareSlice}, {"texts", shareText}, {"map", shareMap}, {"unions and tuples", shareUnions}, {"functions", shareFuncs}, {"types and values", shareTypes},
}

func runShared(e *E) {
	kind := shareables[e.Draw(len(shareables))]
	seed := uint64(e.Draw(1 << 30))
	build := func() shareable { return kind.mk(&gen{seed}) }
	shared := build()
	type step struct {
		op   int
		data uint64
		wait bool
		want string
	}
	nt := e.Range(1, 4)
	plans := make([][]step, nt)
	focus := -1
	if e.OneIn(3) {
		focus = e.Draw(len(shared.ops))
	}
	run := func(s shareable, k int, data uint64) string {
		return attempt(func() string { return s.ops[k].fn(&gen{vsim.Mix64(data)}) })
	}
	for i := range plans {
		for n := e.Range(1, 5); n > 0; n-- {
			k := e.Draw(len(shared.ops))
			if focus >= 0 && e.Bool() {
				k = focus
			}
			data := uint64(e.Draw(1 << 20))
			plans[i] = append(plans[i], step{op: k, data: data, wait: e.OneIn(4)})
		}
	}
	before := build().look()
	for i := range plans {
		for j := range plans[i] {
			s := &plans[i][j]
			s.want = run(build(), s.op, s.data)
		}
	}
	e.Trace("shared: %s, %s", kind.name, clip(before))
	for i := range plans {
		e.Go(fmt.Sprint("reader", i), func() {
			for j, s := range plans[i] {
				if s.wait {
					vsim.Sleep(time.Duration(1+(i+j)%3) * time.Second)
				}
				e.Trace("thread %d: %s", i, shared.ops[s.op].name)
				got := run(shared, s.op, s.data)
				e.Assert(got == s.want, "interference", "%s, %s: the result is\n  %s\ninstead of what it is for an equal value of its own\n  %s", kind.name, shared.ops[s.op].name, clip(got), clip(s.want))
			}
		})
	}
	e.Join()
	after := shared.look()
	e.Assert(after == before, "changed", "%s: the value has become\n  %s\ninstead of\n  %s", kind.name, clip(after), clip(before))
	if nt > 1 {
		e.NonTrivial()
	}
	e.Probe(kind.name)
	e.State(kind.name, seed, plans)
}

func init() {
	register(&Check{
		ID: "C26", Race: true, Quick: 120000, Thorough: 3000000, Budget: 3000000, Fresh: 500,
		Rule:   "a run = one value (JSON, Go maps and slices, decimals, big numbers, slices, maps, unions, tuples, ranges, functions, types) shared by 1-4 threads that each make 1-5 reading operations on it; non-trivial = several threads; distinct = by value and plan",
		Real:   []string{"conv", "math", "reflect", "union", "tuple", "funcs", "iter", "stream", "io", "io/writer", "encoding/json"},
		Stub:   []string{"thread scheduler (seeded)", "readers", "clock"},
		Assume: []string{"what a result has to be comes from the same operation on an equal value that nobody shares"},
		Run:    runShared,
	})
}
