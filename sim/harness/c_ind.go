package harness

import (
	"bytes"
	"compress/gzip"
	gojson "encoding/json"
	"errors"
	"fmt"
	goio "io"
	"math"
	"math/big"
	"net/http"
	"net/url"
	"os"
	goreflect "reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/bantling/micro/code"
	"github.com/bantling/micro/conv"
	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/encoding/json/write"
	"github.com/bantling/micro/event"
	"github.com/bantling/micro/funcs"
	mio "github.com/bantling/micro/io"
	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/iter"
	mmath "github.com/bantling/micro/math"
	"github.com/bantling/micro/reflect"
	"github.com/bantling/micro/rest"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/strukt"
	"github.com/bantling/micro/tuple"
	"github.com/bantling/micro/union"
	unionreflect "github.com/bantling/micro/union/reflect"

	"verif.local/sim/vos"
	"verif.local/sim/vsim"
)

// C23: unrelated uses of the library by threads that run at the same time.
//
// A use is one of a pool of calls of all packages. Every use makes its own data from its own seed, so that two uses,
// even two executions of the same use, share nothing but what the library itself shares. Its result, written out as
// text, has to be what it is when the use runs alone in a new process: the driver finds that out first, with one
// process for each use. After writing out its result a use overwrites everything it was given, as its owner may.

// gen makes the data of a use; it is not a part of the choices of a run
type gen struct{ s uint64 }

func (g *gen) n(n int) int {
	g.s = vsim.Mix64(g.s)
	return int(g.s>>33) % n
}
func (g *gen) bool() bool { return g.n(2) == 1 }
func (g *gen) i64() int64 {
	switch g.n(6) {
	case 0:
		return int64(g.n(10))
	case 1:
		return -int64(g.n(300))
	case 2:
		return []int64{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 127, -128, 255, 65535, 1 << 53}[g.n(9)]
	case 3:
		return int64(g.n(1<<30)) * int64(g.n(1<<30))
	}
	return int64(g.n(100000)) - 50000
}
func (g *gen) word() string {
	return []string{"alpha", "beta", "gamma", "delta", "eta", "Theta", "x", "", "a b", "é", "日本", "q\"uote", "back\\slash", "tab\t"}[g.n(14)] + strings.Repeat("z", g.n(3))
}
func (g *gen) ints() (out []int) {
	for n := g.n(9); n > 0; n-- {
		out = append(out, g.n(40)-20)
	}
	return
}
func pick[T any](g *gen, of ...T) T { return of[g.n(len(of))] }

func show(args ...any) string {
	var sb strings.Builder
	for _, a := range args {
		switch x := a.(type) {
		case error:
			sb.WriteString("error(" + x.Error() + ")")
		case *big.Int:
			if x == nil {
				sb.WriteString("nil big.Int")
			} else {
				sb.WriteString(x.String())
			}
		case *big.Rat:
			if x == nil {
				sb.WriteString("nil big.Rat")
			} else {
				sb.WriteString(x.String())
			}
		case *big.Float:
			if x == nil {
				sb.WriteString("nil big.Float")
			} else {
				sb.WriteString(x.Text('p', 0) + "/" + fmt.Sprint(x.Prec()))
			}
		default:
			fmt.Fprintf(&sb, "%#v", a)
		}
		sb.WriteString("; ")
	}
	return sb.String()
}

func all[T any](it iter.Iter[T]) (out []T, err error) {
	var v T
	for n := 0; n < 5000; n++ {
		if v, err = it.Next(); err != nil {
			return
		}
		out = append(out, v)
	}
	return
}

// chunky is a reader that fragments
type chunky struct {
	data []byte
	g    gen
}

func (c *chunky) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, goio.EOF
	}
	vsim.Y(0)
	n := copy(p, c.data[:min(len(c.data), 1+c.g.n(7))])
	c.data = c.data[n:]
	return n, nil
}
func (g *gen) reader(s string) goio.Reader { return &chunky{[]byte(s), gen{g.s}} }

func (g *gen) jsonAny(depth int) any {
	switch k := g.n(8); {
	case k < 2 && depth > 0:
		out := []any{}
		for n := g.n(4); n > 0; n-- {
			out = append(out, g.jsonAny(depth-1))
		}
		return out
	case k < 4 && depth > 0:
		out := map[string]any{}
		for n := g.n(4); n > 0; n-- {
			out[g.word()] = g.jsonAny(depth - 1)
		}
		return out
	case k == 4:
		return g.bool()
	case k == 5:
		return nil
	case k == 6:
		return gojson.Number(pick(g, "0", "-1", "12.5", "1e5", "-0.25E-3", strconv.FormatInt(g.i64(), 10)))
	}
	return g.word()
}

func showJSON(v json.Value) string {
	b, err := gojson.Marshal(plain(v))
	return v.Type().String() + string(b) + fmt.Sprint(err)
}

func plain(v json.Value) any {
	switch v.Type() {
	case json.Object:
		out := map[string]any{}
		m := v.AsMap()
		for _, k := range sortedKeys(m) { // the order of calls has to be the same each time
			out[k] = plain(m[k])
		}
		return out
	case json.Array:
		out := []any{}
		for _, x := range v.AsSlice() {
			out = append(out, plain(x))
		}
		return out
	case json.String:
		return v.AsString()
	case json.Number:
		return "#" + string(v.AsNumber())
	case json.Boolean:
		return v.AsBool()
	}
	return nil
}

func sortedKeys[V any](m map[string]V) (keys []string) {
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return
}

// scribble overwrites what a value is made of
func scribble(v json.Value) {
	switch v.Type() {
	case json.Object:
		m := v.AsMap()
		for _, k := range sortedKeys(m) {
			scribble(m[k])
		}
		clear(m)
	case json.Array:
		for i, x := range v.AsSlice() {
			scribble(x)
			v.AsSlice()[i] = json.StringToValue("scribbled")
		}
	}
}

type (
	indMyInt   int16
	indMyStr   string
	indMyUint8 uint8
	indMyFloat float32
)

// Types that share their names, as types of different packages or functions do
func indTypes() []goreflect.Type {
	type Rec struct {
		A int
		B string
	}
	return []goreflect.Type{goreflect.TypeOf(Rec{}), goreflect.TypeOf([]Rec{}), goreflect.TypeOf(&Rec{}), goreflect.TypeOf(union.Of(Rec{}))}
}

func indTypes2() []goreflect.Type {
	type Rec struct {
		B float64
		C []byte
		D *int
	}
	return []goreflect.Type{goreflect.TypeOf(Rec{}), goreflect.TypeOf([]Rec{}), goreflect.TypeOf(&Rec{}), goreflect.TypeOf(union.Of(&Rec{}))}
}

func indTypes3() []goreflect.Type {
	type Rec uint16
	return []goreflect.Type{goreflect.TypeOf(Rec(1)), goreflect.TypeOf([]Rec{}), goreflect.TypeOf(new(Rec)), goreflect.TypeOf(union.Of(Rec(1)))}
}

func showField(f goreflect.StructField) string {
	return fmt.Sprint(f.Name, " ", f.Type.Kind(), " ", f.Type, " ", f.Index, " ", f.Offset)
}

func describe(t goreflect.Type) string {
	if t == nil {
		return "no type"
	}
	s := fmt.Sprint(t, " ", t.Kind(), " ", t.Size())
	if t.Kind() == goreflect.Struct {
		for i := 0; i < t.NumField(); i++ {
			s += " " + t.Field(i).Name
		}
	}
	return s
}

func convAll[I constraintAny](g *gen, in I) string {
	var (
		i   int
		i8  int8
		i16 int16
		i32 int32
		i64 int64
		u   uint
		u8  uint8
		u16 uint16
		u32 uint32
		u64 uint64
		f32 float32
		f64 float64
		str string
		bi  *big.Int
		bf  *big.Float
		br  *big.Rat
	)
	run := func(fn func() error) error {
		var err error
		if p, panicked := Catch(func() { err = fn() }); panicked {
			return fmt.Errorf("panic %v", p)
		}
		return err
	}
	type one struct {
		fn  func() error
		val func() any
	}
	of := []one{
		{func() error { return conv.To(in, &i) }, func() any { return i }},
		{func() error { return conv.To(in, &i8) }, func() any { return i8 }},
		{func() error { return conv.To(in, &i16) }, func() any { return i16 }},
		{func() error { return conv.To(in, &i32) }, func() any { return i32 }},
		{func() error { return conv.To(in, &i64) }, func() any { return i64 }},
		{func() error { return conv.To(in, &u) }, func() any { return u }},
		{func() error { return conv.To(in, &u8) }, func() any { return u8 }},
		{func() error { return conv.To(in, &u16) }, func() any { return u16 }},
		{func() error { return conv.To(in, &u32) }, func() any { return u32 }},
		{func() error { return conv.To(in, &u64) }, func() any { return u64 }},
		{func() error { return conv.To(in, &f32) }, func() any { return f32 }},
		{func() error { return conv.To(in, &f64) }, func() any { return f64 }},
		{func() error { return conv.To(in, &str) }, func() any { return str }},
		{func() error { return conv.To(in, &bi) }, func() any { return bi }},
		{func() error { return conv.To(in, &bf) }, func() any { return bf }},
		{func() error { return conv.To(in, &br) }, func() any { return br }},
		{func() error { return conv.AnyTo(any(in), &i16) }, func() any { return i16 }},
		{func() error { return conv.AnyTo(any(in), &br) }, func() any { return br }},
		{func() error { return conv.ToBigOps(in, &bi) }, func() any { return bi }},
		{func() error { return conv.ToBigOps(in, &bf) }, func() any { return bf }},
		{func() error { return conv.ToBigOps(in, &br) }, func() any { return br }},
		{func() error { return conv.ReflectTo(goreflect.ValueOf(in), goreflect.ValueOf(&str)) }, func() any { return str }},
		{func() error { return conv.ReflectTo(goreflect.ValueOf(in), goreflect.ValueOf(&f64)) }, func() any { return f64 }},
	}
	out := ""
	for n := 3; n > 0; n-- {
		o := of[g.n(len(of))]
		err := run(o.fn)
		out += show(o.val(), err)
	}
	// they are the caller's
	if bi != nil {
		bi.SetInt64(-77)
	}
	if bf != nil {
		bf.SetInt64(-77)
	}
	if br != nil {
		br.SetInt64(-77)
	}
	return out
}

type constraintAny interface {
	int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | float32 | float64 | string | *big.Int | *big.Float | *big.Rat
}

func indDecimals(g *gen) (a, b mmath.Decimal) {
	mk := func() mmath.Decimal {
		v := g.i64() % 1000000
		if g.n(3) == 0 { // almost as many digits as there can be
			v = v*1000000 + g.i64()%1000000
			v = v*pick(g, int64(10), 1000, 100000) + 45
		}
		return mmath.MustDecimal(v, uint(g.n(7)), g.bool())
	}
	return mk(), mk()
}

func showDec(d mmath.Decimal) string {
	return fmt.Sprint(d.String(), "/", d.Scale(), "/", d.Normalized(), "/", d.Precision(), "/", d.Sign())
}

type indRcv struct{ tag string }

func (r *indRcv) Process(s string) string { return s + r.tag }

type indResp struct {
	hdr  http.Header
	code int
	bytes.Buffer
}

func (w *indResp) Header() http.Header { return w.hdr }
func (w *indResp) WriteHeader(c int)   { w.code = c }

var indUses = []struct {
	name string
	fn   func(g *gen, place string) string
}{
	{"json parse", func(g *gen, _ string) string {
		doc := g.jsonAny(3)
		if _, ok := doc.(map[string]any); !ok {
			doc = []any{doc, g.jsonAny(2)}
		}
		b, _ := gojson.Marshal(doc)
		text := string(b)
		if g.n(5) == 0 {
			text = text[:g.n(len(text))]
		}
		v, err := parse.Parse(g.reader(text))
		out := "invalid"
		if err == nil {
			out = showJSON(v)
			scribble(v)
		}
		return out + show(err)
	}},
	{"json stream", func(g *gen, _ string) string {
		b, _ := gojson.Marshal([]any{g.jsonAny(2), g.jsonAny(1), g.jsonAny(1)})
		if g.n(4) == 0 {
			b = b[:g.n(len(b))]
		}
		it := parse.Iterate(g.reader(string(b)))
		out := ""
		for n := 0; n < 10; n++ {
			v, err := it.Next()
			if err != nil {
				return out + show(err)
			}
			out += showJSON(v)
			scribble(v)
		}
		return out
	}},
	{"json write", func(g *gen, _ string) string {
		v := json.MustToValue([]any{g.word(), g.n(1000), g.bool(), []any{g.word(), nil, float64(g.n(100)) / 4}, map[string]any{g.word(): g.word()}})
		var buf bytes.Buffer
		err := write.Write(v, writer.OfIOWriterAsRunes(&buf))
		return buf.String() + show(err)
	}},
	{"json write to a failing writer", func(g *gen, _ string) string {
		v := json.MustToValue([]any{g.word(), g.n(1000), map[string]any{g.word(): []any{g.word()}}})
		w := mio.NewErrorWriter(g.n(20), fmt.Errorf("failed %d", g.n(50)))
		err := write.Write(v, writer.OfIOWriterAsRunes(w))
		return string(w.Output()) + show(err)
	}},
	{"json path", func(g *gen, _ string) string {
		k1, k2 := pick(g, "a", "b", "key"), pick(g, "c", "d")
		v := json.MustToValue(map[string]any{k1: []any{1, map[string]any{k2: g.word()}, g.word()}, "z": map[string]any{k2: true}})
		paths := []string{".a[0]", ".b[1].c", ".key[1].d", ".z.c", ".z.d", ".a[7]", "[0].a", ".q", "a", ".a[", ".b[1].d", ".key[2]", ".a[99999999999999999999]"}
		out := ""
		for n := 3; n > 0; n-- {
			p := paths[g.n(len(paths))]
			fn, err := json.ParsePath(p)
			out += p + show(err)
			if err == nil {
				r, err := fn(v)
				out += showJSON(r) + show(err)
				r2, err2 := fn(json.MustToValue(map[string]any{"a": []any{g.n(5)}}))
				out += showJSON(r2) + show(err2)
			}
		}
		return out
	}},
	{"json value", func(g *gen, _ string) string {
		v := json.MustToValue(map[string]any{"n": g.n(100), "s": []any{g.word(), g.bool(), nil}, "m": map[string]any{"x": g.i64()}})
		m := v.ToMap()
		out := showJSON(v) + fmt.Sprint(m)
		clear(m)
		out += showJSON(v)
		f, err := json.NumberToValue(json.NumberString(pick(g, "12", "x", "1e5", "-", "0.5")))
		return out + showJSON(f) + show(err)
	}},
	{"iterate text", func(g *gen, _ string) string {
		text := ""
		for n := g.n(8); n > 0; n-- {
			text += g.word() + pick(g, "\n", "\r\n", "\r", " ", ",")
		}
		switch g.n(4) {
		case 0:
			r, err := all(iter.OfReaderAsRunes(g.reader(text)))
			return string(r) + show(err)
		case 1:
			l, err := all(iter.OfReaderAsLines(g.reader(text)))
			return show(l, err)
		case 2:
			b, err := all(iter.OfReader(g.reader(text)))
			return show(b, err)
		}
		l, err := all(iter.OfStringAsLines(text))
		return show(l, err)
	}},
	{"iterate csv", func(g *gen, _ string) string {
		text := ""
		cols := 1 + g.n(3)
		for n := 1 + g.n(5); n > 0; n-- {
			for c := 0; c < cols; c++ {
				if c > 0 {
					text += ","
				}
				text += strconv.Quote(strings.Trim(strings.ReplaceAll(g.word(), "\\", ""), "\"\t")) + pick(g, "", "", "", "", "", "", "", "x")
			}
			text += "\n"
		}
		it := iter.OfCSV(g.reader(text))
		out := ""
		for n := 0; n < 20; n++ {
			rec, err := it.Next()
			out += show(rec, err)
			for i := range rec {
				rec[i] = "scribbled"
			}
			if err != nil {
				break
			}
		}
		return out
	}},
	{"iterate values", func(g *gen, _ string) string {
		it := iter.Concat(iter.Of(g.ints()...), iter.OfSlice(g.ints()), iter.OfOne(g.n(9)), iter.OfEmpty[int]())
		out := ""
		for n := 0; n < 40; n++ {
			v, err := it.Next()
			out += show(v, err)
			if err != nil {
				break
			}
			if g.n(4) == 0 {
				it.Unread(v + 1)
			}
		}
		r := iter.Maybe(iter.SetError(iter.Of(g.n(5)), errors.New(g.word())))
		fib := stream.Limit[int](uint(g.n(20)))(iter.OfIter(iter.FibonnaciIterGen()))
		f, err := all(fib)
		return out + show(r.HasResult(), f, err)
	}},
	{"stream pipeline", func(g *gen, _ string) string {
		it := iter.OfSlice(g.ints())
		it = stream.Map(func(i int) int { return i*3 - 1 })(it)
		for n := g.n(4); n > 0; n-- {
			switch g.n(9) {
			case 0:
				it = stream.Filter(func(i int) bool { return i%2 == 0 })(it)
			case 1:
				it = stream.Distinct(it)
			case 2:
				it = stream.Duplicate(it)
			case 3:
				it = stream.Reverse(it)
			case 4:
				it = stream.SortOrdered(it)
			case 5:
				it = stream.Skip[int](uint(g.n(3)))(it)
			case 6:
				it = stream.Limit[int](uint(g.n(6)))(it)
			case 7:
				it = stream.Abs(it)
			case 8:
				it = stream.MapError(func(i int) (int, error) {
					if i == 17 {
						return 0, errors.New("seventeen")
					}
					return i + 1, nil
				})(it)
			}
		}
		switch g.n(8) {
		case 0:
			v, err := stream.Sum(it).Next()
			return show(v, err)
		case 1:
			v, err := stream.AvgInt(it).Next()
			return show(v, err)
		case 2:
			v, err := stream.Max(it).Next()
			return show(v, err)
		case 3:
			v, err := stream.Count(it).Next()
			return show(v, err)
		case 4:
			v, err := stream.ReduceToSlice(it).Next()
			out := show(v, err)
			for i := range v {
				v[i] = -1
			}
			return out
		case 5:
			v, err := stream.AnyMatch(func(i int) bool { return i > 10 })(it).Next()
			return show(v, err)
		case 6:
			v, err := stream.ReduceToMap(stream.Map(func(i int) tuple.Two[int, string] { return tuple.Of2(i/3, fmt.Sprint(i)) })(it)).Next()
			out := fmt.Sprint(v) + show(err)
			clear(v)
			return out
		}
		v, err := all(it)
		return show(v, err)
	}},
	{"stream big numbers", func(g *gen, _ string) string {
		var rs []*big.Rat
		for n := 1 + g.n(4); n > 0; n-- {
			rs = append(rs, big.NewRat(int64(g.n(40)-20), int64(1+g.n(6))))
		}
		mk := func() iter.Iter[*big.Rat] {
			var c []*big.Rat
			for _, r := range rs {
				c = append(c, new(big.Rat).Set(r))
			}
			return iter.OfSlice(c)
		}
		s, err := stream.SumBigOps(mk()).Next()
		a, err2 := stream.AvgBigOps(mk()).Next()
		b, err3 := all(stream.AbsBigOps(mk()))
		x, err4 := all(stream.SortBy(func(a, b *big.Rat) bool { return a.Cmp(b) < 0 })(mk()))
		out := show(s, err, a, err2, err3, err4)
		for _, r := range append(b, x...) {
			out += show(r)
			r.SetInt64(99)
		}
		if s != nil {
			s.SetInt64(98)
		}
		if a != nil {
			a.SetInt64(97)
		}
		return out
	}},
	{"stream parallel", func(g *gen, _ string) string {
		v, err := all(stream.Parallel(stream.Map(func(i int) string { return fmt.Sprint(i * i) }), stream.PInfo{N: 1 + g.n(3), PUnit: stream.PUnit(g.bool())})(iter.OfSlice(g.ints())))
		return show(v, err)
	}},
	{"writers", func(g *gen, _ string) string {
		var buf bytes.Buffer
		words := []string{g.word(), g.word(), g.word()}
		var err error
		switch g.n(5) {
		case 0:
			err = writer.OfIOWriterAsBytes(&buf).Write([]byte(words[0] + words[1])...)
		case 1:
			err = writer.OfIOWriterAsRunes(&buf).Write([]rune(words[0] + words[1])...)
		case 2:
			err = writer.OfIOWriterAsStrings(&buf).Write(words...)
		case 3:
			err = writer.OfIOWriterAsLines(&buf).Write(words...)
		case 4:
			w := mio.NewErrorWriter(g.n(12), fmt.Errorf("failed %d", g.n(50)))
			err = writer.OfIOWriterAsLines(w).Write(words...)
			buf.Write(w.Output())
		}
		var slc []int
		m := map[string]int{}
		err2 := writer.OfSliceWriter(&slc).Write(g.ints()...)
		err3 := writer.OfMapWriter(m).Write(tuple.Of2(words[0], g.n(5)), tuple.Of2(words[1], g.n(5)))
		return buf.String() + show(err, slc, err2, err3) + fmt.Sprint(m)
	}},
	{"failing reader", func(g *gen, _ string) string {
		b, err := all(iter.OfReader(mio.NewErrorReader([]byte(g.word()+g.word()), fmt.Errorf("broken %d", g.n(100)))))
		l, err2 := all(iter.OfReaderAsLines(mio.NewErrorReader([]byte(g.word()+"\n"+g.word()), fmt.Errorf("broken %d", g.n(100)))))
		return show(b, err, l, err2)
	}},
	{"convert", func(g *gen, _ string) string {
		v := g.i64()
		switch g.n(16) {
		case 0:
			return convAll(g, int(v))
		case 1:
			return convAll(g, int8(v))
		case 2:
			return convAll(g, int16(v))
		case 3:
			return convAll(g, int32(v))
		case 4:
			return convAll(g, v)
		case 5:
			return convAll(g, uint(v))
		case 6:
			return convAll(g, uint8(v))
		case 7:
			return convAll(g, uint16(v))
		case 8:
			return convAll(g, uint32(v))
		case 9:
			return convAll(g, uint64(v))
		case 10:
			return convAll(g, float32(v)/4)
		case 11:
			return convAll(g, float64(v)/8)
		case 12:
			return convAll(g, pick(g, strconv.FormatInt(v, 10), "1.5", "-0.125", "12/5", "x", "", "1e3", "99999999999999999999999"))
		case 13:
			return convAll(g, new(big.Int).Mul(big.NewInt(v), big.NewInt(int64(1+g.n(5)))))
		case 14:
			return convAll(g, new(big.Float).Quo(big.NewFloat(float64(v)), big.NewFloat(4)))
		}
		return convAll(g, big.NewRat(v, int64(1+g.n(8))))
	}},
	{"convert named types", func(g *gen, _ string) string {
		var (
			a indMyInt
			b indMyStr
			c indMyUint8
			d indMyFloat
		)
		out := ""
		for _, src := range []any{g.n(200), fmt.Sprint(g.n(300)), int64(g.i64()), float64(g.n(100)) / 2} {
			for _, dst := range []any{&a, &b, &c, &d} {
				var err error
				_, panicked := Catch(func() { err = conv.ReflectTo(goreflect.ValueOf(src), goreflect.ValueOf(dst)) })
				out += show(err, panicked)
			}
			out += show(a, b, c, d)
		}
		return out
	}},
	{"numbers as text", func(g *gen, _ string) string {
		v := g.i64()
		return show(conv.IntToString(v), conv.UintToString(uint64(v)), conv.FloatToString(float64(v)/16), conv.BigIntToString(big.NewInt(v)),
			conv.BigFloatToString(big.NewFloat(float64(v)/2)), conv.BigRatToString(big.NewRat(v, 7)), conv.BigRatToNormalizedString(big.NewRat(v, 4)), conv.NumBits(int32(v)))
	}},
	{"decimals", func(g *gen, _ string) string {
		out := ""
		for n := 5; n > 0; n-- {
			a, b := indDecimals(g)
			var r mmath.Decimal
			var err error
			_, panicked := Catch(func() {
				switch g.n(6) {
				case 0:
					r, err = a.Add(b)
				case 1:
					r, err = a.Sub(b)
				case 2:
					r, err = a.Mul(b)
				case 3:
					r, err = a.Div(b)
				case 4:
					var q []mmath.Decimal
					q, err = a.DivIntAdd(uint(1 + g.n(9)))
					for i, d := range q {
						out += showDec(d)
						q[i] = mmath.Decimal{}
					}
				default:
					var rem mmath.Decimal
					r, rem, err = a.DivIntQuoRem(uint(1 + g.n(9)))
					out += showDec(rem)
				}
			})
			out += showDec(a) + showDec(b) + showDec(r) + show(err, panicked, a.Cmp(b))
			s1, s2 := mmath.AdjustDecimalFormat(a, b)
			p, err := mmath.StringToDecimal(pick(g, a.String(), s1, "12.50", "-3", "x", "", ".5", "1234567890123456789"))
			out += show(s1, s2, err) + showDec(p)
			err = mmath.AdjustDecimalScale(&a, &b)
			out += showDec(a) + showDec(b) + show(err) + showDec(a.Negate())
		}
		return out
	}},
	{"checked math", func(g *gen, _ string) string {
		out := ""
		for n := 3; n > 0; n-- {
			v, w := g.i64(), g.i64()
			a, b, c, d, q := int32(v), int64(w), uint16(v), int8(w), int16(0)
			e1 := mmath.AddInt(int32(w), &a)
			e2 := mmath.SubInt(v, &b)
			e3 := mmath.AddUint(uint16(w), &c)
			e4 := mmath.Abs(&d)
			e5 := mmath.Mul(v, &w)
			e6 := mmath.Div(int16(v), int16(b), &q)
			fq := float64(0)
			e7 := mmath.Div(float64(v), float64(1+g.n(7)), &fq)
			bq := new(big.Int)
			e8 := mmath.DivBigOps(big.NewInt(v), big.NewInt(int64(1+g.n(9))), &bq)
			rq := new(big.Rat)
			e9 := mmath.DivBigOps(big.NewRat(v, 3), big.NewRat(2, 7), &rq)
			ba := big.NewInt(v)
			e10 := mmath.Abs(&ba)
			out += show(a, e1, b, e2, c, e3, d, e4, w, e5, q, e6, fq, e7, bq, e8, rq, e9, ba, e10)
			out += show(mmath.CmpOrdered(v, w), mmath.MinOrdered(v, w), mmath.MaxOrdered(fmt.Sprint(v), "5"), mmath.MinCmp(big.NewInt(v), big.NewInt(w)))
			bq.SetInt64(5)
			rq.SetInt64(5)
			ba.SetInt64(5)
		}
		return out
	}},
	{"ranges", func(g *gen, _ string) string {
		lo := g.n(20)
		out := ""
		var r mmath.Range[int]
		p, _ := Catch(func() {
			r = mmath.OfRange(lo, mmath.RangeMode(g.bool()), lo+g.n(20), mmath.RangeMode(g.bool()), lo+1)
		})
		out += show(p)
		for n := 4; n > 0; n-- {
			err := r.SetValue(g.n(50))
			out += show(r.GetValue(), err)
		}
		f := mmath.OfRange(-0.5, mmath.Closed, 2.5, mmath.Open, 1)
		err := f.SetValue(float64(g.n(10)) / 2)
		mn, mm := f.GetMin()
		return out + show(f.GetValue(), err, mn, mm)
	}},
	{"reflection", func(g *gen, _ string) string {
		out := ""
		for n := 5; n > 0; n-- {
			var t goreflect.Type
			switch g.n(4) {
			case 0:
				t = indTypes()[g.n(4)]
			case 1:
				t = indTypes2()[g.n(4)]
			case 2:
				t = indTypes3()[g.n(4)]
			default:
				t = pick(g, goreflect.TypeOf(0), goreflect.TypeOf(new(*string)), goreflect.TypeOf(big.NewInt(1)), goreflect.TypeOf(indMyInt(1)),
					goreflect.TypeOf(indMyStr("")), goreflect.TypeOf(union.Of(1)), goreflect.TypeOf(union.Of("")), goreflect.TypeOf(tuple.Of2(1, "")), goreflect.TypeOf(uint8(3)))
			}
			if g.n(4) == 0 { // a type that has not been seen before, most of the time
				t = goreflect.ArrayOf(g.n(3000), goreflect.TypeOf(byte(0)))
			}
			for g.n(5) < 2 {
				t = goreflect.PointerTo(t)
			}
			fs := reflect.FieldsByName(t)
			var names []string
			for _, f := range fs {
				names = append(names, showField(f))
			}
			sort.Strings(names)
			for k := range fs {
				delete(fs, k)
			}
			out += strings.Join(names, ",") + describe(reflect.DerefType(t)) + describe(reflect.DerefTypeMaxOnePtr(t)) +
				show(reflect.IsBigPtr(t), reflect.IsNumeric(t), reflect.IsSignedInteger(t), reflect.IsUnsignedInteger(t), reflect.NumPointers(t),
					reflect.IsNillable[goreflect.Type](t), reflect.IsPrimitive[goreflect.Type](t)) +
				describe(reflect.TypeToBaseType(t)) + describe(unionreflect.GetMaybeType(t))
			v := goreflect.New(t).Elem()
			out += show(reflect.TypeOf(v), reflect.IsNil(v), unionreflect.MaybeValueIsPresent(v)) + describe(reflect.ValueMaxOnePtrType(v))
			p, _ := Catch(func() { out += describe(reflect.ValueToBaseType(v).Type()) })
			out += show(p)
			err := reflect.TypeAssert(v, pick(g, t, goreflect.TypeOf("")), g.word())
			out += show(err)
			p, _ = Catch(func() { out += showField(reflect.GetFieldByName(t, pick(g, "A", "B", "C"))) })
			out += fmt.Sprint(p)
		}
		return out
	}},
	{"reflect maybes", func(g *gen, _ string) string {
		a, b := union.Of(g.n(50)), union.Empty[string]()
		out := show(unionreflect.MaybeValueIsPresent(goreflect.ValueOf(a)), unionreflect.MaybeValueIsPresent(goreflect.ValueOf(&b)))
		w := g.word()
		e1 := unionreflect.SetMaybeValue(goreflect.ValueOf(&b), goreflect.ValueOf(w))
		out += show(unionreflect.GetMaybeValue(goreflect.ValueOf(a)).Interface(), unionreflect.GetMaybeValue(goreflect.ValueOf(b)).Interface(), e1)
		e2 := unionreflect.SetMaybeValueEmpty(goreflect.ValueOf(&a))
		e3 := unionreflect.SetMaybeValue(goreflect.ValueOf(5), goreflect.ValueOf(w))
		e4 := unionreflect.SetMaybeValueEmpty(goreflect.ValueOf(b))
		x := new(int)
		reflect.SetPointerValue(goreflect.ValueOf(&x), goreflect.ValueOf(int8(g.n(100))))
		return out + show(a.Present(), b.Get(), e2, e3, e4, *x)
	}},
	{"unions", func(g *gen, _ string) string {
		a, b, c := union.Of2T[int, string](g.n(9)), union.Of3U[int, string, bool](g.word()), union.Of4W[int, string, bool, float64](float64(g.n(9)))
		out := show(a.Which().String(), b.Which().String(), c.Which().String(), a.String(), b.String(), c.String())
		p1, _ := Catch(func() { out += a.U() })
		p2, _ := Catch(func() { out += fmt.Sprint(b.V()) })
		p3, _ := Catch(func() { out += fmt.Sprint(c.W()) })
		a.SetU(g.word())
		b.SetT(g.n(7))
		c.SetV(g.bool())
		out += fmt.Sprint(p1, p2, p3) + show(a.U(), b.T(), c.V(), a.Which().String())
		m, n := union.Of(g.n(9)), union.Empty[int]()
		e1, e2 := m.SetOrError(g.n(9)), n.SetOrError(g.n(9))
		p4, _ := Catch(func() { u := union.Empty[bool](); u.Get() })
		k, err := g.n(9), pick(g, nil, errors.New(g.word()))
		if err != nil {
			k = 0
		}
		r := union.OfResultError(k, err)
		p5, _ := Catch(func() { out += fmt.Sprint(r.Get(), r.Error()) })
		f := union.First(g.ints())
		return out + show(m.Get(), n.Get(), e1, e2, m.OrElse(3), f.Present(), f.OrElse(-1)) + fmt.Sprint(p4, p5, r.HasResult(), m, r)
	}},
	{"tuples", func(g *gen, _ string) string {
		a, b, c := tuple.Of2(g.n(9), g.word()), tuple.Of3(g.word(), g.n(9), g.bool()), tuple.Of4Same(g.n(9), g.n(9), g.n(9), g.n(9))
		return a.String() + b.String() + c.String()
	}},
	{"slices", func(g *gen, _ string) string {
		a := g.ints()
		in := [][][]int{{a, {g.n(5)}}, {}, {{}, g.ints()}}
		f := funcs.SliceFlatten[int](in)
		u := funcs.SliceUniqueValues(append([]int{}, a...))
		s := funcs.SliceSortOrdered(append([]int{}, a...))
		r := funcs.SliceReverse(append([]int{}, a...))
		sort.Ints(u)
		out := show(f, u, s, r, funcs.SliceIndex(a, g.n(5)-2, 77))
		d := funcs.SliceRemove(append([]int{}, a...), 3, g.bool())
		cp := funcs.SliceCopy(a)
		out += show(d, cp) + fmt.Sprint(funcs.SliceToMap(a), funcs.SliceToMapBy(a, func(i int) string { return fmt.Sprint(i / 5) }))
		for _, x := range [][]int{f, u, s, r, d, cp} {
			for i := range x {
				x[i] = 1000
			}
		}
		var x []string
		funcs.SliceAdd(&x, g.word())
		funcs.SliceAdd(&x, g.word())
		p, _ := Catch(func() { funcs.SliceFlatten[string](in) })
		b := funcs.SliceSortBy(append([]string{}, x...), func(a, b string) bool { return a > b })
		return out + show(x, b) + fmt.Sprint(p)
	}},
	{"maps", func(g *gen, _ string) string {
		var m map[string]int
		var m2 map[string]map[int]bool
		var ms map[int][]string
		var m2s map[string]map[int][]int
		for n := 1 + g.n(5); n > 0; n-- {
			funcs.MapSet(&m, g.word(), g.n(9))
			funcs.Map2Set(&m2, g.word(), g.n(3), g.bool())
			funcs.MapSliceAdd(&ms, g.n(3), g.word())
			funcs.Map2SliceAdd(&m2s, g.word(), g.n(3), g.n(9))
		}
		k := funcs.MapKeysToSlice(m)
		sort.Strings(k)
		funcs.MapSliceRemove(ms, g.n(3), "alpha", g.bool())
		s := funcs.MapSortOrdered(m)
		b := funcs.MapSortBy(m, func(a, b string) bool { return a > b })
		out := fmt.Sprint(m, m2, ms, m2s, k, s, b) + show(funcs.MapIndex(m, "x", 42), funcs.MapTest(m, "x"), funcs.Map2Test(m2, "x", 1))
		clear(m)
		for i := range s {
			s[i].U = -1
		}
		var ot []tuple.Two[string, []int]
		for n := 1 + g.n(6); n > 0; n-- {
			funcs.OrderedTuple2SliceAdd(&ot, g.word(), g.n(5))
		}
		out += fmt.Sprint(ot)
		funcs.OrderedTuple2SliceRemoveValue(&ot, "x", g.n(5))
		i, ok := funcs.OrderedTuple2Search(ot, "eta")
		return out + fmt.Sprint(ot, i, ok)
	}},
	{"filters", func(g *gen, _ string) string {
		v := g.n(20)
		f := funcs.And(funcs.GreaterThan(v-5), funcs.Not(funcs.In(v, v+1)), funcs.Or(funcs.LessThanEqual(v+9), funcs.Equal(v+12)))
		c := funcs.Compose(func(i int) int { return i * v }, func(i int) int { return i + 1 }, func(i int) int { return -i })
		c3 := funcs.Compose3(func(i int) string { return fmt.Sprint(i + v) }, func(s string) []byte { return []byte(s + "!") }, func(b []byte) int { return len(b) })
		out := ""
		for i := -3; i < 25; i += 2 {
			out += show(f(i), c(i), c3(i), funcs.IsNegative[int]()(i))
		}
		sup := funcs.SupplierCached(func() int { v++; return v })
		return out + show(sup(), sup(), funcs.SupplierOf(v)(), funcs.Ternary(v > 3, "a", "b"), funcs.IsNilValue((*int)(nil)), funcs.Nillable(goreflect.TypeOf(v)))
	}},
	{"assertions", func(g *gen, _ string) string {
		msg := g.word()
		_, e1 := funcs.AssertType[int](msg, g.word())
		s, e2 := funcs.ConvertToSlice[int](msg, []any{g.n(5), pick[any](g, g.n(5), g.word())})
		s2, e3 := funcs.ConvertToSlice2[string](msg, []any{[]any{g.word()}, pick[any](g, []any{}, 5)})
		m, e4 := funcs.ConvertToMap[string, int](msg, map[string]any{"a": pick[any](g, g.n(5), true)})
		p, _ := Catch(func() { funcs.Must(pick(g, nil, errors.New(msg))) })
		p2, _ := Catch(func() { funcs.MustValue(g.n(5), pick(g, nil, errors.New(msg))) })
		out := ""
		funcs.TryTo(func() {
			if g.bool() {
				panic(errors.New(msg))
			}
			out += "fine"
		}, func(p any) { out += fmt.Sprint("caught ", p) }, func() { out += "closed" }, func() { out += "again" })
		return out + show(e1, s, e2, s2, e3, e4) + fmt.Sprint(m, p, p2)
	}},
	{"names", func(g *gen, _ string) string {
		out := ""
		for n := 3; n > 0; n-- {
			w := pick(g, "first_name", "a", "Address_line", "x_y_z", "customer_id_ref")
			c := pick(g, "FirstName", "a", "addressLine", "XYZ", "customerIdRef")
			out += show(funcs.SnakeToCamelCase(w), funcs.CamelCaseToSnakeCase(c))
		}
		return out
	}},
	{"events", func(g *gen, _ string) string {
		var r event.Registry[int, string]
		var rs []*indRcv
		out := ""
		for n := 0; n < 5; n++ {
			rc := &indRcv{g.word()}
			rs = append(rs, rc)
			r.Register(g.n(4), rc)
			if g.bool() {
				id := g.n(4)
				r.Register(id, event.ReceiverFunc[string](func(s string) string { return s + fmt.Sprint(id) }))
			}
			out += r.Send("<" + g.word() + ">")
			if g.n(3) == 0 {
				r.RemoveId(g.n(4))
			}
			if g.n(3) == 0 {
				var none event.Registry[int, string]
				none.Register(1, rs[g.n(len(rs))])
				none.Remove(1, rs[0], true)
				out += none.Send("-")
			}
		}
		return out
	}},
	{"router", func(g *gen, _ string) string {
		var sm rest.ServeMux
		out := ""
		for n := 1 + g.n(4); n > 0; n-- {
			tag := g.word()
			err := sm.Handle(pick(g, "GET", "POST", ""), pick(g, "^/a/([0-9]+)$", "^/a$", "/b", "(", "^/u/"+rest.UUIDGroup+"$"), rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, parts []string) {
				fmt.Fprint(w, tag, r.Method, parts)
			}))
			out += show(err)
		}
		for n := 3; n > 0; n-- {
			w := &indResp{hdr: http.Header{}}
			sm.ServeHTTP(w, &http.Request{Method: pick(g, "GET", "POST"), URL: &url.URL{Path: pick(g, "/a", fmt.Sprint("/a/", g.n(100)), "/b", "/q")}})
			out += show(w.code, w.String(), len(w.hdr))
		}
		return out
	}},
	{"request bodies", func(g *gen, _ string) string {
		var text string
		if g.bool() {
			text = g.word() + "," + fmt.Sprint(g.n(100)) + "\nb,c\n"
			text = strings.NewReplacer("\"", "", "\t", "").Replace(text)
		} else {
			b, _ := gojson.Marshal([]any{g.jsonAny(1), g.jsonAny(1)})
			text = string(b)
		}
		req := &http.Request{Method: "POST", URL: &url.URL{Path: "/"}, Header: http.Header{}}
		zipped := g.bool()
		if zipped {
			var buf bytes.Buffer
			z := gzip.NewWriter(&buf)
			z.Write([]byte(text))
			z.Close()
			req.Header.Set("Accept-Encoding", "gzip")
			req.Body = goio.NopCloser(g.reader(buf.String()))
		} else {
			req.Body = goio.NopCloser(g.reader(text))
		}
		out := ""
		rd := rest.AcceptGzip(req)
		req.Body = goio.NopCloser(rd)
		req.Header.Set("Content-Type", pick(g, "text/csv", "application/json", "text/plain"))
		if it := rest.NegotiateCSVContent(req); it != nil {
			recs, err := all(it)
			out += show(recs, err)
		}
		if it := rest.NegotiateJSONContent(req); it != nil {
			vals, err := all(it)
			for _, v := range vals {
				out += showJSON(v)
			}
			out += show(err)
		}
		return out
	}},
	{"generator", func(g *gen, place string) string {
		var bg code.BaseGenerator
		out := ""
		try := func(fn func()) {
			p, _ := Catch(fn)
			out += strings.ReplaceAll(fmt.Sprint(p), place, "PLACE") + ";"
		}
		try(func() { bg.SetBasePath(place) })
		for n := 3; n > 0; n-- {
			try(func() { bg.Dir(pick(g, "a", "b", "a/c", "../x")) })
			try(func() {
				bg.Src(pick(g, "m.go", "n.go", "../y.go"))
				w := bg.CurrentSrc()
				out += show(w.Write(g.word(), "line"))
			})
		}
		try(func() { bg.SetBasePath(place + "/again") })
		var files []string
		for p, text := range vos.Tree() {
			if strings.HasPrefix(p, place+"/") {
				files = append(files, p[len(place):]+"="+text)
			}
		}
		sort.Strings(files)
		return out + strings.Join(files, ",")
	}},
	{"structs", func(g *gen, _ string) string {
		var s struct{ A int }
		return show(strukt.MapToStruct(map[string]any{}, &s), s.A)
	}},
}

const indPoolQuick, indPoolThorough = 1020, 2720

// indUse executes use k of the pool
func indUse(k int, place string) (out string) {
	u := indUses[k%len(indUses)]
	g := &gen{vsim.Mix64(uint64(k)*0x9e37 + indSeed)}
	p, panicked := Catch(func() { out = u.fn(g, place) })
	if panicked {
		out = fmt.Sprintf("panic: %v", p)
	}
	if !utf8.ValidString(out) { // it has to survive being written to a file
		out = strconv.Quote(out)
	}
	return u.name + ": " + out
}

var (
	indSeed uint64
	indBase []string
)

// indPrepare reads the results the uses have when they run alone in a new process
func indPrepare() error {
	indSeed, _ = strconv.ParseUint(os.Getenv("SIM_SEED0"), 10, 64)
	if f := os.Getenv("SIM_BASE"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		return gojson.Unmarshal(b, &indBase)
	}
	return nil
}

func runInd(e *E) {
	type step struct {
		use  int
		wait int
	}
	nt := e.Range(1, 5)
	plans := make([][]step, nt)
	related, only := 0, 0
	if e.Bool() {
		related = 1 + e.Draw(len(indUses)) // threads that do the same kind of thing
		if e.OneIn(4) {
			only = 1 + e.Draw(len(indBase)/len(indUses)) // or the very same thing
		}
	}
	used := []int{}
	for i := range plans {
		for n := e.Range(1, 5); n > 0; n-- {
			k := e.Draw(len(indBase))
			if only > 0 {
				k = (only-1)*len(indUses) + related - 1
			} else if related > 0 {
				k = k/len(indUses)*len(indUses) + related - 1
				if k >= len(indBase) {
					k = related - 1
				}
			}
			if strings.HasPrefix(indBase[k], "crash:") { // it cannot even run alone
				continue
			}
			plans[i] = append(plans[i], step{k, e.Draw(4)})
			used = append(used, k)
		}
	}
	check := func(who string, k int, out string) {
		e.Assert(out == indBase[k], "interference", "%s: the result is\n  %s\ninstead of what it is when it runs alone\n  %s", who, clip(out), clip(indBase[k]))
	}
	for i := range plans {
		e.Go(fmt.Sprint("user", i), func() {
			for j, s := range plans[i] {
				if s.wait == 3 {
					vsim.Sleep(time.Duration(1+(i+j)%3) * time.Second)
				}
				e.Trace("thread %d starts use %d (%s)", i, s.use, indUses[s.use%len(indUses)].name)
				out := indUse(s.use, fmt.Sprint("/work/t", i, "/", j))
				check(fmt.Sprintf("thread %d, use %d", i, s.use), s.use, out)
			}
		})
	}
	e.Join()
	// and one after another, in another order
	for n := len(used) - 1; n >= 0; n-- {
		out := indUse(used[n], fmt.Sprint("/work/again/", n))
		check(fmt.Sprintf("use %d afterwards", used[n]), used[n], out)
	}
	if nt > 1 {
		e.NonTrivial()
	}
	e.State(plans)
}

func init() {
	register(&Check{
		ID: "C23", Race: true, Quick: 60000, Thorough: 1500000, Budget: 3000000, Fresh: 250,
		Pool: indPoolQuick, PoolThorough: indPoolThorough,
		Rule:   "a run = 1-5 threads that each make 1-5 uses of the library from a pool of uses of all packages (half the runs: uses of one kind), then all of them again one after another; non-trivial = several threads; distinct = by plan",
		Real:   []string{"conv", "math", "reflect", "union", "tuple", "funcs", "iter", "stream", "io", "io/writer", "encoding/json", "event", "rest", "code", "strukt"},
		Stub:   []string{"thread scheduler (seeded)", "file system (simulated)", "readers and network bodies", "clock"},
		Assume: []string{"the uses are a pool drawn from the seed; each one's result when it runs alone comes from its own new process"},
		Run:    runInd,
	})
}
