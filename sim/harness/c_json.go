package harness

import (
	"bytes"
	gojson "encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/encoding/json/write"
	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/iter"

	"verif.local/sim/vsim"
)

// ---- generation of documents

type jsonGen struct {
	e    *E
	sb   strings.Builder
	ws   int
	left int // values left to generate
}

func (g *jsonGen) space() {
	if g.ws > 0 && g.e.OneIn(5000) {
		g.sb.WriteString(strings.Repeat([]string{" ", "\n", "\t", " \r\n"}[g.e.Draw(4)], drawBulk(g.e)/4))
	}
	if g.ws > 0 && g.e.OneIn(g.ws) {
		g.sb.WriteString([]string{" ", "\n", "\t", "\r\n", "  ", "\r", " \n\t "}[g.e.Draw(7)])
	}
}

func (g *jsonGen) str(content []rune) {
	g.sb.WriteByte('"')
	for _, r := range content {
		short := map[rune]string{'"': `\"`, '\\': `\\`, '/': `\/`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}[r]
		switch k := g.e.Draw(4); {
		case short != "" && k < 2:
			g.sb.WriteString(short)
		case k == 3 || r < ' ' || r == '"' || r == '\\':
			f := []string{`\u%04x`, `\u%04X`}[g.e.Draw(2)]
			if r1, r2 := utf16.EncodeRune(r); r1 != utf8.RuneError {
				fmt.Fprintf(&g.sb, f+f, r1, r2)
			} else {
				fmt.Fprintf(&g.sb, f, r)
			}
		default:
			g.sb.WriteRune(r)
		}
	}
	g.sb.WriteByte('"')
}

func (g *jsonGen) content() (out []rune) {
	if g.e.OneIn(2000) {
		a := g.e.Draw(len(runePool))
		for n := drawBulk(g.e); n > 0; n-- {
			out = append(out, runePool[(n+n>>5+a)%len(runePool)])
		}
		return
	}
	for n := g.e.Draw([]int{3, 8, 20}[g.e.Draw(3)]); n > 0; n-- {
		if g.e.OneIn(3) {
			out = append(out, []rune("\"\\/\b\f\n\r\t[]{},:1e")[g.e.Draw(16)])
		} else {
			out = append(out, drawRune(g.e))
		}
	}
	return
}

func drawNumber(e *E) string {
	if e.OneIn(1000) {
		k := e.Draw(400)
		if e.OneIn(8) {
			k = 400 + e.Draw(6000)
		}
		n := []string{strings.Repeat("9", 20+k), "1" + strings.Repeat("0", k), "0." + strings.Repeat("0", k) + "1"}[e.Draw(3)]
		return []string{"", "-"}[e.Draw(2)] + n
	}
	if e.OneIn(3) {
		return []string{"0", "-0", "1", "-1", "10", "123456789012345678901234567890", "0.1", "-0.5", "1.50", "100.001", "1e5", "1E5", "2e+10", "2E-10",
			"-3.25e7", "0e0", "0.0", "9007199254740993", "1e400", "18446744073709551616", "0.1000000000000000055511151231257827",
			"-0.0", "0E-0", "-0e+00", "1e007", "5E+00", "1e-99999999", "12345678.87654321E+0099", "0.000"}[e.Draw(29)]
	}
	s := fmt.Sprint(e.Draw(1000000))
	if e.Bool() {
		s = "-" + s
	}
	if e.OneIn(3) {
		s += fmt.Sprintf(".%03d", e.Draw(1000))
	}
	if e.OneIn(4) {
		s += []string{"e", "E", "e+", "e-", "E+"}[e.Draw(5)] + fmt.Sprint(e.Draw(30))
	}
	return s
}

func (g *jsonGen) value(depth int) {
	g.left--
	k := g.e.Draw(8)
	if depth <= 0 || g.left <= 0 {
		k = g.e.Draw(6)
	}
	switch k {
	case 0:
		g.sb.WriteString(drawNumber(g.e))
	case 1, 2:
		g.str(g.content())
	case 3:
		g.sb.WriteString("true")
	case 4:
		g.sb.WriteString("false")
	case 5:
		g.sb.WriteString("null")
	case 6:
		g.array(depth)
	default:
		g.object(depth)
	}
}

func (g *jsonGen) array(depth int) {
	g.sb.WriteByte('[')
	g.space()
	for i, n := 0, g.few(); i < n; i++ {
		if i > 0 {
			g.sb.WriteByte(',')
			g.space()
		}
		g.value(depth - 1)
		g.space()
	}
	g.sb.WriteByte(']')
}

func (g *jsonGen) object(depth int) {
	g.sb.WriteByte('{')
	g.space()
	seen := map[string]bool{}
	var keys []string
	n, many := g.few(), g.e.OneIn(3000)
	if many {
		if n = 50 + g.e.Draw(1500); g.e.OneIn(6) {
			n += 6000
		}
	}
	for i := 0; i < n; i++ {
		key := g.content()
		switch {
		case many:
			key = append(key, []rune(fmt.Sprint(i))...)
		case len(keys) > 0 && g.e.OneIn(8): // close to another key
			key = []rune(keys[g.e.Draw(len(keys))])
			switch g.e.Draw(4) {
			case 0:
				key = append(key, []rune("\x00 /0")[g.e.Draw(4)])
			case 1:
				key = []rune(strings.ToUpper(string(key)))
			case 2:
				key = append([]rune("\x00 /0")[g.e.Draw(4):][:1:1], key...)
			case 3:
				key = key[:len(key)/2]
			}
		}
		if seen[string(key)] {
			continue
		}
		if len(keys) > 0 {
			g.sb.WriteByte(',')
			g.space()
		}
		seen[string(key)], keys = true, append(keys, string(key))
		g.str(key)
		g.space()
		g.sb.WriteByte(':')
		g.space()
		g.value(depth - 1)
		g.space()
	}
	g.sb.WriteByte('}')
}

// jsonDoc is a valid document
type jsonDoc struct {
	text  string
	array bool
	want  any   // by encoding/json, with numbers as texts
	end   int   // position after the last bracket
	ends  []int // of a top level array: position after the text of each element
	delim []int // and after the delimiter that follows it
	isNum []bool
}

func drawJSON(e *E, array bool) *jsonDoc {
	g := &jsonGen{e: e, ws: []int{0, 2, 5, 1}[e.Draw(4)], left: []int{6, 20, 60}[e.Draw(3)]}
	d := &jsonDoc{array: array}
	g.space()
	wide := ""
	if e.OneIn(6000) { // long before anything comes
		e.Probe("wide document")
		wide = strings.Repeat(" \n\t  \r  ", (drawBulk(e)+1<<20)/8*e.Draw(2)+9000)
	}
	if array {
		g.sb.WriteByte('[')
		g.sb.WriteString(wide)
		g.space()
		elems, plain := e.Draw([]int{4, 8, 25}[e.Draw(3)]), false
		if e.OneIn(400) {
			elems, plain = 200+e.Draw(2000), true
			if e.OneIn(40) {
				elems = 2200 + e.Draw(8000)
			}
		}
		for i, n := 0, elems; i < n; i++ {
			if i > 0 {
				g.sb.WriteByte(',')
				d.delim = append(d.delim, g.sb.Len())
				g.space()
			}
			at := g.sb.Len()
			if plain {
				g.value(0)
			} else if e.OneIn(20) { // deep nesting
				k := 1 + e.Draw(60)
				if e.OneIn(50) {
					k = 100 + e.Draw(2000)
				}
				switch e.Draw(3) {
				case 0:
					g.sb.WriteString(strings.Repeat("[", k))
					g.value(1)
					g.sb.WriteString(strings.Repeat("]", k))
				case 1:
					g.sb.WriteString(strings.Repeat(`{"k":`, k))
					g.value(1)
					g.sb.WriteString(strings.Repeat("}", k))
				case 2:
					k = k/2 + 1
					g.sb.WriteString(strings.Repeat(`[{"":`, k))
					g.value(1)
					g.sb.WriteString(strings.Repeat("}]", k))
				}
			} else {
				g.value(3)
			}
			c := g.sb.String()[at]
			d.isNum = append(d.isNum, c == '-' || c >= '0' && c <= '9')
			d.ends = append(d.ends, g.sb.Len())
			g.space()
		}
		g.sb.WriteByte(']')
		if len(d.ends) > 0 {
			d.delim = append(d.delim, g.sb.Len())
		}
	} else {
		g.sb.WriteString(wide)
		g.object(4)
	}
	d.end = g.sb.Len()
	g.space()
	d.text = g.sb.String()
	dec := gojson.NewDecoder(strings.NewReader(d.text))
	dec.UseNumber()
	if err := dec.Decode(&d.want); err != nil {
		panic(fmt.Sprintf("harness: generated an invalid document: %v: %q", err, d.text))
	}
	return d
}

// jsonDiff compares a value with what encoding/json made of the document; "" if they are equal
func jsonDiff(v json.Value, want any, path string) string {
	bad := func() string {
		return fmt.Sprintf("at %s: %s instead of %s", path, clip(fmt.Sprintf("%v %q", v.Type(), v.ToAny())), quote(want))
	}
	switch w := want.(type) {
	case nil:
		if v.Type() != json.Null || !v.IsNull() {
			return bad()
		}
	case bool:
		if v.Type() != json.Boolean || v.AsBool() != w {
			return bad()
		}
	case string:
		if v.Type() != json.String || v.AsString() != w {
			return bad()
		}
	case gojson.Number:
		if v.Type() != json.Number || string(v.AsNumber()) != string(w) {
			return bad()
		}
	case []any:
		if v.Type() != json.Array || len(v.AsSlice()) != len(w) {
			return bad()
		}
		for i, x := range v.AsSlice() {
			if d := jsonDiff(x, w[i], fmt.Sprint(path, "[", i, "]")); d != "" {
				return d
			}
		}
	case map[string]any:
		if v.Type() != json.Object || len(v.AsMap()) != len(w) {
			return bad()
		}
		for k := range w {
			x, ok := v.AsMap()[k]
			if !ok {
				return fmt.Sprintf("at %s: no key %q", path, k)
			}
			if d := jsonDiff(x, w[k], path+"."+k); d != "" {
				return d
			}
		}
	}
	return ""
}

func isZeroJSON(v json.Value) bool { return v.Type() == json.Invalid }

// elements of the document as the streaming form yields them
func (d *jsonDoc) elements() []any {
	if d.array {
		return d.want.([]any)
	}
	return []any{d.want}
}

func checkElements(e *E, got []json.Value, want []any, detail any) {
	for i, v := range got {
		e.Assert(i < len(want), "json-extra", "element %d (%s) is not in the document %v", i, quote(v.ToAny()), detail)
		if diff := jsonDiff(v, want[i], fmt.Sprint("element ", i)); diff != "" {
			e.Fail("json-mismatch", "%s (%v)", diff, detail)
		}
	}
	vsim.Eval()
}

func init() {
	register(&Check{
		ID: "C10", Several: true, Quick: 300000, Thorough: 5000000, Budget: 80000000,
		Rule: "a run = random valid JSON document (nesting, escapes, surrogate pairs, number texts, whitespace) delivered by a simulated reader (fragmentation, empty reads, stalls, data with EOF), parsed whole and streamed; non-trivial = at least one value; distinct = by text and delivery",
		Real: []string{"parse.Parse", "parse.MustParse", "parse.Iterate", "lexer", "json.Value", "iter"}, Stub: readerStub,
		Assume: []string{"encoding/json is the reference for the value a valid document denotes"},
		Run: func(e *E) {
			d := drawJSON(e, !e.OneIn(3))
			rd := newReader(e, []byte(d.text))
			rd.patience()
			det := fmt.Sprintf("%q %s", clip(d.text), rd)
			e.Trace("document %q %s", d.text, rd)
			e.State(d.text, rd)
			if len(d.text) > 2 {
				e.NonTrivial()
			}
			if e.Bool() {
				var v json.Value
				var err error
				if e.OneIn(8) {
					p, panicked := Catch(func() { v = parse.MustParse(rd.src()) })
					e.Assert(!panicked, "json-panic", "MustParse panics with %v (%s)", p, det)
				} else {
					v, err = parse.Parse(rd.src())
				}
				e.Assert(err == nil, "json-rejected", "error %v (%s)", err, det)
				if diff := jsonDiff(v, d.want, "document"); diff != "" {
					e.Fail("json-mismatch", "%s (%s)", diff, det)
				}
				return
			}
			it := ofIter(parse.Iterate(rd.src()))
			got, end := drain(e, "elements", it, nil, len(d.text), same)
			checkElements(e, got, d.elements(), det)
			e.Assert(end == iter.EOI, "json-end", "ended with %v after %d of %d elements (%s)", end, len(got), len(d.elements()), det)
			e.Assert(len(got) == len(d.elements()), "json-count", "%d elements instead of %d (%s)", len(got), len(d.elements()), det)
		},
	})

	register(&Check{
		ID: "C11", Several: true, Quick: 400000, Thorough: 6000000, Budget: 80000000,
		Rule: "a run = random valid JSON document cut short before its last bracket, by the end of the input or by a read error, delivered by a simulated reader, parsed whole or streamed; non-trivial = at least one element had arrived; distinct = by text, cut and delivery",
		Real: []string{"parse.Parse", "parse.MustParse", "parse.Iterate", "lexer", "json.Value", "iter"}, Stub: readerStub,
		Run: func(e *E) {
			d := drawJSON(e, !e.OneIn(3))
			cut := e.Draw(d.end)
			if e.OneIn(3) && len(d.ends) > 0 { // just around an element
				cut = min(d.end-1, max(0, d.ends[e.Draw(len(d.ends))]+e.Draw(3)-1))
			}
			rd := newReader(e, []byte(d.text))
			rd.patience()
			if e.Bool() {
				rd.cut(cut, io.EOF)
			} else {
				rd.cut(cut, drawReadErr(e))
			}
			det := fmt.Sprintf("%q, end %v %s", clip(string(rd.data)), rd.end, rd)
			e.Trace("document %q cut to %q %s", d.text, rd.data, rd)
			e.State(string(rd.data), rd)
			right := func(err error, where string) {
				e.Assert(err != nil && err != iter.EOI, "json-cut-ends", "%s: cut input gives %v (%s)", where, err, det)
				if rd.end != io.EOF {
					e.Assert(err == rd.end, "json-error", "%s: %v is reported instead of the reader's error (%s)", where, err, det)
				} else {
					e.Assert(err != io.EOF, "json-cut-ends", "%s: cut input gives a plain EOF (%s)", where, det)
				}
			}
			if e.Bool() {
				if e.OneIn(8) {
					p, panicked := Catch(func() { parse.MustParse(rd.src()) })
					e.Assert(panicked, "json-cut-accepted", "MustParse accepts it (%s)", det)
					err, isErr := p.(error)
					e.Assert(isErr, "json-error", "MustParse panics with %v (%s)", p, det)
					right(err, "MustParse")
					return
				}
				v, err := parse.Parse(rd.src())
				e.Assert(err != nil, "json-cut-accepted", "accepted as %s (%s)", quote(v.ToAny()), det)
				e.Assert(isZeroJSON(v), "json-cut-accepted", "a value with the error %v (%s)", err, det)
				right(err, "Parse")
				return
			}
			it := ofIter(parse.Iterate(rd.src()))
			got, end := drain(e, "elements", it, nil, len(d.text), same)
			checkElements(e, got, d.elements(), det)
			right(end, "Iterate")
			lo, hi := 0, 0
			for i := range d.ends {
				if d.delim[i] <= cut {
					lo = i + 1
				}
				if d.ends[i] < cut || d.ends[i] == cut && !d.isNum[i] {
					hi = i + 1
				}
			}
			if !d.array {
				e.Assert(len(got) == 0, "json-cut-accepted", "a cut object is yielded (%s)", det)
			}
			e.Assert(len(got) >= lo, "json-lost", "%d elements had arrived, only %d are yielded before %v (%s)", lo, len(got), end, det)
			e.Assert(!d.array || len(got) <= hi, "json-cut-accepted", "%d elements had arrived, %d are yielded (%s)", hi, len(got), det)
			if lo > 0 {
				e.NonTrivial()
			}
		},
	})

	register(&Check{
		ID: "C13", Several: true, Quick: 200000, Thorough: 4000000, Budget: 80000000,
		Rule:   "a run = random JSON value (any characters, numbers of all kinds, nesting; map order drawn) written to a simulated destination that may return an error, write short or write nothing at a random call; non-trivial = more than a scalar; distinct = by value and fault",
		Real:   []string{"write.Write", "write.WriteObject", "write.WriteArray", "write.Must*", "writer.OfIOWriterAsRunes", "json.Value", "parse.Parse (reading back)"},
		Stub:   []string{"the destination (seeded errors, short and zero-byte writes)", "map iteration order (seeded)"},
		Assume: []string{"strings are valid UTF-8", "encoding/json is the reference for what any JSON parser reads"},
		Run:    runC13,
	})

	register(&Check{
		ID: "C14", Several: true, Quick: 600000, Thorough: 10000000,
		Rule:   "a run = a random sequence of writes of bytes, characters, strings or lines through a writing function or a Writer to a simulated destination whose every call may fail, write short or write nothing; or to a slice or map; non-trivial = at least one fault and one success; distinct = by values and faults",
		Real:   []string{"writer.*Gen", "writer.Of*", "writer.WriterImpl"},
		Stub:   []string{"the destination (seeded errors, short and zero-byte writes)"},
		Assume: []string{"characters are valid Unicode scalar values", "the line end is that of the system, LF"},
		Run:    runC14,
	})
}

// ---- destinations

// Dst is a simulated destination of writes
type Dst struct {
	e       *E
	got     []byte
	calls   int
	failAt  int // the call that fails; -1: none
	rate    int // or one in n calls fails
	err     error
	failed  int // calls that failed
	after   int // calls after a failed one
	lastErr []error
}

func (d *Dst) Write(p []byte) (int, error) {
	vsim.Y(0)
	d.calls++
	if d.failed > 0 {
		d.after++
	}
	if d.calls-1 == d.failAt || d.rate > 0 && d.e.OneIn(d.rate) {
		n := 0
		if len(p) > 0 {
			n = d.e.Draw(len(p))
		}
		switch d.e.Draw(5) {
		case 0, 1:
			d.failed++
			d.e.Fault("write error")
			d.lastErr = append(d.lastErr, d.err)
			return 0, d.err
		case 2:
			d.failed++
			if d.e.OneIn(3) {
				n = len(p)
			}
			d.got = append(d.got, p[:n]...)
			d.e.Fault("write error after some bytes")
			d.lastErr = append(d.lastErr, d.err)
			return n, d.err
		case 3:
			if n < len(p) {
				d.failed++
				d.e.Fault("short write")
				d.got = append(d.got, p[:n]...)
				return n, nil
			}
		default:
			if len(p) > 0 {
				d.failed++
				d.e.Fault("zero-byte write")
				return 0, nil
			}
		}
	}
	d.got = append(d.got, p...)
	return len(p), nil
}

// dst is the destination as the library is given it: plain, or with the other ways to be written to that destinations often have
func (d *Dst) dst() io.Writer {
	if d.e.OneIn(3) {
		d.e.Probe("string writer")
		return richDst{d}
	}
	return d
}

type richDst struct{ *Dst }

func (d richDst) WriteString(s string) (int, error) { return d.Write([]byte(s)) }

func (d richDst) WriteByte(b byte) error {
	n, err := d.Write([]byte{b})
	if err == nil && n == 0 {
		err = io.ErrShortWrite
		d.lastErr = append(d.lastErr, err)
	}
	return err
}

func (d richDst) WriteRune(r rune) (int, error) { return d.Write([]byte(string(r))) }

func drawWriteErr(e *E) error {
	return []error{errors.New("simulated write error"), io.ErrShortWrite, io.ErrClosedPipe, io.EOF, &customErr{7}}[e.Draw(5)]
}

// ---- values

func drawValue(e *E, depth int, left *int) any {
	*left--
	g := &jsonGen{e: e}
	k := e.Draw(8)
	if depth <= 0 || *left <= 0 {
		k = e.Draw(6)
	}
	switch k {
	case 0, 1:
		return string(g.content())
	case 2:
		return drawGoNumber(e)
	case 3:
		return e.Bool()
	case 4:
		return nil
	case 5:
		return json.NumberString(drawNumber(e))
	case 6:
		out := []any{}
		for n := e.Draw(5); n > 0; n-- {
			out = append(out, drawValue(e, depth-1, left))
		}
		return out
	}
	out := map[string]any{}
	for n := e.Draw(5); n > 0; n-- {
		out[string(g.content())] = drawValue(e, depth-1, left)
	}
	return out
}

// manyValues is an array or object with many members, or a deep one
func manyValues(e *E) any {
	ok := func() any { // a value that is accepted: one refused value would make all of them refused
		left := 1
		v := drawValue(e, 0, &left)
		if _, err := makeValue(v); err != nil {
			return nil
		}
		return v
	}
	switch e.Draw(3) {
	case 0:
		out := []any{}
		for n := 100 + e.Draw(1500); n > 0; n-- {
			out = append(out, ok())
		}
		return out
	case 1:
		out := map[string]any{}
		for n := 50 + e.Draw(600); n > 0; n-- {
			out[fmt.Sprint(n, string((&jsonGen{e: e}).content()))] = ok()
		}
		e.Probe(fmt.Sprintf("many members %d00", len(out)/100))
		return out
	}
	v := ok()
	for n := 20 + e.Draw(1000); n > 0; n-- {
		if e.Bool() {
			v = []any{v}
		} else {
			v = map[string]any{"k": v}
		}
	}
	return v
}

func drawGoNumber(e *E) any {
	switch e.Draw(12) {
	case 0:
		return e.Draw(1000000) - 500000
	case 1:
		return []int64{math.MinInt64, math.MaxInt64, 0, -1}[e.Draw(4)]
	case 2:
		return uint64(math.MaxUint64)
	case 3:
		return int8(e.Draw(256) - 128)
	case 4:
		return []float64{0, 0.1, -1.5, 1e21, 1e-7, 1e300, 5e-324, math.MaxFloat64, math.Copysign(0, -1), 123456789.125}[e.Draw(10)]
	case 5:
		return []float32{0.1, 1e-10, 3.4e38, -2.5}[e.Draw(4)]
	case 6:
		b, _ := new(big.Int).SetString("-123456789012345678901234567890", 10)
		return b
	case 7:
		b, _, _ := big.ParseFloat("1.2345678901234567890e50", 10, 200, big.ToNearestEven)
		return b
	case 8:
		return big.NewRat(int64(e.Draw(2000)-1000), int64(1+e.Draw(16)))
	case 9: // not JSON numbers: these must be refused when the value is made
		return []any{math.NaN(), math.Inf(1), math.Inf(-1), json.NumberString("007"), json.NumberString("1 "), json.NumberString("0x1F"), json.NumberString("1."), json.NumberString("-"), json.NumberString("+1"), json.NumberString(".5"), json.NumberString("1e"), json.NumberString("٣"), json.NumberString("1\n")}[e.Draw(13)]
	case 10:
		return uint8(e.Draw(256))
	}
	return float64(e.Draw(1<<30)) / float64(1+e.Draw(1000))
}

func makeValue(v any) (out json.Value, err error) {
	switch x := v.(type) {
	case map[string]any:
		return json.MapToValue(x)
	case []any:
		return json.SliceToValue(x)
	}
	s, err := json.SliceToValue([]any{v})
	if err != nil {
		return out, err
	}
	return s.AsSlice()[0], nil
}

// asGo is the value as encoding/json would present it
func asGo(v json.Value) any {
	switch v.Type() {
	case json.Object:
		out := map[string]any{}
		for k, x := range v.AsMap() {
			out[k] = asGo(x)
		}
		return out
	case json.Array:
		out := []any{}
		for _, x := range v.AsSlice() {
			out = append(out, asGo(x))
		}
		return out
	case json.String:
		return v.AsString()
	case json.Number:
		return gojson.Number(v.AsNumber())
	case json.Boolean:
		return v.AsBool()
	}
	return nil
}

func goDiff(got, want any) bool {
	switch w := want.(type) {
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return true
		}
		for i := range w {
			if goDiff(g[i], w[i]) {
				return true
			}
		}
		return false
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(w) {
			return true
		}
		for k := range w {
			if x, ok := g[k]; !ok || goDiff(x, w[k]) {
				return true
			}
		}
		return false
	}
	return got != want
}

// runeDst is a destination of characters
type runeDst struct{ d *Dst }

func (r runeDst) Write(vals ...rune) error {
	p := []byte(string(vals))
	n, err := r.d.Write(p)
	if err == nil && n < len(p) {
		err = fmt.Errorf("simulated: only %d bytes", n)
		r.d.lastErr = append(r.d.lastErr, err)
	}
	return err
}

// sameValue compares all but the numbers of a value with what it was made of
func sameValue(got, want any) string {
	bad := fmt.Sprintf("at %s: %s", quote(want), quote(got))
	switch w := want.(type) {
	case string, bool, nil:
		if got != w {
			return bad
		}
	case json.NumberString:
		if got != gojson.Number(w) {
			return bad
		}
	case []any:
		g, isa := got.([]any)
		if !isa || len(g) != len(w) {
			return bad
		}
		for i := range w {
			if d := sameValue(g[i], w[i]); d != "" {
				return d
			}
		}
	case map[string]any:
		g, isa := got.(map[string]any)
		if !isa || len(g) != len(w) {
			return bad
		}
		for _, k := range sortedKeys(w) {
			if x, have := g[k]; !have {
				return bad
			} else if d := sameValue(x, w[k]); d != "" {
				return d
			}
		}
	default:
		if _, isa := got.(gojson.Number); !isa {
			return bad
		}
	}
	return ""
}

func runC13(e *E) {
	left := []int{4, 15, 50}[e.Draw(3)]
	var gv any
	switch e.Draw(5) {
	case 0:
		gv = drawValue(e, 0, &left)
	case 1, 2:
		m := map[string]any{}
		g := &jsonGen{e: e}
		for n := e.Draw(6); n > 0; n-- {
			m[string(g.content())] = drawValue(e, 3, &left)
		}
		gv = m
	default:
		s := []any{}
		for n := e.Draw(6); n > 0; n-- {
			s = append(s, drawValue(e, 3, &left))
		}
		gv = s
	}
	if e.OneIn(1000) {
		gv = manyValues(e)
	}
	v, err := makeValue(gv)
	if err != nil {
		e.Probe("value refused")
		e.Assert(v.Type() == json.Invalid, "value-with-error", "a value of type %v with the error %v", v.Type(), err)
		return
	}
	want := asGo(v)
	if d := sameValue(want, gv); d != "" {
		e.Fail("value-mismatch", "the value made of %s is different %s", quote(gv), d)
	}
	dst := &Dst{e: e, failAt: -1, err: drawWriteErr(e)}
	if e.Bool() {
		// learn how many calls there are, then fail one of them
		probe := &Dst{e: e, failAt: -1}
		write.Write(v, writer.OfIOWriterAsRunes(probe))
		dst.failAt = e.Draw(probe.calls + 1)
	}
	e.State(gv, dst.failAt)
	if v.IsDocument() {
		e.NonTrivial()
	}
	e.Trace("write %#v failing at call %d with %v", want, dst.failAt, dst.err)
	var w writer.Writer[rune]
	var slice []rune // a destination of characters that does not fail
	switch e.Draw(6) {
	case 0:
		w = runeDst{dst}
	case 1:
		if dst.failAt < 0 {
			w = writer.NewWriter(func(r rune) error { slice = append(slice, r); return nil })
			if e.Bool() {
				w = writer.OfSliceWriter(&slice)
			}
			break
		}
		fallthrough
	default:
		w = writer.OfIOWriterAsRunes(dst.dst())
	}
	form := e.Draw(4)
	must := func(f func(json.Value, writer.Writer[rune])) {
		if p, panicked := Catch(func() { f(v, w) }); panicked {
			var isErr bool
			if err, isErr = p.(error); !isErr {
				e.Fail("write-panic", "panics with %v", p)
			}
		}
	}
	switch {
	case form == 0 && v.Type() == json.Object:
		err = write.WriteObject(v, w)
	case form == 0 && v.Type() == json.Array:
		err = write.WriteArray(v, w)
	case form == 1 && v.Type() == json.Object:
		must(write.MustWriteObject)
	case form == 1 && v.Type() == json.Array:
		must(write.MustWriteArray)
	case form == 1:
		must(write.MustWrite)
	default:
		err = write.Write(v, w)
	}
	if slice != nil {
		dst.got = []byte(string(slice))
	}
	e.Trace("error %v, received %q", err, dst.got)
	e.Assert(!goDiff(asGo(v), want), "write-modified", "writing modifies the value: %s instead of %s", quote(asGo(v)), quote(want))
	dec := gojson.NewDecoder(bytes.NewReader(dst.got))
	dec.UseNumber()
	var back any
	derr := dec.Decode(&back)
	if err == nil {
		e.Assert(dst.failed == 0, "write-acknowledged", "success, but the destination failed (received %q)", clip(string(dst.got)))
		e.Assert(derr == nil, "write-invalid", "written %q is not JSON: %v", clip(string(dst.got)), derr)
		_, more := dec.Token()
		e.Assert(more == io.EOF, "write-invalid", "written %q has more than one document", clip(string(dst.got)))
		e.Assert(!goDiff(back, want), "write-mismatch", "written %q reads back as %s instead of %s", clip(string(dst.got)), quote(back), quote(want))
		if e.OneIn(4) { // the same again, after it
			n := len(dst.got)
			dst.failAt, slice = -1, nil
			if w, isa := w.(runeDst); isa {
				err = write.Write(v, w)
			} else {
				err = write.Write(v, writer.OfIOWriterAsRunes(dst.dst()))
			}
			e.Assert(err == nil, "write-error-made-up", "error %v the second time", err)
			var twice any
			dec := gojson.NewDecoder(bytes.NewReader(dst.got[n:]))
			dec.UseNumber()
			derr := dec.Decode(&twice)
			e.Assert(derr == nil && !goDiff(twice, want), "write-mismatch", "written a second time, %q reads back as %s (%v) instead of %s", clip(string(dst.got[n:])), quote(twice), derr, quote(want))
			dst.got = dst.got[:n]
		}
		if v.IsDocument() {
			again, perr := parse.Parse(bytes.NewReader(dst.got))
			e.Assert(perr == nil, "write-invalid", "written %q does not read back: %v", clip(string(dst.got)), perr)
			if diff := jsonDiff(again, want, "document"); diff != "" {
				e.Fail("write-mismatch", "written %q reads back different %s", clip(string(dst.got)), diff)
			}
		}
		return
	}
	e.Assert(dst.failed > 0, "write-error-made-up", "error %v, but the destination did not fail", err)
	e.Assert(dst.after == 0, "write-after-failure", "%d writes after the failure", dst.after)
	if e.OneIn(4) { // a failed write leaves nothing behind for the next one
		var slice []rune
		werr := write.Write(v, writer.OfSliceWriter(&slice))
		e.Assert(werr == nil, "write-error-made-up", "error %v in a write after a failed one", werr)
		var again any
		dec := gojson.NewDecoder(strings.NewReader(string(slice)))
		dec.UseNumber()
		derr := dec.Decode(&again)
		e.Assert(derr == nil && !goDiff(again, want), "write-mismatch", "written after a failure, %q reads back as %s (%v) instead of %s", clip(string(slice)), quote(again), derr, quote(want))
	}
	if len(dst.lastErr) > 0 {
		e.Assert(err == dst.lastErr[0], "write-error", "error %v instead of the destination's %v", err, dst.lastErr[0])
	}
	e.Assert(derr == nil || derr == io.EOF || derr == io.ErrUnexpectedEOF, "write-not-prefix", "received %q is no prefix of a document: %v", clip(string(dst.got)), derr)
}

func runC14(e *E) {
	if e.OneIn(12) {
		containers(e)
		return
	}
	dst := &Dst{e: e, failAt: -1, err: drawWriteErr(e)}
	dst.rate = []int{0, 3, 8}[e.Draw(3)]
	kind := e.Draw(4)
	multi := e.Bool()
	e.Trace("kind %d, writer %v, one in %d fails with %v", kind, multi, dst.rate, dst.err)
	e.State(kind, multi, dst.rate)
	one := func(write func() error, enc []string, vals any) {
		before, failed, errs := len(dst.got), dst.failed, len(dst.lastErr)
		err := write()
		d := string(dst.got[before:])
		e.State(vals, d, err)
		e.Trace("wrote %q: received %q, %v", vals, d, err)
		all := strings.Join(enc, "")
		if err == nil {
			e.Assert(d == all, "write-acknowledged", "success writing %s, but %q was received instead of %q", quote(vals), d, all)
			return
		}
		e.Assert(dst.failed > failed, "write-error-made-up", "writing %s: error %v, but the destination did not fail", quote(vals), err)
		if len(dst.lastErr) > errs {
			e.Assert(err == dst.err, "write-error", "writing %s: error %v instead of the destination's %v", quote(vals), err, dst.err)
		}
		e.Assert(strings.HasPrefix(all, d), "write-garbled", "writing %s failed with %v, but %q was received", quote(vals), err, d)
		e.NonTrivial()
	}
	n := e.Draw(10)
	switch kind {
	case 0:
		g := writer.IOWriterGen(dst.dst())
		w := writer.OfIOWriterAsBytes(dst.dst())
		for ; n > 0; n-- {
			b := drawBytes(e)
			if len(b) > 6 {
				b = b[:6]
			}
			if multi && e.OneIn(2000) {
				b = bytes.Repeat([]byte{0, 1, 2, 0xff}, 60+e.Draw(1000))
			}
			if multi {
				var enc []string
				for _, x := range b {
					enc = append(enc, string([]byte{x}))
				}
				one(func() error { return w.Write(b...) }, enc, b)
			} else if len(b) > 0 {
				one(func() error { return g(b[0]) }, []string{string(b[:1])}, b[:1])
			}
		}
	case 1:
		g := writer.IOWriterAsRunesGen(dst.dst())
		w := writer.OfIOWriterAsRunes(dst.dst())
		for ; n > 0; n-- {
			rs := []rune(string(drawText(e, 6)))
			if multi && e.OneIn(2000) {
				rs = []rune(strings.Repeat("aé😀", 100+e.Draw(1500)))
			}
			if multi {
				one(func() error { return w.Write(rs...) }, []string{string(rs)}, rs)
			} else if len(rs) > 0 {
				one(func() error { return g(rs[0]) }, []string{string(rs[:1])}, rs[:1])
			}
		}
	default:
		eol := ""
		g, w := writer.IOWriterAsStringsGen(dst.dst()), writer.OfIOWriterAsStrings(dst.dst())
		if kind == 3 {
			eol = "\n"
			g, w = writer.IOWriterAsLinesGen(dst.dst()), writer.OfIOWriterAsLines(dst.dst())
		}
		for ; n > 0; n-- {
			var ss, enc []string
			k := e.Draw(4)
			crowd := multi && e.OneIn(2000)
			if crowd {
				k = 60 + e.Draw(2500)
			}
			for ; k > 0; k-- {
				s := string(drawText(e, 10))
				if !crowd && e.OneIn(6) {
					s = strings.Repeat("long ", e.Draw(300))
				}
				if e.OneIn(10) {
					s = string(drawBytes(e)) // written as it is
				}
				ss, enc = append(ss, s), append(enc, s+eol)
			}
			if multi {
				one(func() error { return w.Write(ss...) }, enc, ss)
			} else if len(ss) > 0 {
				one(func() error { return g(ss[0]) }, enc[:1], ss[:1])
			}
		}
	}
}

// few is a small number of members, or rarely a large one
func (g *jsonGen) few() int {
	if g.left > 10 && g.e.OneIn(1000) {
		return 50 + g.e.Draw(300)
	}
	return g.e.Draw(5)
}
