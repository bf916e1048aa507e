package harness

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"

	"github.com/bantling/micro/iter"

	"verif.local/sim/vsim"
)

// drain pulls everything and checks the shape every source shares: a zero value with the terminal outcome, which repeats
// without another read of the reader.
func drain[T any](e *E, what string, it nexter[T], rd *Reader, limit int, keep func(T) T) (out []T, end error) {
	for {
		if e.OneIn(40) {
			vsim.Sleep(time.Duration(e.Draw(100)) * time.Millisecond)
		}
		v, err := it.next()
		if err != nil {
			end = err
			e.Assert(reflect.ValueOf(&v).Elem().IsZero(), "value-with-error", "%s: %#v together with the error %v", what, v, err)
			break
		}
		out = append(out, keep(v))
		e.Assert(len(out) <= limit, "endless", "%s: more than %d items from %s", what, limit, rd)
	}
	e.Trace("%s: %d items, then %v", what, len(out), end)
	reads := 0
	if rd != nil {
		reads = rd.reads
		e.Assert(rd.after == 0 || rd.lax, "read-after-end", "%s: %d reads after the reader's end", what, rd.after)
	}
	for i := e.Range(1, 3); i > 0; i-- {
		v, err := it.next()
		e.Assert(err == end && reflect.ValueOf(&v).Elem().IsZero(), "not-sticky", "%s: ended with %v, asked again: %#v, %v", what, end, v, err)
	}
	if rd != nil {
		e.Assert(rd.reads == reads, "read-after-end", "%s: %d reads after the outcome %v", what, rd.reads-reads, end)
	}
	return
}

func same[T any](v T) T { return v }

// copyRecord copies a CSV record: the source documents that it delivers the same slice each time
func copyRecord(v []string) []string { return append([]string(nil), v...) }

func quote[T any](v T) string { return clip(fmt.Sprintf("%q", v)) }

func firstDiff[T any](a, b []T) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if !reflect.DeepEqual(a[i], b[i]) {
			return i
		}
	}
	return min(len(a), len(b))
}

func expectItems[T any](e *E, class, what string, got, want []T, detail any) {
	if len(got) == len(want) && (len(got) == 0 || reflect.DeepEqual(got, want)) {
		vsim.Eval()
		return
	}
	i := firstDiff(got, want)
	g, w := "nothing", "nothing"
	if i < len(got) {
		g = quote(got[i])
	}
	if i < len(want) {
		w = quote(want[i])
	}
	e.Assert(false, class, "%s: %d items instead of %d; item %d is %s instead of %s (%v)", what, len(got), len(want), i, g, w, detail)
}

var readerStub = []string{"the reader (seeded fragmentation, empty reads, stalls, data with the end, errors)", "clock"}

func init() {
	register(&Check{
		ID: "C06", Several: true, Quick: 800000, Thorough: 12000000, Budget: 40000000,
		Rule: "a run = random bytes delivered by a simulated reader (fragmentation, empty reads, data with end, stalls, error at a random byte, closeable or not, failing close) and iterated; non-trivial = at least one byte and a fault or fragment; distinct = by content, delivery and outcome",
		Real: []string{"iter.ReaderIterGen", "iter.OfReader", "iter.IterImpl"},
		Stub: readerStub,
		Run: func(e *E) {
			data := drawBytes(e)
			if e.OneIn(50) {
				it := ofFn(iter.ReaderIterGen(nil))
				got, end := drain(e, "nil reader", it, nil, 0, same)
				e.Assert(len(got) == 0 && end == iter.EOI, "nil-reader", "nil reader: %v, %v", got, end)
				return
			}
			rd := newReader(e, data)
			rd.patience()
			rd.fault()
			src := rd.src()
			_, closer := src.(io.Closer)
			if !closer && e.Bool() {
				closer = true
				src = closing{rd}
			}
			if closer {
				if e.OneIn(3) {
					rd.closeErr = []error{drawErr(e, "simulated close error"), drawReadErr(e), io.EOF}[e.Draw(3)]
					e.Fault("close error")
				}
			}
			e.Trace("reader %s closer %v (%v) data %x", rd, closer, rd.closeErr, rd.data)
			want := rd.data
			var it nexter[byte]
			if e.Bool() {
				it = ofIter(iter.OfReader(src))
			} else {
				it = ofFn(iter.ReaderIterGen(src))
			}
			e.Assert(rd.reads == 0 && rd.closes == 0, "eager", "the reader was used before the first byte was asked for")
			var got []byte
			// partial consumption: never closed before the end was seen
			stop := len(want) + 1
			if e.OneIn(4) {
				stop = e.Draw(len(want) + 1)
			}
			for len(got) < stop {
				b, err := it.next()
				if err != nil {
					break
				}
				got = append(got, b)
				e.Assert(rd.closes == 0 || rd.ended, "closed-early", "closed after %d of %d bytes, before the end was seen", len(got), len(want))
				e.Assert(len(got) <= len(want), "byte-mismatch", "%d bytes of %d", len(got), len(want))
			}
			if len(got) == stop {
				e.State(want, rd, stop)
				expectItems(e, "byte-mismatch", "bytes", got, want[:stop], rd)
				e.Assert(rd.closes == 0 || rd.ended, "closed-early", "closed after %d of %d bytes", stop, len(want))
				return
			}
			_, end := drain(e, "bytes", it, rd, 0, same)
			expectItems(e, "byte-mismatch", "bytes", got, want, rd)
			wantEnd := endAs(rd.end)
			if rd.end == io.EOF && closer && rd.closeErr != nil {
				wantEnd = rd.closeErr
			}
			e.Assert(end == wantEnd, "byte-end", "ended with %v instead of %v (%s)", end, wantEnd, rd)
			if closer && rd.end == io.EOF {
				e.Assert(rd.closes == 1, "close-count", "closed %d times after the end", rd.closes)
			} else {
				e.Assert(rd.closes <= 1, "close-count", "closed %d times", rd.closes)
			}
			e.Assert(rd.closes == 0 || rd.closeAt, "closed-early", "closed before the end was seen")
			e.State(want, rd, closer, rd.closeErr)
			if len(want) > 0 {
				e.NonTrivial()
			}
		},
	})

	register(&Check{
		ID: "C07", Several: true, Quick: 800000, Thorough: 12000000, Budget: 40000000,
		Rule: "a run = random text, with malformed encodings inserted, delivered by a simulated reader (fragmentation, empty reads, data with end, stalls, cut or error at a random byte) and iterated as characters; non-trivial = at least one multi-byte or malformed encoding; distinct = by bytes and delivery",
		Real: []string{"iter.ReaderAsRunesIterGen", "iter.StringAsRunesIterGen", "iter.OfReaderAsRunes", "iter.OfStringAsRunes", "iter.IterImpl"},
		Stub: readerStub,
		Run: func(e *E) {
			data := drawText(e, []int{4, 10, 40}[e.Draw(3)])
			switch e.Draw(4) {
			case 1:
				at := e.Draw(len(data) + 1) // may fall within a character
				bad := badUTF8[e.Draw(len(badUTF8))]
				data = append(append(append([]byte{}, data[:at]...), bad...), data[at:]...)
			case 2:
				data = append(data, drawBytes(e)...)
			}
			rd := newReader(e, data)
			rd.patience()
			if !rd.fault() && e.OneIn(4) {
				rd.cut(e.Draw(len(data)+1), io.EOF)
			}
			want, ends := modelRunes(rd.data, rd.end)
			if e.OneIn(10) && rd.end == io.EOF {
				// the same from a string
				e.Trace("string %q", rd.data)
				it := ofFn(iter.StringAsRunesIterGen(string(rd.data)))
				if ends[0] == iter.EOI && e.Bool() {
					it = ofIter(iter.OfStringAsRunes(string(rd.data)))
				}
				got, end := drain(e, "runes of string", it, nil, len(rd.data)+1, same)
				expectItems(e, "rune-mismatch", "runes of string", got, want, quote(rd.data))
				e.Assert(oneOf(end, ends), "rune-end", "ended with %v instead of %v (string %q)", end, ends, rd.data)
				return
			}
			e.Trace("reader %s data %q", rd, rd.data)
			var it nexter[rune]
			if e.Bool() {
				it = ofIter(iter.OfReaderAsRunes(rd.src()))
			} else {
				it = ofFn(iter.ReaderAsRunesIterGen(rd.src()))
			}
			e.Assert(rd.reads == 0, "eager", "the reader was read before the first character was asked for")
			got, end := drain(e, "runes", it, rd, len(rd.data)+1, same)
			expectItems(e, "rune-mismatch", "runes", got, want, fmt.Sprintf("%q %s", clip(string(rd.data)), rd))
			e.Assert(oneOf(end, ends), "rune-end", "ended with %v instead of %v (%q %s)", end, ends, clip(string(rd.data)), rd)
			e.State(string(rd.data), rd)
			if len(want) < len(rd.data) {
				e.NonTrivial()
			}
		},
	})

	register(&Check{
		ID: "C08", Several: true, Quick: 800000, Thorough: 12000000, Budget: 40000000,
		Rule: "a run = random text with LF, CR and CRLF mixtures delivered by a simulated reader (fragmentation, empty reads, data with end, stalls, cut or error at a random byte, malformed encodings) and iterated as lines; non-trivial = at least two lines; distinct = by bytes and delivery",
		Real: []string{"iter.ReaderAsLinesIterGen", "iter.StringAsLinesIterGen", "iter.OfReaderAsLines", "iter.OfStringAsLines", "iter.IterImpl"},
		Stub: readerStub,
		Run: func(e *E) {
			var data []byte
			for n := e.Draw([]int{3, 8, 25}[e.Draw(3)]); n > 0; n-- {
				switch e.Draw(8) {
				case 0, 1:
					data = append(data, '\n')
				case 2:
					data = append(data, '\r')
				case 3:
					data = append(data, "\r\n"...)
				case 4:
					data = append(data, []string{"\r\r\n", "\n\r", "\r\n\r\n", "\r\r", "\n\n", "\r\n\n", "\r\n\r"}[e.Draw(7)]...)
				case 5:
					data = append(data, []string{"a", "bc", "line", " ", "\v", "\f", "\u0085", "\u2028", "\u2029", "\x00"}[e.Draw(10)]...)
				default:
					data = append(data, drawText(e, 5)...)
				}
			}
			if e.OneIn(300) { // a long line, or many
				data = append(data, drawText(e, 10)...)
				if n := drawBulk(e); e.Bool() {
					data = append(data, bytes.Repeat([]byte("é"), n/2)...)
				} else {
					data = append(data, bytes.Repeat([]byte("ab\r\nc\n"), n/7)...)
				}
				data = append(data, drawText(e, 10)...)
			}
			if e.OneIn(6) {
				at := e.Draw(len(data) + 1)
				data = append(append(append([]byte{}, data[:at]...), badUTF8[e.Draw(len(badUTF8))]...), data[at:]...)
			}
			rd := newReader(e, data)
			rd.patience()
			if !rd.fault() && e.OneIn(4) {
				rd.cut(e.Draw(len(data)+1), io.EOF)
			}
			runes, ends := modelRunes(rd.data, rd.end)
			want, rest := modelLines(runes)
			if ends[0] == iter.EOI && rest != "" {
				want = append(want, rest)
			}
			var it nexter[string]
			var seen *Reader
			if e.OneIn(8) && rd.end == io.EOF {
				e.Trace("string %q", rd.data)
				if e.Bool() {
					it = ofIter(iter.OfStringAsLines(string(rd.data)))
				} else {
					it = ofFn(iter.StringAsLinesIterGen(string(rd.data)))
				}
			} else {
				e.Trace("reader %s data %q", rd, rd.data)
				seen = rd
				if e.Bool() {
					it = ofIter(iter.OfReaderAsLines(rd.src()))
				} else {
					it = ofFn(iter.ReaderAsLinesIterGen(rd.src()))
				}
			}
			e.Assert(rd.reads == 0, "eager", "the reader was read before the first line was asked for")
			got, end := drain(e, "lines", it, seen, len(rd.data)+1, same)
			expectItems(e, "line-mismatch", "lines", got, want, fmt.Sprintf("%q %s", clip(string(rd.data)), rd))
			e.Assert(oneOf(end, ends), "line-end", "ended with %v instead of %v (%q %s)", end, ends, clip(string(rd.data)), rd)
			e.State(string(rd.data), rd)
			if len(want) > 1 {
				e.NonTrivial()
			}
		},
	})

	register(&Check{
		ID: "C09", Several: true, Quick: 600000, Thorough: 9000000, Budget: 40000000,
		Rule:   "a run = random CSV text (quoted fields, embedded line ends, wrong field counts, stray quotes) delivered by a simulated reader (fragmentation, empty reads, data with end, stalls, cut or error at a random byte) and iterated; non-trivial = at least two records or an error; distinct = by bytes and delivery",
		Real:   []string{"iter.CSVIterGen", "iter.OfCSV", "iter.IterImpl", "encoding/csv"},
		Stub:   readerStub,
		Assume: []string{"encoding/csv over an unfragmented reader is the reference for what a standard CSV reader finds"},
		Run: func(e *E) {
			text, ok := drawCSV(e)
			rd := newReader(e, []byte(text))
			if !rd.fault() && e.OneIn(4) {
				rd.cut(e.Draw(len(text)+1), io.EOF)
			}
			// reference: the same bytes all at once
			ref := csv.NewReader(io.MultiReader(bytes.NewReader(rd.data), &endReader{rd.end}))
			var want [][]string
			var wantEnd error
			for {
				rec, err := ref.Read()
				if err != nil {
					wantEnd = endAs(err)
					break
				}
				want = append(want, rec)
			}
			rd.lax = true // encoding/csv itself looks twice for the end of an unterminated record
			e.Trace("reader %s data %q (well formed %v)", rd, rd.data, ok)
			if e.OneIn(60) {
				got, end := drain(e, "nil reader", ofFn(iter.CSVIterGen(nil)), nil, 0, same)
				e.Assert(len(got) == 0 && end == iter.EOI, "nil-reader", "nil reader: %v, %v", got, end)
			}
			var it nexter[[]string]
			if e.Bool() {
				it = ofIter(iter.OfCSV(rd.src()))
			} else {
				it = ofFn(iter.CSVIterGen(rd.src()))
			}
			got, end := drain(e, "records", it, rd, len(rd.data)+1, copyRecord)
			expectItems(e, "csv-mismatch", "records", got, want, fmt.Sprintf("%q %s", clip(string(rd.data)), rd))
			switch {
			case wantEnd == iter.EOI || wantEnd == rd.end:
				e.Assert(end == wantEnd, "csv-end", "ended with %v instead of %v (%q %s)", end, wantEnd, clip(string(rd.data)), rd)
			default:
				e.Assert(end != nil && end != iter.EOI && end.Error() == wantEnd.Error(), "csv-end", "ended with %v instead of %v (%q %s)", end, wantEnd, clip(string(rd.data)), rd)
			}
			e.State(string(rd.data), rd)
			if len(want) > 1 || wantEnd != iter.EOI {
				e.NonTrivial()
			}
		},
	})
}

type endReader struct{ err error }

func (r *endReader) Read([]byte) (int, error) { return 0, r.err }

// drawCSV draws a document, and whether it is well formed
func drawCSV(e *E) (string, bool) {
	var sb strings.Builder
	ok := true
	cols := e.Range(1, 4)
	field := func() string {
		if e.OneIn(2000) {
			return strings.Repeat([]string{"x", "é", "日"}[e.Draw(3)], drawBulk(e)/(1+e.Draw(3)))
		}
		switch e.Draw(7) {
		case 0:
			return ""
		case 1:
			return fmt.Sprint(e.Draw(1000))
		case 2:
			return `"` + []string{"a,b", "say \"\"hi\"\"", "two\nlines", "cr\r\nlf", "", " x ", "é,ü"}[e.Draw(7)] + `"`
		case 3:
			return []string{" lead", "trail ", "é", "日本", "x;y", "#c", "\ufeff", "a\tb", "\ufeffb", "1\u2028", "\u00a0", "x\ry", "'q'"}[e.Draw(13)]
		}
		return []string{"a", "bb", "ccc", "dddddddddddddddddddddddd"}[e.Draw(4)]
	}
	rows := e.Draw([]int{3, 6, 30}[e.Draw(3)])
	if e.OneIn(400) {
		rows = 100 + e.Draw(1000)
		if e.OneIn(6) {
			rows = 1000 + e.Draw(4000)
		}
	}
	sound := e.OneIn(3) || rows >= 100 && !e.OneIn(4) // nothing malformed
	if e.OneIn(1000) {
		rows, cols = min(rows, 20), 5+e.Draw([]int{100, 3000}[e.Draw(2)])
		sound = !e.OneIn(8)
	}
	for n := rows; n > 0; n-- {
		k := cols
		if !sound && e.OneIn(14) {
			k, ok = e.Range(1, 5), false
		}
		for i := 0; i < k; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			if !sound && e.OneIn(30) {
				ok = false
				sb.WriteString([]string{`a"b`, `"a"b`, `"open`, `"`}[e.Draw(4)])
				continue
			}
			sb.WriteString(field())
		}
		sb.WriteString([]string{"\n", "\n", "\r\n", "\n\n"}[e.Draw(4)])
	}
	s := sb.String()
	if e.OneIn(3) {
		s = strings.TrimRight(s, "\r\n")
	}
	return s, ok
}
