package harness

import (
	"fmt"
	"io"
	"time"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/iter"

	"verif.local/sim/vsim"
)

// pipe is a source whose bytes arrive while it is being read: a read waits until there is something
type pipe struct {
	e      *E
	data   []byte
	pos    int
	end    error
	reads  int
	frag   int
	closes int
}

func (p *pipe) Read(b []byte) (int, error) {
	vsim.Y(0)
	p.reads++
	for p.pos == len(p.data) && p.end == nil {
		vsim.Block(p)
	}
	if p.pos == len(p.data) {
		return 0, p.end
	}
	n := min(len(b), len(p.data)-p.pos)
	if p.frag > 0 && n > p.frag {
		n = p.frag
	}
	copy(b, p.data[p.pos:p.pos+n])
	p.pos += n
	return n, nil
}

// liveCase is a stream of items with the position of the byte that completes each
type liveCase struct {
	kind string
	data []byte
	done []int                     // items 0..i are complete once done[i] bytes have arrived
	same func(i int, v any) string // "" if v is item i
}

func drawLive(e *E) *liveCase {
	c := &liveCase{}
	switch e.Draw(4) {
	case 0:
		c.kind = "bytes"
		c.data = drawBytes(e)
		for i := range c.data {
			c.done = append(c.done, i+1)
		}
		c.same = func(i int, v any) string {
			if v.(byte) != c.data[i] {
				return fmt.Sprintf("%x instead of %x", v, c.data[i])
			}
			return ""
		}
	case 1:
		c.kind = "characters"
		c.data = drawText(e, 20)
		runes := []rune(string(c.data))
		n := 0
		for _, r := range runes {
			n += len(string(r))
			c.done = append(c.done, n)
		}
		c.same = func(i int, v any) string {
			if v.(rune) != runes[i] {
				return fmt.Sprintf("%q instead of %q", v, runes[i])
			}
			return ""
		}
	case 2:
		c.kind = "lines"
		var lines []string
		for n := e.Draw(8); n > 0; n-- {
			l := ""
			for k := e.Draw(4); k > 0; k-- {
				l += []string{"a", "é", "日", " ", "\U0001f600"}[e.Draw(5)]
			}
			eol := []string{"\n", "\r", "\r\n"}[e.Draw(3)]
			if l == "" && len(c.data) > 0 && c.data[len(c.data)-1] == '\r' && eol == "\n" {
				eol = "\r\n"
			}
			c.data = append(c.data, l...)
			lines = append(lines, l)
			c.done = append(c.done, len(c.data)+1)
			c.data = append(c.data, eol...)
		}
		c.same = func(i int, v any) string {
			if v.(string) != lines[i] {
				return fmt.Sprintf("%q instead of %q", v, lines[i])
			}
			return ""
		}
	default:
		c.kind = "JSON elements"
		d := drawJSON(e, true)
		c.data, c.done = []byte(d.text[:d.end]), d.delim
		c.same = func(i int, v any) string { return jsonDiff(v.(json.Value), d.want.([]any)[i], "element") }
	}
	return c
}

// open starts iterating; the JSON parser may read the first token when it is created
func (c *liveCase) open(src io.Reader) func() (any, error) {
	wrap := func(v any, err error) (any, error) { return v, err }
	switch c.kind {
	case "bytes":
		it := iter.OfReader(src)
		return func() (any, error) { v, err := it.Next(); return wrap(v, err) }
	case "characters":
		it := iter.OfReaderAsRunes(src)
		return func() (any, error) { v, err := it.Next(); return wrap(v, err) }
	case "lines":
		it := iter.OfReaderAsLines(src)
		return func() (any, error) { v, err := it.Next(); return wrap(v, err) }
	}
	var it iter.Iter[json.Value]
	return func() (any, error) {
		if it == nil {
			it = parse.Iterate(src)
		}
		v, err := it.Next()
		return wrap(v, err)
	}
}

func init() {
	register(&Check{
		ID: "C12", Quick: 200000, Thorough: 3000000, Budget: 80000000,
		Rule:   "a run = a stream of bytes, characters, lines or JSON elements: either delivered by a simulated reader whose reads are recorded, or arriving in pieces, hours apart, from a second thread while it is iterated, ending, failing or stalling at a random byte; non-trivial = at least two items; distinct = by content, pieces and end",
		Real:   []string{"iter.OfReader", "iter.OfReaderAsRunes", "iter.OfReaderAsLines", "parse.Iterate", "lexer"},
		Stub:   []string{"the source (seeded pieces, stalls, failure)", "clock", "thread scheduler (seeded)"},
		Assume: []string{"a thread that does not proceed within simulated hours in which nothing else happens is waiting for further input"},
		Run: func(e *E) {
			c := drawLive(e)
			e.Trace("%s %q", c.kind, c.data)
			if len(c.done) > 1 {
				e.NonTrivial()
			}
			if e.Bool() {
				rd := newReader(e, c.data)
				rd.patience()
				if rd.fault() || e.OneIn(4) && len(c.data) > 0 {
					if rd.end == io.EOF {
						rd.cut(e.Draw(len(c.data)), errRead)
					}
				}
				e.State(c.kind, string(rd.data), rd)
				next, data := c.open(rd.src()), clip(string(rd.data))
				for i := 0; ; i++ {
					v, err := next()
					if err != nil {
						full := 0
						for full < len(c.done) && c.done[full] <= len(rd.data) {
							full++
						}
						e.Assert(i >= full, "withheld", "%s: %d items had arrived, %d were delivered before %v (%q %s)", c.kind, full, i, err, data, rd)
						return
					}
					e.Assert(i < len(c.done) || c.kind == "lines", "live-extra", "%s: more than %d items", c.kind, len(c.done))
					if i >= len(c.done) {
						continue
					}
					if d := c.same(i, v); d != "" {
						e.Fail("live-mismatch", "%s: item %d is %s (%q %s)", c.kind, i, d, data, rd)
					}
					e.Assert(rd.lastStart < c.done[i], "read-ahead", "%s: item %d was complete with %d bytes, but a read beyond them was attempted before it was delivered (%q %s)",
						c.kind, i, c.done[i], data, rd)
				}
			}

			p := &pipe{e: e, frag: []int{0, 1, 2, 5}[e.Draw(4)]}
			type item struct {
				v  any
				at int
			}
			var (
				got      []item
				finished bool
				last     error
			)
			e.Go("consumer", func() {
				next := c.open(p)
				for {
					if e.OneIn(5 + len(c.data)/200) {
						vsim.Sleep(time.Duration(e.Draw(50)) * time.Millisecond)
					}
					v, err := next()
					if err != nil {
						last, finished = err, true
						return
					}
					got = append(got, item{v, len(p.data)})
					e.Assert(len(got) <= len(c.data)+1, "endless", "more items than bytes")
				}
			})
			stop := len(c.data)
			if e.OneIn(3) {
				stop = e.Draw(len(c.data) + 1)
			}
			complete := 0
			for len(p.data) < stop {
				n := min(1+e.Draw([]int{1, 3, 10, 100}[e.Draw(4)]+len(c.data)/2000), stop-len(p.data))
				p.data = append(p.data, c.data[len(p.data):len(p.data)+n]...)
				e.Trace("%d bytes arrived", len(p.data))
				vsim.Wake(p)
				if e.OneIn(3) {
					continue // more follows at once
				}
				vsim.Sleep(time.Duration(1+e.Draw(10000)) * time.Second)
				e.Fault("stall")
				for complete < len(c.done) && c.done[complete] <= len(p.data) {
					complete++
				}
				e.Assert(len(got) >= complete, "withheld", "%s: %d bytes have arrived and %d items are complete, but only %d were delivered (%q)", c.kind, len(p.data), complete, len(got), clip(string(p.data[:min(len(p.data), 2000)])))
			}
			for complete < len(c.done) && c.done[complete] <= len(p.data) {
				complete++
			}
			p.end = io.EOF
			if stop < len(c.data) || e.OneIn(3) {
				p.end = errRead
				e.Fault("read error")
			}
			vsim.Wake(p)
			e.Join()
			e.State(c.kind, string(p.data), p.end, len(got))
			e.Assert(finished, "withheld", "the consumer did not end")
			e.Assert(len(got) >= complete, "withheld", "%s: %d items were complete, %d were delivered before %v (%q)", c.kind, complete, len(got), last, clip(string(p.data)))
			for i, g := range got {
				if i < len(c.done) {
					if d := c.same(i, g.v); d != "" && i < complete {
						e.Fail("live-mismatch", "%s: item %d is %s (%q)", c.kind, i, d, clip(string(p.data)))
					}
				}
			}
		},
	})
}
