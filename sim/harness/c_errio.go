package harness

import (
	"bytes"
	"errors"
	"fmt"
	goio "io"
	"math"

	"github.com/bantling/micro/io"
)

// C24: the failing reader and writer themselves

func init() {
	register(&Check{
		ID: "C24", Several: true, Quick: 1200000, Thorough: 30000000,
		Rule: "a run = a failing reader or writer with random content, limit and error, and a random sequence of call sizes; non-trivial = the content or limit was exhausted; distinct = by content, limit and sizes",
		Real: []string{"io.ErrorReader", "io.ErrorWriter"},
		Stub: []string{"callers (generated buffer sizes)"},
		Run: func(e *E) {
			errEnd := []error{errors.New("documented error"), goio.EOF, goio.ErrUnexpectedEOF, (*tryErr)(nil), nil}[e.Draw(5)]
			large := e.OneIn(2000)
			size := func(n int) int {
				switch e.Draw(6) {
				case 0:
					return 0
				case 1:
					return n
				case 2:
					return n + 1
				case 3:
					return n + e.Draw(2000)
				}
				if large {
					return e.Draw(1 + n/2)
				}
				return e.Draw(8)
			}
			if e.Bool() {
				var content []byte
				if !e.OneIn(8) {
					content = make([]byte, e.Draw([]int{4, 20, 600}[e.Draw(3)]))
					if large {
						content = make([]byte, 3000+e.Draw(140000))
					}
					for i := range content {
						content[i] = byte(e.Draw(256))
					}
				}
				want := append([]byte{}, content...)
				in := append(append([]byte{0xA5}, content...), 0x5A, 0x5A, 0x5A)[1 : 1+len(content)] // bytes follow that are not content
				if content == nil && e.Bool() {
					in = nil
				}
				e.State(string(want), errEnd == nil)
				r := io.NewErrorReader(in, errEnd)
				pos, after := 0, 0
				for calls := 0; calls < 40 && after < 4; calls++ {
					n := size(len(want) - pos)
					back := bytes.Repeat([]byte{0xEE}, n+16)
					p := back[8 : 8+n]
					if e.OneIn(10) && n == 0 {
						p = nil
					}
					got, err := r.Read(p)
					e.Trace("read of %d: %d, %v", n, got, err)
					e.State(n)
					k := min(n, len(want)-pos)
					if pos == len(want) {
						e.NonTrivial()
						after++
						e.Assert(got == 0 && err == errEnd, "errreader-end", "after the content: %d, %v instead of 0, %v", got, err, errEnd)
						k = 0
					} else {
						e.Assert(got == k && err == nil, "errreader-read", "at %d of %d, read of %d: %d, %v", pos, len(want), n, got, err)
					}
					e.Assert(bytes.Equal(back[8:8+k], want[pos:pos+k]), "errreader-content", "at %d: %x instead of %x", pos, back[8:8+k], want[pos:pos+k])
					for i, b := range back {
						e.Assert(b == 0xEE || i >= 8 && i < 8+k, "errreader-outside", "read of %d at %d: byte %d of the buffer was written", n, pos, i-8)
					}
					pos += k
				}
				e.Assert(bytes.Equal(in, want), "errreader-input", "the content was changed")
				return
			}
			limit := 0
			switch e.Draw(5) {
			case 0, 1:
				limit = e.Draw(10)
			case 2, 3:
				limit = e.Draw(300)
			case 4:
				limit = []int{1 << 40, math.MaxInt, math.MaxInt32}[e.Draw(3)]
			}
			most := 600
			if large {
				limit, most = 3000+e.Draw(140000), 1<<20
			}
			w := io.NewErrorWriter(limit, errEnd)
			var want []byte
			next := byte(0)
			e.Assert(len(w.Output()) == 0, "errwriter-output", "output before any write")
			full := 0
			e.State(limit, errEnd == nil)
			for calls := 0; calls < 30 && full < 4; calls++ {
				n := size(min(limit-len(want), most))
				back := bytes.Repeat([]byte{0xEE}, n+16)
				p := back[8 : 8+n]
				for i := range p {
					p[i] = next
					next += 7
				}
				if e.OneIn(10) && n == 0 {
					p = nil
				}
				was := append([]byte{}, back...)
				got, err := w.Write(p)
				e.Trace("write of %d: %d, %v", n, got, err)
				e.State(n)
				k := min(n, limit-len(want))
				if len(want) == limit {
					full++
					e.NonTrivial()
					e.Assert(got == 0 && err == errEnd, "errwriter-end", "after the limit: %d, %v instead of 0, %v", got, err, errEnd)
				} else {
					e.Assert(got == k && err == nil, "errwriter-write", "at %d of %d, write of %d: %d, %v", len(want), limit, n, got, err)
				}
				want = append(want, p[:k]...)
				e.Assert(bytes.Equal(back, was), "errwriter-outside", "the buffer of the caller was changed")
				for i := range back {
					back[i] = 0xDD // the buffer belongs to the caller again
				}
				if e.Bool() || full > 0 {
					e.Assert(bytes.Equal(w.Output(), want), "errwriter-output", "recorded %x instead of %x", clip(string(w.Output())), clip(string(want)))
				}
			}
			e.Assert(bytes.Equal(w.Output(), want), "errwriter-output", "recorded %x instead of %x", clip(string(w.Output())), clip(string(want)))
		},
	})
}

var _ = fmt.Sprint
