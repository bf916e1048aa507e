package harness

import (
	"errors"
	"fmt"
	"io"
	"time"
	"unicode/utf8"

	"github.com/bantling/micro/iter"

	"verif.local/sim/vsim"
)

// Reader is a simulated source of bytes: it delivers its data in fragments, with pauses, empty reads and faults, as files, pipes and
// sockets do, and keeps a record of what the library asked of it. It honours the io.Reader contract and reuses nothing of
// what it handed out.
type Reader struct {
	e    *E
	data []byte
	end  error // what the reader returns once the data are delivered

	maxFrag   int  // bytes per read
	emptyRate int  // one in n reads is empty; 0 is never
	withEnd   bool // the end comes with the last data
	stallRate int
	stalls    int
	scribble  bool // uses the caller's whole buffer as scratch space

	pos       int
	lastStart int // position at which the last read began
	reads     int
	ended     bool // the end was returned
	after     int  // reads after the end was returned
	lax       bool // those are not a fault
	empties   int  // empty reads one after the other
	moreEmpty int  // and how many more than 3 there may be
	closes    int
	closeErr  error
	closeAt   bool // the end had been returned when Close was called
	closedErr error
}

func (r *Reader) Read(p []byte) (int, error) {
	vsim.Y(0)
	r.reads++
	r.lastStart = r.pos
	if r.ended {
		r.after++
		return 0, r.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.stallRate > 0 && r.e.OneIn(r.stallRate) {
		r.e.Fault("stall")
		unit := time.Second
		if r.stalls++; r.stalls > 100000 { // the simulated clock ends after 292 years
			unit = time.Millisecond
		}
		vsim.Sleep(time.Duration(1+r.e.Draw(5000)) * unit)
	}
	if r.scribble {
		for i := range p {
			p[i] = 0xA5
		}
	}
	if r.pos == len(r.data) {
		r.ended = true
		return 0, r.end
	}
	if r.emptyRate > 0 && r.empties < 3+r.moreEmpty && r.e.OneIn(r.emptyRate) {
		r.empties++
		r.e.Fault("empty read")
		return 0, nil
	}
	r.empties = 0
	n := 1
	if r.maxFrag > 1 {
		n = 1 + r.e.Draw(r.maxFrag)
	}
	n = min(n, len(p), len(r.data)-r.pos)
	if n < len(p) && r.pos+n < len(r.data) {
		r.e.Fault("short read")
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos == len(r.data) && r.withEnd {
		r.ended = true
		r.e.Fault("data with end")
		return n, r.end
	}
	return n, nil
}

// closing is a Reader that is an io.Closer too
type closing struct{ *Reader }

func (c closing) Close() error {
	c.closes++
	c.closeAt = c.ended
	return c.closeErr
}

// src is the reader as the library is given it: plain, or with the other ways to be read that readers often have
func (r *Reader) src() io.Reader {
	switch r.e.Draw(8) {
	case 0:
		r.e.Probe("byte scanner")
		return &scanner{Reader: r}
	case 1:
		r.e.Probe("file-like reader")
		return &struct {
			scanner
			closing
		}{scanner{Reader: r}, closing{r}}
	case 2:
		r.e.Probe("sized reader")
		return sized{r}
	}
	return r
}

// scanner is a Reader that can also be read by bytes or characters, or into a writer
type scanner struct {
	*Reader
	pending []byte
	last    int // bytes of the last character or byte read
	lastIs  []byte
}

func (s *scanner) Read(p []byte) (int, error) {
	s.last = 0
	if len(s.pending) > 0 && len(p) > 0 {
		n := copy(p, s.pending)
		s.pending = s.pending[n:]
		return n, nil
	}
	return s.Reader.Read(p)
}

func (s *scanner) ReadByte() (byte, error) {
	var buf [1]byte
	for {
		n, err := s.Read(buf[:])
		if n == 1 {
			s.lastIs = buf[:]
			s.last = 1
			return buf[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func (s *scanner) UnreadByte() error {
	if s.last == 0 {
		return errors.New("nothing to unread")
	}
	s.pending = append([]byte{s.lastIs[len(s.lastIs)-1]}, s.pending...)
	s.last = 0
	return nil
}

func (s *scanner) ReadRune() (rune, int, error) {
	var buf []byte
	for !utf8.FullRune(buf) {
		b, err := s.ReadByte()
		if err != nil {
			if len(buf) == 0 {
				return 0, 0, err
			}
			break
		}
		buf = append(buf, b)
	}
	r, n := utf8.DecodeRune(buf)
	s.pending = append(append([]byte{}, buf[n:]...), s.pending...)
	s.last, s.lastIs = n, buf[:n]
	return r, n, nil
}

func (s *scanner) UnreadRune() error {
	if s.last == 0 {
		return errors.New("nothing to unread")
	}
	s.pending = append(append([]byte{}, s.lastIs...), s.pending...)
	s.last = 0
	return nil
}

func (s *scanner) WriteTo(w io.Writer) (total int64, err error) {
	buf := make([]byte, 64)
	for {
		n, rerr := s.Read(buf)
		if n > 0 {
			m, err := w.Write(buf[:n])
			total += int64(m)
			if err == nil && m < n {
				err = io.ErrShortWrite
			}
			if err != nil {
				return total, err
			}
		}
		if rerr == io.EOF {
			return total, nil
		}
		if rerr != nil {
			return total, rerr
		}
	}
}

// sized is a Reader that tells how many bytes it has at hand, which are not all that will come
type sized struct{ *Reader }

func (s sized) Len() int {
	if s.maxFrag > 1 {
		return min(s.maxFrag, len(s.data)-s.pos)
	}
	return min(1, len(s.data)-s.pos)
}
func (s sized) Buffered() int { return s.Len() }

var errRead = errors.New("simulated read error")

type customErr struct{ n int }

func (c *customErr) Error() string { return fmt.Sprint("custom read error ", c.n) }

// drawErr draws the error of a failing source or operation. None of them is the end of iteration, although some may seem so.
func drawErr(e *E, text string) error {
	switch e.Draw(12) {
	case 0:
		return io.EOF
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return fmt.Errorf("%s: %w", text, iter.EOI)
	case 3:
		return fmt.Errorf("%s: %w", text, io.EOF)
	case 4:
		return errors.New(iter.EOI.Error())
	case 5:
		return &customErr{e.Draw(5)}
	}
	return errors.New(text)
}

// readErrors are ends other than io.EOF
func drawReadErr(e *E) error {
	switch e.Draw(6) {
	case 0, 1:
		return errRead
	case 2:
		return io.ErrUnexpectedEOF
	case 3:
		return fmt.Errorf("wrapped: %w", io.EOF)
	case 4:
		return &customErr{e.Draw(5)}
	}
	return io.ErrClosedPipe
}

// newReader draws a delivery of the data; in runs with faults the data may be cut by an error
func newReader(e *E, data []byte) *Reader {
	r := &Reader{e: e, data: data, end: io.EOF}
	r.maxFrag = []int{1 << 20, 1, 2, 3, 7, 40}[e.Draw(6)]
	r.emptyRate = []int{0, 0, 2, 5}[e.Draw(4)]
	r.withEnd = e.OneIn(3)
	r.stallRate = []int{0, 0, 0, 6}[e.Draw(4)]
	r.scribble = e.OneIn(5)
	return r
}

// patience lets the reader, rarely, make many empty reads one after the other. The readers of the standard library give up then.
func (r *Reader) patience() {
	if r.e.OneIn(150) && len(r.data) < 300 {
		r.emptyRate, r.moreEmpty = 1, 50+r.e.Draw(300)
		r.stallRate = 0
		if len(r.data) < 12 && r.e.OneIn(4) {
			r.moreEmpty = 1000 + r.e.Draw(2000)
		}
	}
}

// fault cuts the data by a read error at a random place; false if it was left alone
func (r *Reader) fault() bool {
	if !r.e.OneIn(3) {
		return false
	}
	r.cut(r.e.Draw(len(r.data)+1), drawReadErr(r.e))
	return true
}

func (r *Reader) cut(at int, err error) {
	r.data = r.data[:at:at]
	r.end = err
	if err != io.EOF {
		r.e.Fault("read error")
	} else {
		r.e.Fault("truncation")
	}
}

func (r *Reader) String() string {
	return fmt.Sprintf("{%d bytes, end %v, fragments <=%d, empty 1/%d, data with end %v}", len(r.data), r.end, r.maxFrag, r.emptyRate, r.withEnd)
}

// endAs is the error an iterator reports for the reader's end
func endAs(err error) error {
	if err == io.EOF {
		return iter.EOI
	}
	return err
}

// ---- bytes and texts

// drawBulk draws a size around those that buffers have
func drawBulk(e *E) int {
	e.Probe("bulk")
	if e.OneIn(60) {
		return 1<<20 - 2 + e.Draw(5)
	}
	return []int{256, 512, 1024, 4096, 8192, 32768, 65536}[e.Draw(7)] - 2 + e.Draw(5)
}

func drawBytes(e *E) []byte {
	if e.OneIn(300) {
		out := make([]byte, drawBulk(e))
		a := e.Draw(256)
		for i := range out {
			out[i] = byte(i*7 + i>>8 + a)
		}
		return out
	}
	n := e.Draw([]int{4, 12, 40, 300}[e.Draw(4)])
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(e.Draw(256))
	}
	return out
}

var runePool = []rune{'a', 'b', 'z', '0', ' ', '\n', '\r', '\t', 0, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x10ffff, '"', '\\', ',',
	0x85, 0x2028, 0x2029, '\v', '\f', 0x1a, 0x1e, 0x1b, 0xa0, 0x200b, 0xfffe, 0xfdd0, 0x301}

func drawRune(e *E) rune {
	if e.OneIn(4) {
		for {
			r := rune(e.Draw([]int{0x80, 0x800, 0x10000, 0x110000}[e.Draw(4)]))
			if utf8.ValidRune(r) {
				return r
			}
		}
	}
	return runePool[e.Draw(len(runePool))]
}

func drawText(e *E, max int) []byte {
	var out []byte
	if max >= 10 && e.OneIn(400) {
		n, a := drawBulk(e), e.Draw(len(runePool))
		for i := 0; len(out) < n; i++ {
			if r := runePool[(i*(1+a)+i>>5)%len(runePool)]; r != '\n' && r != '\r' {
				out = utf8.AppendRune(out, r)
			}
		}
		return out
	}
	for n := e.Draw(max); n > 0; n-- {
		out = utf8.AppendRune(out, drawRune(e))
	}
	return out
}

// malformed encodings
var badUTF8 = []string{"\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80",
	"\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xff", "\xfe", "\xc2A", "\xe2\x82A", "\xe2A\x82", "\xf0\x9f\x98A",
	"\xf0\x9fA\x80", "\xf0A\x98\x80", "\xc2\xc2", "\xe2\x82\xe2", "\xf7\xbf\xbf\xbf", "\xed\xa0\x80\xed\xb0\x80"}

// ---- reference models

// modelRunes are the characters of the delivered bytes, and the errors that may end them
func modelRunes(data []byte, end error) (out []rune, ends []error) {
	for len(data) > 0 {
		r, n := utf8.DecodeRune(data)
		if r != utf8.RuneError || n != 1 {
			out = append(out, r)
			data = data[n:]
			continue
		}
		need := 1
		switch b := data[0]; {
		case b&0xe0 == 0xc0:
			need = 2
		case b&0xf0 == 0xe0:
			need = 3
		case b&0xf8 == 0xf0:
			need = 4
		}
		if len(data) >= need || end == io.EOF {
			return out, []error{iter.InvalidUTF8EncodingError}
		}
		// the reader failed within a character: its error is reported, unless the bytes that did arrive are wrong already
		if utf8.FullRune(data) {
			return out, []error{iter.InvalidUTF8EncodingError, end}
		}
		return out, []error{end}
	}
	return out, []error{endAs(end)}
}

func oneOf(err error, ends []error) bool {
	for _, e := range ends {
		if e == err {
			return true
		}
	}
	return false
}

// modelLines are the complete lines of the characters, and the unfinished one
func modelLines(rs []rune) (out []string, rest string) {
	var cur []rune
	for i := 0; i < len(rs); i++ {
		switch rs[i] {
		case '\r':
			if i+1 < len(rs) && rs[i+1] == '\n' {
				i++
			}
			fallthrough
		case '\n':
			out = append(out, string(cur))
			cur = nil
		default:
			cur = append(cur, rs[i])
		}
	}
	return out, string(cur)
}

// nexter is either an iterating function or an Iter
type nexter[T any] struct {
	next   func() (T, error)
	unread func(T)
}

func ofFn[T any](f func() (T, error)) nexter[T] { return nexter[T]{next: f} }
func ofIter[T any](it iter.Iter[T]) nexter[T]   { return nexter[T]{it.Next, it.Unread} }
func zeroOf[T any]() (zv T)                     { return }
func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}
