package harness

import (
	"bytes"
	"compress/gzip"
	"encoding/csv"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"time"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/rest"
)

// C25: request bodies from simulated connections

// body is a request body: what the client meant and what it sent
type body struct {
	content []byte
	sent    []byte
	clean   map[int]int // gzip: lengths of sent that are complete bodies, with the length of their content
}

func gzipBody(e *E, content []byte) *body {
	b := &body{content: content, clean: map[int]int{}}
	var buf bytes.Buffer
	members := 1
	if e.OneIn(4) {
		members = e.Range(2, 3)
	}
	at := 0
	for i := 0; i < members; i++ {
		n := len(content) - at
		if i < members-1 {
			n = e.Draw(n + 1)
		}
		level := []int{gzip.DefaultCompression, gzip.NoCompression, gzip.BestSpeed, gzip.BestCompression, gzip.HuffmanOnly}[e.Draw(5)]
		z, _ := gzip.NewWriterLevel(&buf, level)
		if e.OneIn(3) {
			z.Name, z.Comment, z.Extra = "body.txt", "a comment", []byte{1, 2, 3}
			z.ModTime = time.Unix(1700000000, 0)
		}
		k := 0
		for k < n { // the client writes and flushes as it likes
			m := 1 + e.Draw(n-k)
			z.Write(content[at+k : at+k+m])
			k += m
			if e.OneIn(4) {
				z.Flush()
			}
			if e.OneIn(3) {
				z.Write(content[at+k : at+n])
				k = n
			}
		}
		z.Close()
		at += n
		b.clean[buf.Len()] = at
	}
	b.sent = buf.Bytes()
	return b
}

func runC25(e *E) {
	switch e.Draw(12) {
	case 0: // several requests at once
		var reqs []func()
		for n := e.Range(2, 4); n > 0; n-- {
			reqs = append(reqs, drawRequest(e))
		}
		for i, fn := range reqs {
			e.Go(fmt.Sprint("request", i), fn)
		}
		e.Join()
	case 1: // one after the other
		for n := e.Range(2, 4); n > 0; n-- {
			drawRequest(e)()
		}
	default:
		drawRequest(e)()
	}
}

// drawRequest draws a request; the function has it decoded
func drawRequest(e *E) func() {
	req := &http.Request{Method: "POST", URL: &url.URL{Path: "/"}, Header: http.Header{}}
	others := []string{"", "identity", "br", "deflate", "text/plain", "text/html", "application/xml", "multipart/form-data", "x-gzip-not",
		"application/json-seq", "text/csv-schema", "gzip;q=0", "text/gzip", "application/gzip", "deflate, br", "csv", "json", "application", "text/", "gzi"}
	kind := e.Draw(3)               // 0 bytes, 1 CSV, 2 JSON
	zipped := kind == 0 || e.Bool() // whether the body is gzip
	declared := !e.OneIn(5)

	var doc *jsonDoc
	var content []byte
	switch kind {
	case 0:
		content = drawBytes(e)
		if e.OneIn(4) {
			content = bytes.Repeat(content, 1+e.Draw(1+min(400, 300_000/(len(content)+1))))
		}
	case 1:
		s, _ := drawCSV(e)
		content = []byte(s)
		if e.OneIn(3000) { // many records
			content = bytes.Repeat(content, 1+min(1<<21, drawBulk(e)*(1+e.Draw(40)))/(len(content)+20))
		}
	default:
		doc = drawJSON(e, !e.OneIn(3))
		content = []byte(doc.text)
	}
	b := &body{content: content, sent: content}
	if zipped {
		b = gzipBody(e, content)
	}
	rd := newReader(e, b.sent)
	rd.lax = true
	// damage
	damage := "none"
	limit := len(content) // the content of what was sent
	if e.Faults = e.Draw(3) > 0; e.Faults {
		switch k := e.Draw(4); {
		case k == 0 && len(b.sent) > 0:
			damage = "cut"
			at := e.Draw(len(b.sent))
			rd.cut(at, io.EOF)
			e.Fault("truncated body")
			if n, ok := b.clean[at]; ok {
				damage, limit = "none", n
			}
		case k == 1:
			damage = "failed"
			rd.cut(e.Draw(len(b.sent)+1), drawReadErr(e))
			e.Fault("connection failure")
		case k == 2 && zipped:
			damage = "flipped"
			i := e.Draw(len(b.sent))
			data := append([]byte{}, b.sent...)
			data[i] ^= 1 << e.Draw(8)
			rd.data = data
			e.Fault("corrupted body")
		case k == 3 && zipped:
			damage = "garbage"
			rd.data = append(append([]byte{}, b.sent...), []byte("trailing garbage")[:1+e.Draw(15)]...)
			e.Fault("corrupted body")
		}
	}
	req.Body = closing{rd}
	if e.OneIn(4) {
		req.Body = &struct {
			scanner
			closing
		}{scanner{Reader: rd}, closing{rd}}
	}
	// the transport tells the length of what is sent, if it is known
	req.Method, req.ContentLength = []string{"POST", "PUT", "PATCH", "DELETE", "GET"}[e.Draw(5)], int64(len(rd.data))
	req.ProtoMajor, req.ProtoMinor, req.Proto = 1, 1, "HTTP/1.1"
	switch e.Draw(4) {
	case 0:
		req.ContentLength, req.TransferEncoding = -1, []string{"chunked"}
	case 1:
		req.ContentLength, req.ProtoMajor, req.ProtoMinor, req.Proto = -1, 2, 0, "HTTP/2.0"
	default:
		if damage == "cut" || damage == "failed" { // more was announced than came
			req.ContentLength = int64(len(b.sent))
		}
	}
	if req.ContentLength >= 0 && e.Bool() {
		req.Header.Set("Content-Length", fmt.Sprint(req.ContentLength))
	}
	e.Trace("kind %d zipped %v declared %v damage %s: %d bytes of content, %d sent %s", kind, zipped, declared, damage, len(content), len(rd.data), rd)
	e.State(kind, zipped, declared, damage, string(rd.data), rd)
	det := fmt.Sprintf("kind %d, gzip %v, %s, content %q, %d bytes sent, end %v %s", kind, zipped, damage, clip(string(content)), len(rd.data), rd.end, rd)
	if damage != "none" || !declared {
		e.NonTrivial()
	}

	most := len(content) + 100
	if damage == "flipped" {
		most = 10_000_000 // corrupted bytes may decode to many
	}
	return func() {
		if !declared {
			// nothing says what the body is
			if v := mostly(e, others, 4); v != "" {
				req.Header.Set("Accept-Encoding", v)
			}
			if v := others[e.Draw(len(others))]; v != "" {
				req.Header.Set("content-type", v)
			}
			if e.Bool() {
				req.Header.Set("X-Content-Type", "application/json")
				req.Header.Set("Content-Encoding-Hint", "gzip")
			}
			for n := e.Draw(3); n > 0; n-- { // headers that say something else
				req.Header.Set([]string{"Content-Encoding", "Accept", "Transfer-Encoding", "Te", "Accept-Charset", "X-Accept-Encoding"}[e.Draw(6)], []string{"gzip", "text/csv", "application/json"}[e.Draw(3)])
			}
			it1, it2 := rest.NegotiateCSVContent(req), rest.NegotiateJSONContent(req)
			e.Assert(it1 == nil && it2 == nil, "body-undeclared", "an undeclared body is decoded (headers %v)", req.Header)
			r := rest.AcceptGzip(req)
			e.Assert(rd.reads == 0 && rd.closes == 0, "body-read", "an undeclared body was read %d times (headers %v)", rd.reads, req.Header)
			got, err := readAll(e, r, len(rd.data)+1)
			e.Assert(bytes.Equal(got, rd.data), "body-changed", "an undeclared body was changed: %q (%s)", clip(string(got)), det)
			e.Assert(err == rd.end, "body-end", "an undeclared body ended with %v (%s)", err, det)
			return
		}

		if zipped {
			req.Header.Set([]string{"Accept-Encoding", "accept-encoding", "ACCEPT-ENCODING"}[e.Draw(3)], "gzip")
		} else if v := others[e.Draw(4)]; v != "" {
			req.Header.Set("Accept-Encoding", v)
		}
		switch kind {
		case 0:
			if v := others[e.Draw(len(others))]; v != "" {
				req.Header.Set("Content-Type", v)
			}
		case 1:
			req.Header.Set([]string{"Content-Type", "content-type"}[e.Draw(2)], "text/csv")
		case 2:
			req.Header.Set([]string{"Content-Type", "content-type"}[e.Draw(2)], "application/json")
		}

		right := func(err error, where string) {
			e.Assert(err != nil && err != io.EOF && err != iter.EOI, "body-clean-end", "%s: a damaged body ends with %v (%s)", where, err, det)
			if damage == "failed" {
				e.Assert(err == rd.end, "body-error", "%s: %v is reported instead of the connection's error (%s)", where, err, det)
			}
		}
		if zipped {
			var r io.Reader
			val, panicked := Catch(func() { r = rest.AcceptGzip(req) })
			if panicked {
				err, isErr := val.(error)
				e.Assert(isErr, "body-error", "AcceptGzip panics with %v (%s)", val, det)
				e.Assert(damage != "none", "body-rejected", "AcceptGzip panics with %v (%s)", err, det)
				e.Probe("refused at once")
				if damage == "failed" {
					e.Assert(err == rd.end, "body-error", "AcceptGzip: %v is reported instead of the connection's error (%s)", err, det)
				}
				return
			}
			if kind == 0 {
				got, err := readAll(e, r, most)
				switch damage {
				case "none":
					e.Assert(bytes.Equal(got, content[:limit]), "body-content", "decoded to %q (%d bytes instead of %d; %s)", clip(string(got)), len(got), limit, det)
					e.Assert(err == io.EOF, "body-end", "ended with %v (%s)", err, det)
				case "flipped":
					e.Assert(err != io.EOF || bytes.Equal(got, content), "body-clean-end", "a corrupted body ends cleanly as %q (%s)", clip(string(got)), det)
				default:
					e.Assert(bytes.HasPrefix(content, got), "body-content", "decoded to %q, no prefix of the content (%s)", clip(string(got)), det)
					right(err, "gzip")
				}
				return
			}
			req.Body = io.NopCloser(r)
		}

		if kind == 1 {
			var want [][]string
			ref := csv.NewReader(bytes.NewReader(content[:limit]))
			if damage == "failed" && !zipped {
				ref = csv.NewReader(io.MultiReader(bytes.NewReader(rd.data), &endReader{rd.end}))
			}
			if damage == "cut" && !zipped {
				ref = csv.NewReader(bytes.NewReader(rd.data)) // nothing tells that there was more
			}
			var wantEnd error
			for {
				rec, err := ref.Read()
				if err != nil {
					wantEnd = endAs(err)
					break
				}
				want = append(want, rec)
			}
			it := rest.NegotiateCSVContent(req)
			e.Assert(rest.NegotiateJSONContent(req) == nil, "body-undeclared", "a CSV body is taken for JSON")
			e.Assert(it != nil, "body-ignored", "a declared CSV body is not decoded (%v)", req.Header)
			got, end := drain(e, "records", ofIter(it), nil, most, copyRecord)
			if damage == "flipped" {
				e.Assert(end != iter.EOI || fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want), "body-clean-end", "a corrupted body ends cleanly (%s)", det)
				return
			}
			if zipped && damage != "none" {
				e.Assert(len(got) <= len(want), "body-content", "%d records instead of at most %d (%s)", len(got), len(want), det)
				expectItems(e, "body-content", "records", got, want[:len(got)], det)
				// encoding/csv reports a field cut in its quotes as such, whatever cut it
				e.Assert(end != nil && end != iter.EOI, "body-clean-end", "a damaged body ends with %v (%s)", end, det)
				return
			}
			expectItems(e, "body-content", "records", got, want, det)
			if wantEnd == iter.EOI || wantEnd == rd.end {
				e.Assert(end == wantEnd, "body-end", "ended with %v instead of %v (%s)", end, wantEnd, det)
			} else {
				e.Assert(end != nil && end.Error() == wantEnd.Error(), "body-end", "ended with %v instead of %v (%s)", end, wantEnd, det)
			}
			return
		}

		it := rest.NegotiateJSONContent(req)
		e.Assert(rest.NegotiateCSVContent(req) == nil, "body-undeclared", "a JSON body is taken for CSV")
		e.Assert(it != nil, "body-ignored", "a declared JSON body is not decoded (%v)", req.Header)
		got, end := drain(e, "elements", ofIter(it), nil, most, same)
		if damage == "flipped" {
			// the corrupted text may be a shorter document, which ends before the checksum
			e.Assert(end != nil, "body-end", "no end (%s)", det)
			return
		}
		checkElements(e, got, doc.elements(), det)
		whole := damage == "none" && limit == len(content) || !zipped && len(rd.data) >= doc.end && rd.end == io.EOF
		cutInside := !zipped && len(rd.data) < doc.end || zipped && damage != "none" && damage != "garbage" || limit < doc.end
		switch {
		case whole:
			e.Assert(end == iter.EOI && len(got) == len(doc.elements()), "body-end", "%d of %d elements, then %v (%s)", len(got), len(doc.elements()), end, det)
		case cutInside && !zipped:
			right(end, "JSON")
		case cutInside && damage == "none":
			e.Assert(end != nil && end != io.EOF && end != iter.EOI, "body-clean-end", "a cut body ends with %v (%s)", end, det)
		case cutInside && len(got) < len(doc.elements()):
			right(end, "JSON")
		default:
			// everything had arrived before the damage
			e.Assert(end != nil, "body-end", "no end (%s)", det)
		}
	}
}

func readAll(e *E, r io.Reader, limit int) (out []byte, err error) {
	buf := make([]byte, 1+e.Draw([]int{1, 10, 1000}[e.Draw(3)]))
	for zero := 0; len(out) <= limit && zero < 100; {
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil {
			return out, err
		}
		if n == 0 {
			zero++
		} else {
			zero = 0
		}
	}
	return out, nil
}

func init() {
	register(&Check{
		ID: "C25", Quick: 200000, Thorough: 3000000, Budget: 80000000,
		Rule:   "a run = one request, or a few one after the other or at once in threads, with random headers and a random body (bytes, CSV or JSON; plain or gzip of 1-3 members at any level), sent over a simulated connection that fragments, stalls, cuts, fails or corrupts it; non-trivial = damaged or undeclared; distinct = by headers, bytes and delivery",
		Real:   []string{"rest.AcceptGzip", "rest.NegotiateCSVContent", "rest.NegotiateJSONContent", "compress/gzip", "iter.OfCSV", "parse.Iterate", "funcs.MustValue"},
		Stub:   []string{"HTTP server (requests are built directly)", "connection (fragmenting, stalling, failing)", "clock"},
		Assume: []string{"header values other than exactly gzip, text/csv and application/json that could be read as declaring the same are not generated", "gzip delivers bytes before it can check them, so of a corrupted (not truncated) body only the end is judged, and only when it is read to its end: a JSON document may end before the checksum"},
		Run:    runC25,
	})
}
