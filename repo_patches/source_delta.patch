From 16911a073463497c4c798093b12e0d83032a0016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 01/26] fix: stream.Parallel combines the results each thread
 really produced

Transforms that drop or multiply items left stale or zero items in the result, or panicked in a thread
because the output slice was sized for one result per item; two different interface types panicked too.
---
 stream/stream.go | 49 ++++++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index 149dc06..3ce8edf 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1178,8 +1178,8 @@ func generateRanges(numItems uint, info []PInfo) [][]uint {
 // If the input has one item, the transforms are performed in the same thread.
 // If the input has two or more items, the above algorithm is used to perform transforms in two or more threads.
 //
-// If types T and U are the same, then a single slice is allocated to contain the input and modified in place to produce
-// the output. Otherwise, two slices are allocated, one for input and one for output.
+// The transforms may produce fewer or more items than the source provides (eg, by filtering or expanding). The results
+// of each thread are combined in the order of the source items.
 func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInfo) func(iter.Iter[T]) iter.Iter[U] {
 	return func(source iter.Iter[T]) iter.Iter[U] {
 		// Get values into a slice
@@ -1205,42 +1205,27 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 		// At least two items, as required by generateRanges. Get slice ranges.
 		sliceRanges := generateRanges(numItems, info)
 
-		// Determine a slice to use for the output
-		var (
-			zt     T
-			zu     U
-			output []U
-		)
-		if reflect.TypeOf(zt) == reflect.TypeOf(zu) {
-			// T and U are the same type, modify input slice in place
-			output = any(input).([]U)
-		} else {
-			// Create a separate output slice
-			output = make([]U, numItems)
-		}
-
 		// Create a WaitGroup that can wait for all threads to complete
 		var (
-			wg   sync.WaitGroup
-			errs = make([]error, len(sliceRanges))
+			wg      sync.WaitGroup
+			results = make([][]U, len(sliceRanges))
+			errs    = make([]error, len(sliceRanges))
 		)
 
-		// The function to execute in each thread, accepting source and target subslices
-		threadFn := func(threadNum int, in []T, out []U) {
+		// The function to execute in each thread, accepting source subslice
+		// The transforms may produce fewer or more items than they are given, so each thread collects its own results
+		threadFn := func(threadNum int, in []T) {
 			// Decrement number of threads remaining once transforms are complete
 			defer wg.Done()
 
-			// Perform transforms and copy to output
-			_, threadErr := ReduceIntoSlice(out)(transforms(iter.OfSlice(in))).Next()
-
-			// In case an error occurs, populate the appropriate errs slot
-			errs[threadNum] = threadErr
+			// Perform transforms, and populate the appropriate results and errs slots
+			results[threadNum], errs[threadNum] = ReduceToSlice(transforms(iter.OfSlice(in))).Next()
 		}
 
 		// Create the threads, passing a subslice of input to each thread for processing
 		for threadNum, sliceRange := range sliceRanges {
 			wg.Add(1)
-			go threadFn(threadNum, input[sliceRange[0]:sliceRange[1]], output[sliceRange[0]:sliceRange[1]])
+			go threadFn(threadNum, input[sliceRange[0]:sliceRange[1]])
 		}
 
 		// Wait for threads to complete
@@ -1255,6 +1240,16 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 			}
 		}
 
-		return funcs.Ternary(err == nil, iter.OfSlice(output), iter.SetError(iter.OfEmpty[U](), err))
+		if err != nil {
+			return iter.SetError(iter.OfEmpty[U](), err)
+		}
+
+		// Combine the results of all threads in the order of the source items
+		output := make([]U, 0, numItems)
+		for _, result := range results {
+			output = append(output, result...)
+		}
+
+		return iter.OfSlice(output)
 	}
 }
-- 
2.43.0


From 650a21a413067cb1c1abc4fa4064e3cd6eee88aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 02/26] fix: byte iteration of readers that return empty reads
 or a byte with an error

A read of no bytes and no error repeated the previous byte, a byte returned along with an error was lost,
and calls of the iterating function after a failure returned EOI instead of the same error.
---
 iter/gen.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index cfa4862..631b794 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -173,6 +173,28 @@ func FibonnaciIterGen() func() (int, error) {
 	)
 }
 
+// readBytes generates a function that reads an io.Reader one byte at a time.
+// A reader may legally return no byte and no error, in which case it is read again; or a byte with an error, in which
+// case the byte is returned first, and the error on the next call.
+// After returning a non-nil error, all further calls return (0, same error), and the reader is not read again.
+func readBytes(src goio.Reader) func() (byte, error) {
+	var (
+		buf = make([]byte, 1)
+		n   int
+		err error
+	)
+
+	return func() (byte, error) {
+		for err == nil {
+			if n, err = src.Read(buf); n > 0 {
+				return buf[0], nil
+			}
+		}
+
+		return 0, err
+	}
+}
+
 // ReaderIterGen generates an iterating function that iterates all the bytes of an io.Reader.
 // If the reader returns an EOF, it is translated to an EOI, any other error is returned as is.
 // If the iter is called again after returning a non-nil error, it returns (0, same error).
@@ -181,7 +203,8 @@ func ReaderIterGen(src goio.Reader) func() (byte, error) {
 	var (
 		done = src == nil
 		err  = EOI
-		buf  = make([]byte, 1)
+		read = readBytes(src)
+		b    byte
 	)
 
 	return func() (byte, error) {
@@ -189,19 +212,19 @@ func ReaderIterGen(src goio.Reader) func() (byte, error) {
 			return 0, err
 		}
 
-		if _, err := src.Read(buf); err != nil {
+		if b, err = read(); err != nil {
 			done = true
 			if err = funcs.Ternary(err == goio.EOF, EOI, err); err == EOI {
 				if closer, isa := src.(goio.Closer); isa {
 					if cerr := closer.Close(); cerr != nil {
-						return 0, cerr
+						err = cerr
 					}
 				}
 			}
 			return 0, err
 		}
 
-		return buf[0], nil
+		return b, nil
 	}
 }
 
-- 
2.43.0


From aeded1e45ba72c94d3f59ec23c9d4c97980adea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 03/26] fix: rune iteration of fragmented, overlong and
 surrogate encodings

---
 iter/gen.go | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index 631b794..a197a03 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -255,12 +255,13 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 	// See https://en.wikipedia.org/wiki/UTF-8 for further details
 
 	var (
-		done  = src == nil
-		err   = EOI
-		n, eb int
-		buf   = make([]byte, 3)
-		b     byte
-		r     rune
+		done = src == nil
+		err  = EOI
+		read = readBytes(src)
+		eb   int
+		buf  = make([]byte, 3)
+		b    byte
+		r    rune
 	)
 
 	return func() (rune, error) {
@@ -270,12 +271,11 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 
 		// Read up to next 4 bytes from reader, depending on bit pattern of first byte
 		eb = 0
-		if n, err = src.Read(buf[0:1]); (n == 0) || (err != nil) {
+		if b, err = read(); err != nil {
 			done = true
 
-			// Should be a non-nil error if 0 bytes were returned, but don't assume
 			// Translate EOF to EOI
-			if ((n == 0) && (err == nil)) || (err == goio.EOF) {
+			if err == goio.EOF {
 				err = EOI
 			}
 
@@ -283,7 +283,6 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		}
 
 		// First byte indicates how many more bytes are needed, if any
-		b = buf[0]
 		switch {
 		case (b & 0b1_0000000) == 0b0_0000000:
 			// One byte
@@ -307,13 +306,16 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		}
 
 		// Multiple bytes
-		if n, err = src.Read(buf[0:eb]); (n != eb) || (err != nil) {
-			// Not enough extra bytes exist or some other error
-			if (err == nil) || (err == goio.EOF) {
-				err = InvalidUTF8EncodingError
-			}
+		for i := 0; i < eb; i++ {
+			if buf[i], err = read(); err != nil {
+				// Not enough extra bytes exist or some other error
+				done = true
+				if err == goio.EOF {
+					err = InvalidUTF8EncodingError
+				}
 
-			return 0, err
+				return 0, err
+			}
 		}
 
 		// We have read all required extra bytes
@@ -321,6 +323,7 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		for i := 0; i < eb; i++ {
 			if buf[i]&0b11_000000 != 0b10_000000 {
 				// Invalid extra byte
+				done = true
 				err = InvalidUTF8EncodingError
 				return 0, err
 			}
@@ -342,12 +345,13 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 				(rune(buf[0]&0b00_111111) << (6 + 6)) |
 				(rune(buf[1]&0b00_111111) << 6) |
 				(rune(buf[2] & 0b00_111111))
+		}
 
-			// Cannot exceed maximum value
-			if r > utf8.MaxRune {
-				err = InvalidUTF8EncodingError
-				return 0, err
-			}
+		// Cannot exceed maximum value, be a surrogate, or use more bytes than needed
+		if utf8.RuneLen(r) != eb+1 {
+			done = true
+			err = InvalidUTF8EncodingError
+			return 0, err
 		}
 
 		// Valid multiple bytes
-- 
2.43.0


From af5f9a4cb86be10379e4bc98dfbdacb220984737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 04/26] fix: a LF is only part of a CR line end if it
 immediately follows it

---
 iter/gen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iter/gen.go b/iter/gen.go
index a197a03..b8b22cd 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -415,6 +415,8 @@ func readLines(it func() (rune, error)) func() (string, error) {
 				return str.String(), nil
 			}
 
+			// A LF that follows this character is not part of an earlier CR
+			lastCR = false
 			str.WriteRune(codePoint)
 		}
 	}
-- 
2.43.0


From fecafba602b887bf7501d2cbde01e1b347c94406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 05/26] fix: CSV iteration ends for good at the first error,
 which has no record

---
 iter/gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iter/gen.go b/iter/gen.go
index b8b22cd..0a42848 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -457,7 +457,7 @@ func CSVIterGen(src goio.Reader) func() ([]string, error) {
 		}
 
 		line, err = csvRdr.Read()
-		if err = funcs.Ternary(err == goio.EOF, EOI, err); err == EOI {
+		if err = funcs.Ternary(err == goio.EOF, EOI, err); err != nil {
 			done = true
 			line = nil
 		}
-- 
2.43.0


From a4814c636a9167d619ec52cc218d64094f831fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 06/26] fix: ErrorReader only copies the bytes that remain

---
 io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/io.go b/io/io.go
index 029948b..04f35f2 100755
--- a/io/io.go
+++ b/io/io.go
@@ -40,7 +40,7 @@ func (r *ErrorReader) Read(p []byte) (int, error) {
 	}
 
 	// Return the number of bytes asked for, or what we have remaining, whichever is less
-	numBytes := math.MinOrdered(len(r.input), len(p))
+	numBytes := math.MinOrdered(len(r.input)-r.pos, len(p))
 
 	copy(p[:numBytes], r.input[r.pos:r.pos+numBytes])
 	r.pos += numBytes
-- 
2.43.0


From dcea1aa060addbde8773739b95bcbd744189279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 07/26] fix: routes can be registered while requests are being
 served

---
 rest/rest.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/rest/rest.go b/rest/rest.go
index 060d1c2..e4ec815 100755
--- a/rest/rest.go
+++ b/rest/rest.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net/http"
 	"regexp"
+	"sync"
 
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/tuple"
@@ -43,6 +44,9 @@ func (hf HandlerFunc) Serve(w http.ResponseWriter, r *http.Request, urlParts []s
 // the URL alone like the http.ServeMux implementation.
 // The zero value is ready to use.
 type ServeMux struct {
+	// Protects handlers, which can be added to while requests are being served
+	mutex sync.RWMutex
+
 	// [](method, regexp, handler)
 	// A flat structure is used to disambiguate a 404 not found error from a 405 method not allowed error
 	handlers []tuple.Three[string, *regexp.Regexp, Handler]
@@ -74,6 +78,8 @@ func (sm *ServeMux) Handle(method, pattern string, handler Handler) error {
 	}
 
 	// Add method, pattern, and handler triple
+	sm.mutex.Lock()
+	defer sm.mutex.Unlock()
 	funcs.SliceAdd(&sm.handlers, tuple.Of3(method, regex, handler))
 
 	return nil
@@ -85,14 +91,20 @@ func (sm *ServeMux) MustHandle(method, pattern string, handler Handler) {
 }
 
 // ServeHTTP is http.Handler interface method
-func (sm ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
+func (sm *ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
+	// Get the handlers registered so far. Handlers are only ever appended, so it is safe to iterate this slice without
+	// holding the mutex, which must not be held while calling a handler.
+	sm.mutex.RLock()
+	handlers := sm.handlers
+	sm.mutex.RUnlock()
+
 	// Get the method and url
 	method, url := r.Method, r.URL.Path
 
 	// Iterate the method, regexp, and handler triples to find the first method match and regexp url matches, if any
 	var urlMatched bool
 
-	for _, methodPatternHandler := range sm.handlers {
+	for _, methodPatternHandler := range handlers {
 		mMethod, mPattern, mHandler := methodPatternHandler.Values()
 		parts := mPattern.FindStringSubmatch(url)
 
-- 
2.43.0


From b9a056455f518f0872993f0103be50d937520e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 08/26] fix: OrderedTuple2SliceAdd keeps the order when adding
 the least key

---
 funcs/funcs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index da07f9f..f7b84d5 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -682,6 +682,10 @@ func OrderedTuple2SliceAdd[K constraint.Ordered, V any](mp *[]tuple.Two[K, []V],
 		// index of matching tuple, replace tuple with new tuple that has value appended to slice
 		(*mp)[index] = tuple.Of2(key, append((*mp)[index].U, value))
 
+	case key < (*mp)[index].T:
+		// index is 0, and key is less than all existing keys, insert a new tuple before all of them
+		*mp = append([]tuple.Two[K, []V]{tuple.Of2(key, []V{value})}, (*mp)...)
+
 	default:
 		// index of tuple that a new tuple should be inserted after
 		// due to pointer used for original slice, we have to start building from an empty slice
-- 
2.43.0


From 5e420a0bb22c6611f42a2bd5e6e9f80e76157817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 09/26] fix: receivers that change the registry do not affect
 the event being sent

---
 event/event.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/event/event.go b/event/event.go
index 038ae9d..e0206a9 100755
--- a/event/event.go
+++ b/event/event.go
@@ -82,12 +82,18 @@ func (r *Registry[I, T]) Remove(id I, rcvr Receiver[T], all ...bool) {
 // It is up to the user to decide on the semantics of T.
 // If there are no receivers, the T value passed will be returned.
 //
+// The event is sent to the receivers that are registered when Send is called. If a receiver adds or removes receivers,
+// it only affects events sent afterwards.
+//
 // See comments on Receiver interface regarding the None type and error handling.
 func (r *Registry[I, T]) Send(val T) T {
+	var rcvrs []Receiver[T]
 	for _, idRcvrs := range r.receivers {
-		for _, rcvr := range idRcvrs.U {
-			val = rcvr.Process(val)
-		}
+		rcvrs = append(rcvrs, idRcvrs.U...)
+	}
+
+	for _, rcvr := range rcvrs {
+		val = rcvr.Process(val)
 	}
 
 	return val
-- 
2.43.0


From d24f3ccccf4382ed74a7388b93162815e3b8f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 10/26] fix: an escaped quote does not end a JSON string

---
 encoding/json/parse/lex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index 143bd8b..ac47c7f 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -199,7 +199,9 @@ func lexString(it iter.Iter[rune]) (token, error) {
                     hexVal = hexValCombined
 				}
 
-				val = hexVal
+				// The escaped char may be a ", which is not the end of the string
+				str = append(str, hexVal)
+				continue
 			default:
 				return zv, fmt.Errorf(errIllegalStringEscapeMsg, string('\\')+string(val))
 			}
-- 
2.43.0


From 1919e8cb3fd9951b69556e3c996f2e5f4b60a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 11/26] fix: escape the characters of JSON strings that cannot
 be written as they are

---
 encoding/json/write/write.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/encoding/json/write/write.go b/encoding/json/write/write.go
index da80e08..b6e45d6 100755
--- a/encoding/json/write/write.go
+++ b/encoding/json/write/write.go
@@ -8,6 +8,27 @@ import (
 	"github.com/bantling/micro/io/writer"
 )
 
+// hexDigits are the digits of a unicode escape
+const hexDigits = "0123456789abcdef"
+
+// appendString appends a quoted JSON string to data, escaping the characters that cannot be in a string as they are
+func appendString(data []rune, str string) []rune {
+	data = append(data, '"')
+
+	for _, c := range str {
+		switch {
+		case (c == '"') || (c == '\\'):
+			data = append(data, '\\', c)
+		case c < ' ':
+			data = append(data, '\\', 'u', '0', '0', rune(hexDigits[c>>4]), rune(hexDigits[c&0xf]))
+		default:
+			data = append(data, c)
+		}
+	}
+
+	return append(data, '"')
+}
+
 // Write writes any value to a writer
 func Write(jv json.Value, dst writer.Writer[rune]) error {
 	switch jv.Type() {
@@ -16,7 +37,7 @@ func Write(jv json.Value, dst writer.Writer[rune]) error {
 	case json.Array:
 		return WriteArray(jv, dst)
 	case json.String:
-		return dst.Write(append(append([]rune{'"'}, []rune(jv.AsString())...), '"')...)
+		return dst.Write(appendString(nil, jv.AsString())...)
 	case json.Number:
 		fallthrough
 	case json.Boolean:
@@ -46,7 +67,7 @@ func WriteObject(jv json.Value, dst writer.Writer[rune]) error {
 		}
 		i++
 
-		data = append(append(append(data, '"'), []rune(k)...), '"', ':')
+		data = append(appendString(data, k), ':')
 		if err := dst.Write(data...); err != nil {
 			return err
 		}
-- 
2.43.0


From 8f17428543fc67ed40514affd7055a8dcf257cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 12/26] fix: a JSON number has to be a number

---
 encoding/json/value.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 4ea1cf4..3348f1e 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -15,7 +15,7 @@ import (
 )
 
 // NumberString regex
-var numberStringRegex = regexp.MustCompile("-?[0-9]+([.][0-9]+)?(e[0-9]+)?")
+var numberStringRegex = regexp.MustCompile("^-?[0-9]+([.][0-9]+)?([eE][+-]?[0-9]+)?$")
 
 // Error constants
 var (
@@ -228,7 +228,8 @@ func numberToValue(val any) (nval Value, err error) {
 		}
 
 		// A NumberString could be the empty string, or "foo" or some other value that is not a number
-		if ns, isa := val.(NumberString); isa && (!numberStringRegex.MatchString(string(ns))) {
+		// A float could be an infinity or NaN, which is not a JSON number
+		if !numberStringRegex.MatchString(str) {
 			err = errNotNumber
 			return
 		}
-- 
2.43.0


From 02d74172afba6fbdb60415a3b40d92c830616c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 13/26] fix: a cached supplier can be called by multiple
 threads

---
 funcs/funcs.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index f7b84d5..c7a0fe3 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -9,6 +9,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/tuple"
@@ -1268,15 +1269,22 @@ func SupplierOf[T any](value T) func() T {
 
 // SupplierCached generates a func() T that caches the result of the given supplier on the first call.
 // Any subseqquent calls return the cached value, guaranteeing the provided supplier is invoked at most once.
+// The generated func can be called by multiple threads, calls made while the first call is in progress wait for it.
+// If the supplier panics, there is no value to cache, the next call invokes it again.
 func SupplierCached[T any](supplier func() T) func() T {
 	var (
+		mutex     sync.Mutex
 		isCached  bool
 		cachedVal T
 	)
 
 	return func() T {
+		mutex.Lock()
+		defer mutex.Unlock()
+
 		if !isCached {
-			isCached, cachedVal = true, supplier()
+			cachedVal = supplier()
+			isCached = true
 		}
 
 		return cachedVal
-- 
2.43.0


From 862158a877943cc85e2111b5c471731db21e57e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 14/26] fix: the generator refuses a second base path and
 creates usable dirs and sources

---
 code/api.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/code/api.go b/code/api.go
index 458a9be..60da442 100755
--- a/code/api.go
+++ b/code/api.go
@@ -68,17 +68,20 @@ func (bg BaseGenerator) GetBasePath() string {
 // SetBasePath panics if the base path has already been set
 func (bg *BaseGenerator) SetBasePath(bp string) {
 	// Die if base path has already been set
-	bg.basePath.SetOrError(bp)
+	funcs.Must(bg.basePath.SetOrError(bp))
 
 	// Use clean path
 	cleanPath := path.Clean(bp)
 
+	// Until a dir is created, the current dir is the base path
+	bg.currentDir = cleanPath
+
 	// Does the base path exist and contain stuff already from a previous run?
 	_, err := os.ReadDir(cleanPath)
 	if err != nil {
 		if os.IsNotExist(err) {
 			// Doesn't exist is ok, we'll just create all the parts that are missing for it
-			if err = os.MkdirAll(cleanPath, fs.ModeDir); err != nil {
+			if err = os.MkdirAll(cleanPath, fs.ModePerm); err != nil {
 				// Could not create some part
 				panic(fmt.Errorf(errBasePathCreateMsg, cleanPath, err))
 			}
@@ -93,7 +96,7 @@ func (bg *BaseGenerator) SetBasePath(bp string) {
 			panic(fmt.Errorf(errBasePathDeleteMsg, cleanPath, err))
 		}
 
-		if err = os.Mkdir(cleanPath, fs.ModeDir); err != nil {
+		if err = os.Mkdir(cleanPath, fs.ModePerm); err != nil {
 			// Could not recreate path
 			panic(fmt.Errorf(errBasePathCreateMsg, cleanPath, err))
 		}
@@ -110,16 +113,22 @@ func (bg *BaseGenerator) Dir(name string) {
 		panic(fmt.Errorf(errDirExistsInBasePathMsg, dirPath, bg.basePath))
 	}
 
-	if err := os.MkdirAll(dirPath, fs.ModeDir); err != nil {
+	if err := os.MkdirAll(dirPath, fs.ModePerm); err != nil {
 		// Could not create dir under base path
 		panic(fmt.Errorf(errCreateDirInBasePathMsg, dirPath, err))
 	}
 
+	if bg.dirs == nil {
+		bg.dirs = map[string]bool{}
+	}
 	bg.dirs[dirPath] = true
+	bg.currentDir = dirPath
 }
 
-// Src panics if the file already exists
+// Src panics if the file already exists, or the base path has not been set
 func (bg *BaseGenerator) Src(name string) {
+	bg.basePath.Get()
+
 	if funcs.Map2Test(bg.srcs, bg.currentDir, name) {
 		// Die if src already exists
 		panic(fmt.Errorf(errCreateSrcFileInDirMsg, name, bg.currentDir, error(nil)))
-- 
2.43.0


From 8eb74d639a7a86e3bcd15d72afc639987f7f897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 15/26] fix: the generator only creates dirs and sources under
 the base path

---
 code/api.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/code/api.go b/code/api.go
index 60da442..4384129 100755
--- a/code/api.go
+++ b/code/api.go
@@ -7,6 +7,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"strings"
 
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/io/writer"
@@ -19,6 +20,7 @@ const (
 	errBasePathDeleteMsg      = "The base path %s could not be deleted: %s"
 	errDirExistsInBasePathMsg = "The dir %s already exists in base path %s"
 	errCreateDirInBasePathMsg = "The dir %s could not be created in base path %s: it already exists"
+	errNameNotInDirMsg        = "The name %s is outside of the dir %s"
 	errCreateSrcFileInDirMsg  = "The file %s could not be created in dir %s: %s"
 )
 
@@ -103,10 +105,19 @@ func (bg *BaseGenerator) SetBasePath(bp string) {
 	}
 }
 
-// Dir panics if dir already exists, or creating the dir has an error
+// pathIn returns the clean path of name in the given dir, and panics if it is not in that dir
+func pathIn(dir, name string) string {
+	if clean := path.Clean(name); (clean == "..") || strings.HasPrefix(clean, "../") {
+		panic(fmt.Errorf(errNameNotInDirMsg, name, dir))
+	}
+
+	return path.Clean(dir + "/" + name)
+}
+
+// Dir panics if dir already exists, is not under the base path, or creating the dir has an error
 func (bg *BaseGenerator) Dir(name string) {
 	// Get
-	dirPath := path.Clean(bg.basePath.Get() + "/" + name)
+	dirPath := pathIn(bg.basePath.Get(), name)
 
 	// Die if dir already exists
 	if _, haveIt := bg.dirs[dirPath]; haveIt {
@@ -125,23 +136,23 @@ func (bg *BaseGenerator) Dir(name string) {
 	bg.currentDir = dirPath
 }
 
-// Src panics if the file already exists, or the base path has not been set
+// Src panics if the file already exists, is not in the current dir, or the base path has not been set
 func (bg *BaseGenerator) Src(name string) {
 	bg.basePath.Get()
 
-	if funcs.Map2Test(bg.srcs, bg.currentDir, name) {
+	srcPath := pathIn(bg.currentDir, name)
+	if funcs.Map2Test(bg.srcs, path.Dir(srcPath), path.Base(srcPath)) {
 		// Die if src already exists
 		panic(fmt.Errorf(errCreateSrcFileInDirMsg, name, bg.currentDir, error(nil)))
 	}
 
-	path := bg.currentDir + "/" + name
-	f, err := os.Create(path)
+	f, err := os.Create(srcPath)
 	if err != nil {
 		// Could not create src file under dir
 		panic(fmt.Errorf(errCreateSrcFileInDirMsg, name, bg.currentDir, err))
 	}
 
-	funcs.Map2Set(&bg.srcs, bg.currentDir, name, true)
+	funcs.Map2Set(&bg.srcs, path.Dir(srcPath), path.Base(srcPath), true)
 	bg.currentSrc = writer.OfIOWriterAsStrings(f)
 }
 
-- 
2.43.0


From 496573b43ea026f2cff31c6048ccb1dec304c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 16/26] fix: iterate maps that contain nil interface values

---
 iter/gen.go      | 5 ++++-
 stream/stream.go | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index 0a42848..47e2bc7 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -67,7 +67,10 @@ func MapIterGen[K comparable, V any](m map[K]V) func() (tuple.Two[K, V], error)
 			return zv, EOI
 		}
 
-		return tuple.Of2(mi.Key().Interface().(K), mi.Value().Interface().(V)), nil
+		// If K or V is an interface type, the key or value may be nil, which is the zero value
+		key, _ := mi.Key().Interface().(K)
+		val, _ := mi.Value().Interface().(V)
+		return tuple.Of2(key, val), nil
 	}
 }
 
diff --git a/stream/stream.go b/stream/stream.go
index 3ce8edf..a5803a2 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -589,9 +589,11 @@ func ExpandMaps[K comparable, V any](it iter.Iter[map[K]V]) iter.Iter[tuple.Two[
 			}
 		}
 
-		val := tuple.Of2(mr.Key().Interface().(K), mr.Value().Interface().(V))
+		// If K or V is an interface type, the key or value may be nil, which is the zero value
+		key, _ := mr.Key().Interface().(K)
+		val, _ := mr.Value().Interface().(V)
 
-		return val, nil
+		return tuple.Of2(key, val), nil
 	})
 }
 
-- 
2.43.0


From 863f900fcde2b459c7ac64231cca4e447a9fe8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 17/26] fix: Parallel does not yield results of a single item
 whose transform fails

---
 stream/stream.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index a5803a2..de02633 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1200,8 +1200,13 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 			// If the source is empty, nothing to do, just return an empty Iter
 			return iter.OfEmpty[U]()
 		case 1:
-			// If the source has 1 element, don't bother with a separate thread, just return the result
-			return transforms(iter.OfOne(input[0]))
+			// If the source has 1 element, don't bother with a separate thread
+			var output []U
+			if output, err = ReduceToSlice(transforms(iter.OfOne(input[0]))).Next(); err != nil {
+				return iter.SetError(iter.OfEmpty[U](), err)
+			}
+
+			return iter.OfSlice(output)
 		}
 
 		// At least two items, as required by generateRanges. Get slice ranges.
-- 
2.43.0


From e201fcd3bae70550d19f12e5fa54720b1fdb5121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 18/26] fix: the streaming JSON parser does not yield a number
 cut off by the end of input

---
 encoding/json/parse/parse.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 53aea2d..ecc88ac 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -177,6 +177,27 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 		commaBracket token
 	)
 
+	// element parses the next element. A number that ends where the input ends may have lost some digits, it is only known
+	// to be complete if some token follows it.
+	element := func() (json.Value, error) {
+		val, err := parseValue(it)
+		if (err != nil) || (val.Type() != json.Number) {
+			return val, err
+		}
+
+		next, err := it.Next()
+		if err != nil {
+			if err == iter.EOI {
+				return zv, errArrayRequiresCommaOrBracket
+			}
+			// A problem
+			return zv, err
+		}
+
+		it.Unread(next)
+		return val, nil
+	}
+
 	return iter.OfIter(func() (json.Value, error) {
 		if first {
 			// Discard opening bracket
@@ -198,7 +219,7 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 
 			// If not closing bracket, must be a value that begins with the token we just read
 			it.Unread(tok)
-			if value, err = parseValue(it); err != nil {
+			if value, err = element(); err != nil {
 				// A problem - cannot be EOI
 				return zv, err // Case 4
 			}
@@ -229,7 +250,7 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 
 			// Expect value for element, and return it
 			it.Unread(tok)
-			if value, err = parseValue(it); err != nil {
+			if value, err = element(); err != nil {
 				// A problem - cannot be EOI
 				return zv, err // Case 9
 			}
-- 
2.43.0


From d08d0e95788ba1010f69806565c35a402df191b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 19/26] fix: a JSON number cannot have leading zeros

---
 encoding/json/parse/lex.go | 5 ++++-
 encoding/json/value.go     | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index ac47c7f..972ccaa 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -262,11 +262,14 @@ func lexNumber(it iter.Iter[rune]) (token, error) {
 		}
 
 		if (val >= '0') && (val <= '9') {
-			haveDigit = true
 			str = append(str, val)
 			if leadingZero {
 				return die()
 			}
+
+			// The first digit may follow a -
+			leadingZero = !haveDigit && (val == '0')
+			haveDigit = true
 		} else if val == '.' {
 			str = append(str, val)
 			if haveDigit {
diff --git a/encoding/json/value.go b/encoding/json/value.go
index 3348f1e..0b4dddf 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -15,7 +15,7 @@ import (
 )
 
 // NumberString regex
-var numberStringRegex = regexp.MustCompile("^-?[0-9]+([.][0-9]+)?([eE][+-]?[0-9]+)?$")
+var numberStringRegex = regexp.MustCompile("^-?(0|[1-9][0-9]*)([.][0-9]+)?([eE][+-]?[0-9]+)?$")
 
 // Error constants
 var (
-- 
2.43.0


From 413174c697a2ae439a05017cbd352b7f585146ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 20/26] fix: a quotient that rounds away from zero keeps its
 sign

---
 math/math.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/math/math.go b/math/math.go
index ecb808b..a007a66 100755
--- a/math/math.go
+++ b/math/math.go
@@ -18,6 +18,9 @@ import (
 func divSInt(de, dv int64, q *int64) {
 	*q = de / dv
 
+	// The sign of the exact quotient, which is not the sign of *q when *q is zero
+	neg := (de < 0) != (dv < 0)
+
 	// Calc abs of remainder and of half divisor
 	r, halfdv := de%dv, dv/2
 	if r < 0 {
@@ -29,7 +32,7 @@ func divSInt(de, dv int64, q *int64) {
 
 	// If divisor is odd and r >= half divisor, or divisor is even and r > half divisor, adjust quotient by one to round
 	if (((dv & 1) == 0) && (r >= halfdv)) || (((dv & 1) == 1) && (r > halfdv)) {
-		if *q >= 0 {
+		if !neg {
 			*q++
 		} else {
 			*q--
@@ -314,6 +317,9 @@ var (
 				return DivByZeroErr
 			}
 
+			// The sign of the exact quotient, which is not the sign of qbi when qbi is zero
+			neg := debi.Sign()*dvbi.Sign() < 0
+
 			r := big.NewInt(0)
 			qbi.QuoRem(debi, dvbi, r)
 			r.Abs(r)
@@ -325,7 +331,7 @@ var (
 			dvbiEven := big.NewInt(0).SetBytes(dvbi.Bytes())
 			dvbiEven.And(dvbiEven, big.NewInt(1))
 			if ((dvbiEven.Sign() == 0) && (r.Cmp(halfdv) >= 0)) || ((dvbiEven.Sign() == 1) && (r.Cmp(halfdv) > 0)) {
-				if qbi.Sign() >= 0 {
+				if !neg {
 					qbi.Add(qbi, big.NewInt(1))
 				} else {
 					qbi.Sub(qbi, big.NewInt(1))
-- 
2.43.0


From b53e8f00122401036d4155eafa16784f9667c2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 21/26] fix: an ErrorWriter with a large limit does not
 allocate it up front

---
 io/io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/io.go b/io/io.go
index 04f35f2..9a53c13 100755
--- a/io/io.go
+++ b/io/io.go
@@ -48,7 +48,7 @@ func (r *ErrorReader) Read(p []byte) (int, error) {
 }
 
 // ErrorWriter is the Writer analog to ErrorReader, it returns a non-eof error after some output bytes have been written.
-// A preallocated slice of bytes tracks the bytes written, so the caller can compare.
+// A slice of bytes tracks the bytes written, so the caller can compare.
 type ErrorWriter struct {
 	count  int
 	output []byte
@@ -57,7 +57,7 @@ type ErrorWriter struct {
 
 // NewErrorWriter constructs an ErrorWriter from a count of output bytes to allow and an error
 func NewErrorWriter(count int, err error) *ErrorWriter {
-	return &ErrorWriter{count, make([]byte, 0, math.MaxOrdered(0, count)), err}
+	return &ErrorWriter{count, []byte{}, err}
 }
 
 // Write is the io.Writer method, that eventually returns with the provided error
-- 
2.43.0


From 4c0346ebb4638aff5bf19e2754b0eb9aedf5a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 22/26] fix: a rooted name with parent parts cannot leave the
 dir it is generated in

---
 code/api.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/api.go b/code/api.go
index 4384129..85d03c4 100755
--- a/code/api.go
+++ b/code/api.go
@@ -107,11 +107,12 @@ func (bg *BaseGenerator) SetBasePath(bp string) {
 
 // pathIn returns the clean path of name in the given dir, and panics if it is not in that dir
 func pathIn(dir, name string) string {
-	if clean := path.Clean(name); (clean == "..") || strings.HasPrefix(clean, "../") {
+	clean := path.Clean(name)
+	if (clean == "..") || strings.HasPrefix(clean, "../") {
 		panic(fmt.Errorf(errNameNotInDirMsg, name, dir))
 	}
 
-	return path.Clean(dir + "/" + name)
+	return path.Clean(dir + "/" + clean)
 }
 
 // Dir panics if dir already exists, is not under the base path, or creating the dir has an error
-- 
2.43.0


From 76beece24fa68d97be56ca2ee4007db45fc82413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:05 +0000
Subject: [PATCH 23/26] fix: a converted copy of a big number does not share
 its digits with the original

---
 conv/conv.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index 19b696b..174625c 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1009,6 +1009,19 @@ var (
 	}
 )
 
+// copyBig copies a big value into another one of the same type.
+// The big types do not support a shallow copy of the struct, both copies would share the same digits.
+func copyBig(src, dst any) {
+	switch s := src.(type) {
+	case *big.Int:
+		dst.(*big.Int).Set(s)
+	case *big.Float:
+		dst.(*big.Float).Copy(s)
+	case *big.Rat:
+		dst.(*big.Rat).Set(s)
+	}
+}
+
 // To converts any Numeric type or string to any Numeric type or string
 // If the types are the same, a copy by value is performed, unless they are big types.
 // For big type copies, a new pointer is constructed with a copy of the input value.
@@ -1045,7 +1058,7 @@ func To[I, O constraint.Numeric | string](i I, o *O) error {
 
 				// ival is non-nil, oval is non-nil and not the same pointer as ival
 				// Copy the value
-				oval.Elem().Elem().Set(ival.Elem())
+				copyBig(ival.Interface(), oval.Elem().Interface())
 			}
 		} else {
 			// All non-big types are value types, just copy the value
@@ -1140,7 +1153,7 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 
 			// ival is non-nil, oval is non-nil and not the same pointer as ival
 			// Copy the value
-			oval.Elem().Elem().Set(ival.Elem())
+			copyBig(ival.Interface(), oval.Elem().Interface())
 		}
 
 		return nil
-- 
2.43.0


From 499034d30a66a028b50458c13d29989a3fb4803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 24/26] fix: the *big.Int of a *big.Rat is not a reference into
 the *big.Rat

---
 conv/bigint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/bigint.go b/conv/bigint.go
index 750c6a6..88639fc 100755
--- a/conv/bigint.go
+++ b/conv/bigint.go
@@ -81,7 +81,8 @@ func BigRatToBigInt(ival *big.Rat, oval **big.Int) error {
 		return fmt.Errorf(errMsg, ival, ival.String(), "*big.Int")
 	}
 
-	*oval = ival.Num()
+	// Num is a reference to the numerator of the *big.Rat, copy it
+	*oval = big.NewInt(0).Set(ival.Num())
 	return nil
 }
 
-- 
2.43.0


From ef9d590d7486c89f84e3bb10ff59df281a7a5a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 25/26] fix: AbsBigOps does not modify the elements of the
 input set

---
 stream/stream.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/stream/stream.go b/stream/stream.go
index de02633..872eac2 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -5,6 +5,7 @@ package stream
 import (
 	"fmt"
 	gomath "math"
+	"math/big"
 	"math/bits"
 	"reflect"
 	"sync"
@@ -900,10 +901,24 @@ func Abs[T constraint.SignedInteger](it iter.Iter[T]) iter.Iter[T] {
 	})(it)
 }
 
+// zeroBigOps returns a new zero value of a big type.
+// A *big.Float has a precision of 0, so that the operation that sets it uses the precision of the operands.
+func zeroBigOps[T constraint.BigOps[T]]() T {
+	var zero T
+	conv.ToBigOps(0, &zero)
+
+	if f, isa := any(zero).(*big.Float); isa {
+		f.SetPrec(0)
+	}
+
+	return zero
+}
+
 // AbsBigOps is the *big.Int, *big.Float, *big.Rat specialization of Abs
 func AbsBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
 	return Map(func(v T) T {
-		return v.Abs(v)
+		// The element belongs to the input set, do not modify it
+		return zeroBigOps[T]().Abs(v)
 	})(it)
 }
 
-- 
2.43.0


From 51427b3c9a9ede9273068e69175bdd389be175e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 26/26] fix: the sum and average of *big.Float values are not
 rounded to the precision of the number 0

---
 stream/stream.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index 872eac2..b401b43 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1017,31 +1017,29 @@ func AvgBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
 	return iter.OfIter(
 		func() (T, error) {
 			var (
-				sum   T
-				count T
-				one   T
+				sum   = zeroBigOps[T]()
+				count int64
 				val   T
 				avg   T
 				zv    T
 				err   error
 			)
-			conv.ToBigOps(0, &sum)
-			conv.ToBigOps(0, &count)
-			conv.ToBigOps(1, &one)
 
 			for {
 				if val, err = it.Next(); err == nil {
 					// Sum all values and count them
-					sum.Add(sum, val)
-					count.Add(count, one)
+					sum = zeroBigOps[T]().Add(sum, val)
+					count++
 				} else if err == iter.EOI {
-					if count.Sign() == 0 {
+					if count == 0 {
 						// Empty result
 						return zv, err
 					}
 
 					// Non-empty result - divisor = zero handled above, so Div will never fail
-					math.DivBigOps(sum, count, &avg)
+					// The average starts as a copy of the sum, so that a *big.Float has the same precision as the sum
+					avg = zeroBigOps[T]().Set(sum)
+					math.DivBigOps(sum, zeroBigOps[T]().SetInt64(count), &avg)
 					break
 				} else {
 					return zv, err
@@ -1102,14 +1100,16 @@ func Sum[T constraint.IntegerAndFloat](it iter.Iter[T]) iter.Iter[T] {
 
 // SumBigOps is the *big.Int, *big.Float, *big.Rat specialization of Sum
 func SumBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
-	var sum T
-	conv.ToBigOps(0, &sum)
+	// The sum of a single element is a copy of it, as the element belongs to the input set
+	copies := Map(func(v T) T {
+		return zeroBigOps[T]().Set(v)
+	})
 
 	return Reduce(
 		func(a, b T) T {
-			return sum.Add(a, b)
+			return zeroBigOps[T]().Add(a, b)
 		},
-	)(it)
+	)(copies(it))
 }
 
 // ==== Parallel
-- 
2.43.0

