#!/usr/bin/env python3
"""Source of /verif/properties.jsonl. Run: python3 /verif/tools/props.py"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

p("C01", "Parallel processing gives exactly the sequential result",
  """For every input sequence, every transform whose output for an item depends only on that item (mapping, filtering
  items away, expanding one item into several, or a chain of these), and every parallelism setting (default, a thread
  count, or a bucket size, including non-positive and oversized values), parallel processing yields exactly the items,
  in exactly the order, that applying the same transform sequentially yields. This holds under every interleaving of
  the workers, without data races, and the caller's source data is left unmodified.""",
  ["schedules", "inputs", "configurations"],
  "every worker interleaving x input length x transform chain x parallelism setting, same or different item types",
  """The tests run a handful of element-for-element maps once each under whatever schedule the host gives; they never
  drop or multiply items, and one run samples one interleaving.""",
  ["stream/stream.go"],
  [("parallel executor", "stream.Parallel"), ("range splitter", "stream.generateRanges")])

p("C02", "A failure during parallel processing is reported whole and contained",
  """If the source fails, or the transform fails on some item, the parallel result yields no items at all, only an
  error that the source or the transform really returned in that run, and asking again repeats that same error. If
  nothing fails, no error is ever reported; and in either case every worker has finished before the call that started
  it returns.""",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of the workers x every subset of failing items x a source error at any position",
  """Tests inject one failing item under one schedule; which worker's error wins, whether a late worker's error or
  output leaks, and whether a worker survives the call depend on the interleaving.""",
  ["stream/stream.go"], [("error slots and wait", "stream.Parallel")])

p("C03", "Parallel work is split within the promised bounds",
  """Given a thread count N, at most N workers exist; given a bucket size N, no worker is handed more than N items;
  with neither, the number of workers is within one of the square root of the number of items. Every
  source item is handed to exactly one worker exactly once, in source order within the worker, a single item is
  processed in the caller's own thread, an empty input starts no worker, and the call always terminates.""",
  ["schedules", "inputs", "configurations"],
  "every input length and parallelism setting under every worker interleaving",
  """The splitter is unit tested for a few sizes, but how many workers really run, in which threads, and what each
  one is fed is only visible when the execution itself is observed.""",
  ["stream/stream.go"], [("range splitter", "stream.generateRanges"), ("worker start", "stream.Parallel")])

p("C04", "Routes can be registered while requests are served, atomically",
  """Registrations and requests may run concurrently in any interleaving, without data races, and each request is
  answered as if the routes registered so far formed one list in registration order: every registration that completed
  before the request began is visible to it, none is ever lost, duplicated or half visible. The request goes to the first route whose pattern matches
  the URL path and whose method equals the request's (with the matched parts), gets 405 if only
  the URL matched some route, else 404; a rejected registration (empty method, empty pattern, nil handler, bad pattern) returns an
  error and changes nothing.""",
  ["schedules", "histories"],
  "every interleaving of concurrent registrations and requests, and every route list and request sequence",
  "Tests register and serve strictly sequentially from one goroutine.",
  ["rest/rest.go"], [("route table", "rest.ServeMux.Handle, rest.ServeMux.ServeHTTP")])

p("C05", "A slow, panicking or reentrant handler never blocks the router",
  """While a handler is stalled, or the client of a request is slow to take its answer, after a handler has panicked, or when a handler itself registers routes or issues
  further requests to the same router, every other request and registration still completes, with the correct answer.
  A handler's panic reaches the caller of that one request unchanged.""",
  ["schedules", "fault_sequences"],
  "every interleaving of requests and registrations with handlers that stall for simulated hours, panic or re-enter",
  "No test has a handler that blocks, panics or re-enters, and none has two requests in flight.",
  ["rest/rest.go"], [("dispatch", "rest.ServeMux.ServeHTTP")])

p("C06", "Byte iteration delivers exactly what the reader delivered",
  """Iterating a reader's bytes yields exactly the bytes the reader delivered, in order, however the reader fragments
  them (including empty reads and data returned together with an error), then end of iteration if the reader
  ended, or else the reader's own error; after that the same outcome repeats and the reader is never read again.
  A closeable reader that ended is closed exactly once, and none is ever closed before its end or error was seen; a failing
  close is reported as that close's error.""",
  ["fault_sequences", "inputs"],
  "every byte content x every legal fragmentation, empty read, data-with-error, mid-stream error and close failure",
  "Tests use well behaved in-memory readers which deliver every requested byte and report EOF separately.",
  ["iter/gen.go", "iter/iter.go"], [("byte source", "iter.ReaderIterGen, iter.OfReader")])

p("C07", "Rune iteration is independent of how the bytes arrive",
  """Iterating a reader's characters yields exactly the characters encoded by the bytes the reader delivered, no matter
  how those bytes are fragmented over reads. A malformed, overlong, surrogate, out of range or incomplete encoding
  is reported as the invalid UTF-8 error after all characters before it (a read error other than
  end of input is reported as itself), nothing is yielded after an error, and the same error repeats.""",
  ["fault_sequences", "inputs"],
  "every byte sequence, valid or not, x every legal fragmentation, empty read, data-with-error and mid-stream error",
  "Tests use readers that always fill the buffer; real files, pipes and sockets may split a character anywhere.",
  ["iter/gen.go"], [("UTF-8 decoder", "iter.ReaderAsRunesIterGen, iter.StringAsRunesIterGen")])

p("C08", "Line iteration yields every line exactly once",
  """Iterating a reader's or string's lines yields exactly the text between line ends, where a line end is LF, CR or
  CR immediately followed by LF, in any mixture, however the bytes are fragmented; a final non-empty unterminated line
  is yielded too. A read error is reported after all complete lines before it, the incomplete line is not
  yielded, and the same outcome repeats.""",
  ["fault_sequences", "inputs"],
  "every text and mixture of line ends x every fragmentation and fault of the underlying reader",
  "Tests cover single styles of line end with friendly readers, never mixtures or mid-line errors after a CR.",
  ["iter/gen.go"], [("line assembler", "iter.readLines, iter.ReaderAsLinesIterGen, iter.StringAsLinesIterGen")])

p("C09", "CSV iteration yields exactly the document's records",
  """Iterating CSV from a reader yields, record by record, exactly the fields a standard CSV reader finds in the bytes
  delivered, however they are fragmented, then end of iteration. A malformed record or a read error is
  reported as that error with no record, after every record before it, and the same error repeats without further reads.""",
  ["fault_sequences", "inputs"],
  "every CSV text, well formed or not, x every fragmentation and read fault",
  "Tests parse two small documents from in-memory readers.",
  ["iter/gen.go", "rest/content.go"], [("CSV source", "iter.CSVIterGen, iter.OfCSV")])

p("C10", "JSON parsing gives the same value however the bytes arrive",
  """Parsing a valid JSON document yields exactly the value it denotes (checked against an independent parser; numbers keep their text,
  including exponents and every digit), whatever the whitespace, nesting, escapes or order of keys, and however the
  reader fragments the bytes. The streaming form yields each element of a top level array in order (or the single top
  level value) and then ends.""",
  ["fault_sequences", "inputs"],
  "every valid document x every legal fragmentation, empty read and data-with-EOF",
  "Tests parse fixed documents from readers which always deliver everything.",
  ["encoding/json/parse/parse.go", "encoding/json/parse/lex.go", "encoding/json/value.go"],
  [("lexer", "parse.lex"), ("parser", "parse.parseValue/parseObject/parseArray"), ("streaming", "parse.Iterate"), ("whole document", "parse.Parse")])

p("C11", "Truncated or failing JSON input is never taken for a document",
  """If the input ends before the document is complete, parsing reports an error, never a value, and never reports a
  plain end of iteration as if the document were whole. If the reader fails, that very error is reported;
  the streaming form first yields the elements that had arrived completely, unaltered and in order, and nothing after the error.""",
  ["fault_sequences", "crash_points", "inputs"],
  "every valid document x cut or failed at every byte x every fragmentation",
  "Tests fail the reader at a few hand-picked positions of a few documents.",
  ["encoding/json/parse/parse.go", "encoding/json/parse/lex.go"],
  [("lexer end handling", "parse.lex"), ("parser", "parse.parseObject/parseArray"), ("streaming", "parse.Iterate")])

p("C12", "Streaming sources deliver an item as soon as it has arrived",
  """When bytes, characters, lines or the elements of a JSON array are iterated from a slow or endless source, each
  item is delivered once the bytes that complete it have arrived: no further byte is needed, no read beyond them is attempted,
  and a source that stalls or fails later never withholds it. A line is complete at the first byte of its line end (so at
  the CR of a CR LF), and an array element at the comma or bracket after it.""",
  ["fault_sequences", "schedules"],
  "every stream x every stall position and duration x every fragmentation",
  "Tests use sources that never block, so reading ahead is invisible to them.",
  ["iter/gen.go", "encoding/json/parse/parse.go", "encoding/json/parse/lex.go"],
  [("readers", "iter.ReaderIterGen, iter.ReaderAsRunesIterGen, iter.readLines"), ("streaming JSON", "parse.Iterate")])

p("C13", "An acknowledged JSON write is a complete document that reads back equal",
  """When writing a JSON value reports success, the destination has received one complete valid JSON document that any
  JSON parser, this library's included, reads back as an equal value, for every value (any characters in
  keys and strings, any number, any nesting). When the destination fails or writes short, an error is reported (the
  destination's own when it gave one), and nothing more is written after the failure, so what was received is a
  prefix of a document.""",
  ["fault_sequences", "crash_points", "inputs"],
  "every value x a write error, short write or zero-byte write at every write call",
  "Tests write a few plain values and fail the writer at a few counts; nothing is parsed back.",
  ["encoding/json/write/write.go", "encoding/json/parse/lex.go", "io/writer/gen.go"],
  [("document writer", "write.Write*"), ("string writer", "writer.IOWriterAsStringsGen")])

p("C14", "A writer that reports success has written everything, in order",
  """Writing a byte, character, string or line through a writer reports success only if every byte of its UTF-8
  encoding (plus the line end for lines) was accepted by the destination in order, with nothing duplicated or
  interleaved; otherwise it reports an error, the destination's own if it returned one. The result of each write
  depends only on that write, and writers to a slice or a map store exactly the values given.""",
  ["fault_sequences", "inputs"],
  "every sequence of writes x every sequence of errors, short and zero-byte writes of the destination",
  "Tests use one destination that stops after a fixed count.",
  ["io/writer/gen.go", "io/writer/writer.go"],
  [("writing functions", "writer.IOWriterGen, IOWriterAsRunesGen, IOWriterAsStringsGen, IOWriterAsLinesGen, SliceWriterGen, MapWriterGen"), ("writer", "writer.OfIOWriter*")])

p("C15", "Iterators end once, stay ended, and unread exactly",
  """For any source and any sequence of reads and unreads, an iterator yields the unread values last-in first-out
  before any further source value, then the source's values in order, each exactly once. After the source's end or
  error it repeats that end or error with a zero value forever and never asks the source again, even if the source
  would now succeed; unread still works then. Concatenation yields all items of its
  parts in order and stops for good at the first failing part, and replacing an error replaces exactly the first non-value outcome.""",
  ["histories", "fault_sequences"],
  "every sequence of reads and unreads x every source behaviour, including one that revives after its end",
  "Tests exercise short fixed sequences on sources that never revive and never fail in the middle.",
  ["iter/iter.go", "iter/gen.go"],
  [("iterator", "iter.IterImpl.Next, Unread"), ("concatenation", "iter.ConcatIterGen"), ("SetError", "iter.SetError"), ("sources", "iter.SliceIterGen, MapIterGen, InfiniteIterGen")])

p("C16", "Stream operations never turn a failure into a result",
  """Whatever chain of stream operations is applied (mapping, filtering, reducing, collecting, expanding, skipping,
  limiting, peeking, distinct, duplicate, reverse, sort, average, min, max, sum, count, matching), without a failure it
  yields exactly the result of the same chain on the finished sequence. If the source or a fallible operation fails, the items already
  yielded are a correct prefix, no aggregate of partial input is ever yielded, and the chain reports exactly that
  error, repeatedly, unless the operations had already finished without needing the failing item.""",
  ["fault_sequences", "inputs", "programs"],
  "every pipeline of operations x every input x a failure at every position",
  "Tests check single operations on tiny inputs, with an error as the only item if at all.",
  ["stream/stream.go", "iter/iter.go"],
  [("operations", "stream.Map .. stream.SumBigOps"), ("iterator", "iter.OfIter")])

p("C17", "Stream operations consume only what they need",
  """Building a chain of lazy operations reads nothing from the source, and each item taken from the chain reads no
  more source items than that item needs: one per item for mapping and peeking, up to the next match for
  filtering, exactly n in total for a limit of n (none at all for a limit of 0 or once it is exhausted),
  up to the deciding item for all/any/none matching. So an unbounded, slow or failing source can be processed in batches
  with nothing lost or read twice between batches.""",
  ["histories", "programs", "fault_sequences"],
  "every chain of lazy operations x every pull pattern x failing or stalling just past the needed item",
  "Tests look at the values produced, not at how many source items were taken and when.",
  ["stream/stream.go", "iter/iter.go"],
  [("lazy operations", "stream.Map, Filter, Skip, Limit, Peek, ReduceToBool, ExpandSlices"), ("iterator", "iter.OfIter")])

p("C18", "A composed pipeline can be reused on any number of sources",
  """A pipeline stored once and applied to several sources, one after the other, interleaved, or concurrently
  in separate threads, treats each source as if the pipeline had been built for it alone: counters, remembered
  values, partial aggregates and errors of one use never show in another. Concurrent use of one pipeline on separate sources is free of
  data races. (The Generator operation, which documents itself as not thread safe, is excepted from concurrent use only.)""",
  ["schedules", "histories", "programs"],
  "every pipeline x every interleaving of pulls from its applications x every thread interleaving",
  "Tests reuse a pipeline at most sequentially, for a few operations.",
  ["stream/stream.go"],
  [("stateful operations", "stream.Skip, Limit, Reduce*, Distinct, Duplicate, Generator, SumBigOps")])

p("C19", "Event delivery is ordered, complete and stable during a send",
  """Sending an event passes the value through every receiver that was registered when the send began exactly once,
  in ascending order of operation id and registration order within an id, each receiving the previous one's result.
  Receivers that register, remove or send again from inside a delivery, or panic, never cause another
  receiver of the send in progress to be skipped or repeated; their changes show in sends begun afterwards.
  A panic passes to the sender and leaves the registry usable and complete.""",
  ["histories", "fault_sequences"],
  "every history of register, remove, remove-id and send, including those made from inside receivers, and panics at any receiver",
  "Tests register up front, then send; nothing changes the registry during a send.",
  ["event/event.go", "funcs/funcs.go"],
  [("registry", "event.Registry.Register, Remove, RemoveId, Send"), ("ordered lists", "funcs.OrderedTuple2Slice*")])

p("C20", "Cleanup always runs, exactly once, whatever the body does",
  """A try block runs each of its closers exactly once, in reverse order, after the body, whether the body returns, panics
  with any value, or its thread is being terminated, and even if another closer panics. A panic raised by the body or
  a closer reaches the panic handler exactly once, as the very value raised, after all closers have run; without a panic
  the handler is not called; and a panic raised by the handler itself propagates to the caller unchanged. Must style helpers
  panic with exactly the error they were given, and only when there is one.""",
  ["fault_sequences", "programs"],
  "every nesting of try blocks x a panic of any kind, or thread termination, at any point of body, handler or closers",
  "Tests cover single level blocks with one panic.",
  ["funcs/funcs.go"], [("try", "funcs.TryTo"), ("must", "funcs.Must, funcs.MustValue, MustValue2, MustValue3")])

p("C21", "A cached supplier computes at most once, even when shared",
  """However many threads ask a cached supplier for its value, at any time, the underlying supplier completes at
  most once and is never run by two threads at a time, every caller that returns gets that one value, without data races,
  and no caller waits forever. If the supplier panics, that caller sees the panic, and later
  callers are never given a value no supplier run returned.""",
  ["schedules", "fault_sequences"],
  "every interleaving of concurrent callers x a supplier that is slow or panics",
  "The test calls it twice from one goroutine.",
  ["funcs/funcs.go"], [("cached supplier", "funcs.SupplierCached")])

p("C22", "Generated code lands completely in the right files or an error says so",
  """The source code generator creates, overwrites and deletes files only beneath its configured base directory, which it empties when
  configured. Each source goes to its own file in the current directory, and a file whose
  writes all reported success holds exactly the text written, in order. A failing file system operation (any read, create, delete, write
  or short write, at any point) surfaces to the caller as a panic or error, as does
  a directory or source that already exists or a name outside its directory; a second base directory is refused without touching any file.""",
  ["fault_sequences", "crash_points", "histories"],
  "every sequence of generator calls x a failure of any kind at any file system operation",
  "The generator has no tests that reach a file system.",
  ["code/api.go"], [("generator", "code.BaseGenerator.SetBasePath, Dir, Src, CurrentSrc")])

p("C23", "Independent uses of the library never interfere",
  """Threads that use the library on unrelated data at the same time (parsing, writing, iterating, streaming, converting, decimal and integer math,
  reflection, JSON search, events, collections) get exactly the results they get when they run alone, under every interleaving, and
  without data races. No call keeps state that another, unrelated call can observe.""",
  ["schedules", "histories"],
  "every set of operations from all packages x every interleaving of the threads that run them",
  "Every test runs alone in one goroutine; hidden shared state (package variables, caches, scratch buffers) is invisible to it.",
  ["conv/conv.go", "math/decimal.go", "math/math.go", "reflect/reflect.go", "encoding/json/value.go", "encoding/json/parse/lex.go", "funcs/funcs.go", "union/union.go"],
  [("package level state", "all packages")])

p("C24", "The fault-injecting reader and writer behave exactly as documented",
  """For every content, limit of zero or more and sequence of call sizes, the failing reader delivers exactly its content in order,
  never more than asked, and then forever its error with no bytes; the failing writer records exactly the first bytes
  up to its limit in order, reports how many it took, and then fails every call with its error taking
  nothing. Neither ever panics or reads or writes outside the caller's buffer.""",
  ["fault_sequences", "inputs", "histories"],
  "every content and limit x every sequence of read or write sizes",
  "Tests read one size only, dividing the content evenly.",
  ["io/io.go"], [("failing reader", "io.ErrorReader.Read"), ("failing writer", "io.ErrorWriter.Write")])

p("C25", "Request bodies are negotiated and decoded faithfully or fail visibly",
  """A request body announced by the request's headers as gzip (Accept-Encoding), CSV or JSON (Content-Type) is decoded to exactly the content the client encoded, however
  the network fragments it; a body that is not declared so is passed through unread and unchanged (or not decoded at all). A
  gzip body that is truncated, a JSON body that is truncated, or any body whose connection fails, yields a correct prefix
  of its content followed by an error, never a clean end; a corrupted gzip body that is read to its end never ends cleanly with other
  than its exact content.""",
  ["fault_sequences", "crash_points", "inputs"],
  "every content x encoding x cut, corruption or read error at every byte x every fragmentation",
  "Tests decode three complete bodies from memory.",
  ["rest/content.go", "iter/gen.go", "encoding/json/parse/parse.go"],
  [("negotiation", "rest.AcceptGzip, NegotiateCSVContent, NegotiateJSONContent")])

p("C26", "Values can be shared for reading",
  """An operation that is not documented to change what it is given, or to return a view of it, leaves it exactly as it was. So any number of threads may, at the same
  time and without data races, read, convert, compare, search, print, write, iterate, collect or compute with one shared value (a JSON value or path,
  decimal, big number, slice, map, text, union, optional, result, tuple, range, predicate, composed function or type), and each gets the result that an
  equal value of its own gives. A copy, a converted or computed number and a collected slice or map belong to their
  receiver: changing them changes neither the original nor anyone else's result.""",
  ["schedules", "histories"],
  "every value x every set of reading operations x every interleaving of the threads that share it",
  "Tests use each value once, in one goroutine, and look at the result only, never at what the operation was given.",
  ["conv/conv.go", "conv/bigint.go", "stream/stream.go", "math/decimal.go", "math/math.go", "encoding/json/value.go", "encoding/json/search.go", "encoding/json/write/write.go", "funcs/funcs.go", "iter/gen.go", "io/writer/gen.go", "union/union.go", "reflect/reflect.go"],
  [("conversions", "conv.To, AnyTo, ToBigOps, ReflectTo"), ("streams of big numbers", "stream.AbsBigOps, SumBigOps, AvgBigOps"), ("JSON values", "json.Value, json.ParsePath, write.Write"), ("collections", "funcs, iter.OfSlice, iter.OfMap")])

# ---- properties this technique cannot decide: pure functions of their arguments
p("N01", "Numeric and text conversions are exact or refused",
  "Converting a value between any two supported numeric, big number or text types either yields the mathematically identical value or reports an error; it never truncates, wraps or rounds silently.",
  ["inputs"], "every value of every source type x every target type",
  "Tests sample boundary values per type pair.", ["conv/conv.go", "conv/int.go", "conv/float.go"], [("conversions", "conv.To and friends")])
p("N02", "Decimal arithmetic is exact or reports overflow",
  "Decimal addition, subtraction, multiplication, division, rounding and comparison give the exact or correctly rounded decimal result, or report overflow; printing and parsing a decimal round-trips.",
  ["inputs"], "every pair of decimals and scales", "Tests use fixed examples.", ["math/decimal.go"], [("decimal", "math.Decimal")])
p("N03", "Integer math detects every overflow",
  "Checked integer addition, subtraction, multiplication, division and absolute value yield the exact result or an error for every pair of operands of every width.",
  ["inputs"], "every operand pair", "Tests sample boundaries.", ["math/math.go"], [("checked math", "math.AddInt, SubInt, Mul, Div")])
p("N04", "Numeric ranges never leave their bounds",
  "A bounded range value never holds a value outside its bounds, and rejects an assignment that would take it there.",
  ["inputs", "histories"], "every bound pair and assignment sequence", "Tests use fixed bounds.", ["math/range.go"], [("range", "math.Range")])
p("N05", "Unions, optionals and results hold exactly one alternative",
  "A union, optional or result reports exactly the alternative it was set to and refuses access to any other.",
  ["inputs", "histories"], "every alternative and access", "Tests cover examples.", ["union/union.go", "union/reflect/reflect.go"], [("union", "union.*")])
p("N06", "JSON text that violates the grammar is rejected",
  "Every text that is not a JSON document (stray commas, missing values, leading zeros, trailing text) is reported as an error, never given a value.",
  ["inputs"], "every text", "Tests cover a few malformed texts.", ["encoding/json/parse/parse.go", "encoding/json/parse/lex.go"], [("grammar", "parse.parse*")])
p("N07", "JSON paths find exactly the elements they denote",
  "Searching a JSON value by path returns exactly the elements the path denotes, and an error for a malformed path.",
  ["inputs"], "every path and value", "Tests cover examples.", ["encoding/json/search.go"], [("search", "json.ParsePath")])
p("N08", "Slice, map and function helpers keep their algebraic laws",
  "Collection helpers (add, remove, reverse, sort, flatten, copy, lookup, composition of predicates) return what their documentation says for every argument.",
  ["inputs"], "every argument", "Tests cover examples.", ["funcs/funcs.go"], [("helpers", "funcs.*")])
p("N09", "Reflection helpers classify and convert types correctly",
  "Type resolution, dereferencing, kind classification and struct field discovery give the answer Go's type rules define for every type.",
  ["inputs"], "every type", "Tests cover examples.", ["reflect/reflect.go", "strukt/reflect.go", "conv/struct.go"], [("helpers", "reflect.*, strukt.*")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
