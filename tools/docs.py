#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json
import re

PROPS = []
TECH = "model-based verification with TLA+ (TLC): behaviours of the specification replayed into the real code, recorded traces of the real code validated against the specification"


def P(id, title, statement, over, text, why, files, mech, observe, note, tech=None, level="model_checking"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, tech=tech or TECH, level=level))


NOTE = "Sound on what it runs: every verdict is a comparison of what the real code returned with what the specification allows. Trusted: TLC, the Go toolchain, the encoding of results in the driver. Bounds: "

P("C01", "Events reach exactly the registered receivers, each once, in order",
  "Sending data calls every registered receiver exactly once per registration, in ascending order of the ids and within an id in the order of registration, hands each receiver what the receiver before it returned, and returns what the last one returned (the data itself if there is none). Registering a receiver for an id, removing the first occurrence or all occurrences of a receiver from an id, and removing an id change the registrations exactly as asked, whatever was registered and removed before, and leave other ids and receivers as they were. Receivers may do so, and send other events, while they process an event: everything that was registered before the send and is not removed during it is still called exactly once, in order.",
  ["histories"], "all histories of register, remove, remove-id and send calls over any ids and receivers",
  "The tests run a handful of fixed histories; the guarantee is about every history, and the ordered containers it depends on fail only after particular insertion orders.",
  ["event/event.go", "funcs/funcs.go"],
  [("ordered registry of receivers per id", "event.Registration, event.RemoveRegistration, event.Send"), ("insertion into the ordered containers", "funcs.OrderedMapPut, OrderedTuple2SliceAdd, SliceRemoveUncomparable")],
  ["results of Send; the calls receivers see"], NOTE + "registries of 3 ids and 2 receivers exhaustively, all small registries with all calls receivers make during a send, random histories of 43 calls over 12 ids and 8 receivers. What is registered or removed during a send may or may not be delivered to by that send. Functions made by the same function literal are told apart by their code only: a known finding.")

P("C02", "Iterators follow their protocol over every history of calls",
  "An iterator delivers the values of its iterating function in order, returns values handed back by unread first (the last unread first, also after the end), and once the function returned an error (end of iteration or any other) keeps returning that error with a zero value and never calls the function again. Concatenation delivers the elements of its non-nil parts in order, goes on to the next part only at the end of iteration, and stops for good at any other error; replacing an error replaces exactly the first error; converting the result of a call to a single value loses neither value nor error.",
  ["histories"], "all sequences of next and unread calls on iterators, their parts and wrappers, over all scripts of values and errors of the underlying function",
  "Tests call each iterator a few times in the expected way; the protocol has to hold for any interleaving of next and unread, after errors, and across nested iterators.",
  ["iter/iter.go", "iter/gen.go", "union/union.go"],
  [("unread buffer, remembered error", "iter.IterImpl.Next, Unread"), ("concatenation", "iter.ConcatIterGen"), ("error replacement", "iter.SetError"), ("single result", "iter.Maybe")],
  ["results of Next; number of calls of the iterating function"], NOTE + "every sequence of 5 (thorough 7) calls over concatenations of two scripted parts; random histories of up to 50 calls over up to 5 parts.")

P("C03", "In-memory sources iterate exactly their elements",
  "An iterator over a slice, a list of values, one value, nothing, a map, the runes of a string, or the rows of a CSV document delivers exactly the elements of that source, each once and in the order of the source (any order for a map), and then ends. A CSV document that is malformed, or whose reader fails, delivers the rows before that place and then the error, not the end. An infinite iterator delivers its initial values followed by the values its function makes of the value before, and the Fibonacci iterator the Fibonacci numbers.",
  ["inputs"], "all slices, maps (including nil keys and values of interface types), initial values, and CSV documents, well formed or not, read from any reader",
  "Tests iterate a few short sources; elements can be lost or repeated only for particular lengths, or fail only for particular values such as nil interfaces.",
  ["iter/gen.go", "iter/iter.go"],
  [("generators of iterating functions", "iter.SliceIterGen, MapIterGen, InfiniteIterGen, FibonacciIterGen, CSVIterGen, SingleValueIterGen, NoValueIterGen")],
  ["results of Next"], NOTE + "all sources over small alphabets up to 4 (thorough 6) elements; random sources.")

P("C04", "Decoding a reader does not depend on how the reader delivers its bytes",
  "Iterating a reader as bytes, as UTF-8 runes or as lines delivers exactly the bytes, the runes, or the lines (ended by CR, LF or CRLF; without their ends) of its content, whatever portions the reader delivers the bytes in and whichever legal way it reports its end, including no bytes without an error and bytes together with an error. Content that is not valid UTF-8 yields an error at that position, the error of a reader is passed on after everything before it has been delivered, both are repeated by further calls, and a reader that can be closed is closed at its end.",
  ["inputs", "fault_sequences"], "all byte contents, all ways to divide them into reads, and all ways for the reads to end or fail",
  "Tests read a few strings through readers that return everything at once; the defects that matter depend on where reads are divided and how they end.",
  ["iter/gen.go", "iter/iter.go"],
  [("byte reading with error handling", "iter.ReaderIterGen"), ("UTF-8 decoding", "iter.ReaderAsRunesIterGen"), ("line splitting", "iter.ReaderAsLinesIterGen")],
  ["results of Next; reads and closes the reader sees"], NOTE + "every content over boundary bytes up to length 4/5 (thorough 5/7), random contents of up to 56 bytes in random portions.")

P("C05", "Composed streams deliver what their transforms mean as list functions",
  "Applying any composition of the stream transforms (map, filter, reduce, boolean reductions, conversions to and from slices and maps, skip, limit, peek, distinct, duplicate, reverse, sorts, minimum, maximum, sum, count) to a source delivers exactly the elements that the same functions on finite lists would deliver, ending with the end of iteration or with the first error that arises, and reductions deliver one result. A composition can be kept and applied to any number of sources, read in any interleaving, and every application starts with fresh state.",
  ["inputs", "histories"], "all compositions of transforms, all sources including ones that fail midway, all interleavings of reading several applications of one composition",
  "Tests apply single transforms, and a few compositions, to a few sources; the number of combinations is unbounded and state leaking between applications shows only when a composition is used again.",
  ["stream/stream.go", "iter/iter.go", "funcs/funcs.go"],
  [("lazy transforms on top of iterators", "stream.Map, MapError, Filter, Reduce, ReduceTo, ReduceToBool, ReduceToSlice, ReduceIntoSlice, ExpandSlices, ReduceToMap, ExpandMaps, Skip, Limit, Peek"), ("fresh state per application", "stream.Generator, Distinct, Duplicate"), ("eager transforms", "stream.Reverse, SortOrdered, SortBy")],
  ["results of Next on the composed iterators"], NOTE + "all compositions of up to two of 42 transforms over sources of up to 2 (thorough 3) elements; random compositions of up to 5 transforms over up to 3 interleaved sources of up to 14 elements, ints as elements.")

P("C06", "Streams read no further and call no more than needed, in order",
  "Every call for the next element of a composed stream pulls only as many elements from the source as needed for its result: one for one in elementwise transforms, until the first hit in filters, none beyond the limit, until the outcome is decided in boolean reductions, all of them only in reductions; reversing and sorting read the source when they are applied. The functions the client passes are called exactly once for each element that reaches their transform, in the order of the elements and from the first transform to the last for each of them, and neither the source nor the functions are called again after the end or an error.",
  ["inputs", "histories"], "all compositions of transforms, all sources including failing ones, all interleavings of reading several applications",
  "No test looks at how often the source and the functions are called; over-reading breaks infinite, interactive and shared sources, and the results look the same.",
  ["stream/stream.go", "iter/iter.go"],
  [("one pull per element", "stream.Map, MapError, Filter, Skip, Limit, Peek, ExpandSlices, ExpandMaps"), ("short circuit", "stream.ReduceToBool, AllMatch, AnyMatch, NoneMatch"), ("error memory", "iter.IterImpl.Next")],
  ["calls of the source's iterating function and of the client's functions during every call of Next"], NOTE + "as for C05.")

P("C07", "Stream aggregates and sorts are right for all numeric types and values",
  "Sum, average, minimum, maximum, absolute value, count and the sorts give the mathematically right result for the elements of every supported type: averages of integers are rounded to the nearest integer with halves away from zero, an average whose running sum leaves the range of the type and an absolute value that does not exist are errors rather than wrong numbers, big.Int and big.Rat results are exact and big.Float averages are right to the last bits, and sorting rearranges the elements into ascending order. Empty sources have no result except a count of zero, the error of a failing source is passed on, and the elements of the source are left as they were.",
  ["inputs"], "all finite sequences of values of the integer, floating point, complex, string and big number types",
  "Tests use a few small numbers; overflow, rounding and precision fail only for particular values and types.",
  ["stream/stream.go", "math/math.go", "conv/conv.go", "funcs/funcs.go"],
  [("checked sums and rounded division", "stream.AvgInt, AvgUint, AvgBigOps; math.AddInt, AddUint, Div, DivBigOps"), ("fold", "stream.Sum, SumBigOps, Min, Max, MinCmp, MaxCmp, Count"), ("sorts", "stream.SortOrdered, SortComplex, SortCmp, SortBy; funcs.SliceSort*")],
  ["results of the resulting iterators; the source's elements afterwards"], NOTE + "all sequences of up to 3 boundary values of 4 (thorough 11) types; random sequences of up to 39 values of 18 types. NaN, infinities and sums that overflow are not covered (unspecified).")

P("C08", "Parallel streams give the same result whatever the schedule",
  "A parallel stream delivers the concatenation, in source order, of what the transforms make of each of the consecutive buckets its source is divided into, for every scheduling of its threads, every way of dividing (a number of threads, a number of items, or the square root when neither is given, clipped to sensible values) and every kind of transform, including ones that drop, multiply or combine elements or change their type. If buckets fail, the error of the first such bucket is returned and no elements; if the source fails, its error; an empty source gives an empty stream.",
  ["schedules", "inputs", "configurations"], "all interleavings of the threads, all sources, all ways of dividing them, all thread-safe compositions of transforms",
  "Tests run one-to-one transforms under whatever schedule the machine happens to choose and cannot enforce others.",
  ["stream/stream.go"],
  [("dividing into ranges", "stream.generateRanges"), ("one goroutine per range, joined by a wait group", "stream.Parallel")],
  ["results of the resulting iterator"], NOTE + "all interleavings for sources of up to 5 (thorough 6) elements and 9 ways of dividing, enforced on the real goroutines; random compositions and sources under the race detector. For N threads and N or fewer elements documentation and code differ (one thread, or one per element): both are accepted.")

P("C09", "Parsing JSON accepts exactly the JSON documents and yields their values",
  "Parsing a reader succeeds exactly if its content is a JSON document as RFC 8259 defines it (valid UTF-8; an object or array with nothing but whitespace around it; no duplicate keys in an object) and yields the value it denotes, with all escapes decoded and the text of numbers kept as it is; anything else, including a truncated document and a reader that fails anywhere, yields an error (the error of the reader, if that is what ended it) and no value, and never a panic. The result does not depend on the portions in which the reader delivers its bytes.",
  ["inputs", "fault_sequences"], "all byte contents, all ways to divide them into reads, and all ways for the reads to end or fail",
  "The tests cover each branch of the lexer and parser once; whether exactly the language is accepted is a statement about every text.",
  ["encoding/json/parse/parse.go", "encoding/json/parse/lex.go"],
  [("tokens", "parse.lex, lexString, lexNumber, lexBooleanNull"), ("grammar", "parse.Parse, parseValue, parseObject, parseArray")],
  ["results of Parse"], NOTE + "all viable texts over the tokens of arrays, objects, numbers and strings up to 3 to 10 (thorough 4 to 11) tokens and up to two tokens beyond; random documents of up to 90 (some 400) bytes, intact and damaged. Which of several errors is returned is not fixed.")

P("C10", "Iterating a JSON document delivers its elements as soon as they are there",
  "Iterating an array document delivers the values of its elements in order, exactly those that parsing would yield, and ends only when the document is complete; iterating an object document delivers that one value. Every element is delivered without waiting for more of the reader than what tells where the element ends. A document that turns out to be invalid, truncated, or whose reader fails ends with an error after the elements before that place, and the end or error is repeated.",
  ["inputs", "fault_sequences"], "all byte contents, all ways to divide them into reads, and all ways for the reads to end or fail",
  "The tests iterate short complete documents from readers that have everything at once, where neither reading ahead nor the place of an error shows.",
  ["encoding/json/parse/parse.go", "encoding/json/parse/lex.go", "iter/gen.go"],
  [("iteration of the top level array", "parse.Iterate, parseArray"), ("tokens and runes on demand", "parse.lexer, iter.ReaderAsRunesIterGen")],
  ["results of Next; reads the reader sees"], NOTE + "as for C09 with shorter texts, every byte delivered on its own.")

P("C11", "Written JSON is valid and denotes the value that was written",
  "Writing a value writes one JSON text that denotes exactly that value: strings and keys with whatever characters are escaped as needed, numbers keep their text, every member and element is there once. If the writer fails, its error is returned, what was written up to there is the beginning of such a text, and nothing more is written.",
  ["inputs", "fault_sequences"], "all JSON values, and all places where the writer may fail",
  "Tests write a few values without special characters to writers that do not fail.",
  ["encoding/json/write/write.go", "io/writer/writer.go"],
  [("recursive writing", "write.Write, WriteObject, WriteArray")],
  ["what the writer receives; the result of Write"], NOTE + "all strings of special characters and small structures with every place to fail; random values up to depth 3.")


P("C12", "JSON values are exactly the Go values they are made from, and paths find them",
  "Converting a Go value (any nesting of maps, slices, strings, booleans, nil, and numbers of all types) to a JSON value yields the JSON value that denotes it, with numbers kept exactly, and taking it apart again yields the same elements; a Go value that JSON cannot represent, at whatever depth, yields an error and no value. A path is accepted exactly if it consists of keys and indexes as documented, its function applied to a value, any number of times, returns the element that its steps lead to, one after the other, and an error if there is none.",
  ["inputs", "histories"], "all trees of Go values, all texts as paths, all sequences of values a path is applied to",
  "Tests convert a few values of each type and look up a few paths; conversion is recursive over types whose combinations are unbounded.",
  ["encoding/json/value.go", "encoding/json/search.go"],
  [("conversion by kind", "json.ToValue, FromValue, MapToValue, SliceToValue, FromNumber"), ("taking apart", "json.Value.AsX, ToMap, ToSlice, ToAny"), ("path grammar and walk", "json.ParsePath")],
  ["results of conversions, of ParsePath and of the functions it returns"], NOTE + "all trees of depth 1 (thorough 2) around every kind of leaf, all paths of up to 4 (thorough 6) characters and 3 (4) pieces; random trees up to depth 3, paths, and damaged paths.")

P("C13", "Writers write every value completely, in order, or report an error",
  "Writing values to a slice, a map, or a destination of bytes (as bytes, runes, strings or lines) hands all of them to the destination in order and completely, and returns no error only then. If the destination fails, or takes fewer bytes than it was given without saying so, an error is returned (the destination's own if there is one), nothing of the later values of that call is written, and the next call writes again.",
  ["histories", "fault_sequences"], "all sequences of writes of any values, all places and ways for the destination to fail",
  "Tests let the destination fail between values; partial writes of a value, and failures that pass, are not tried.",
  ["io/writer/writer.go", "io/writer/gen.go"],
  [("write until an error", "writer.WriterImpl.Write"), ("short writes are errors", "writer.IOWriterGen, IOWriterAsRunesGen, IOWriterAsStringsGen, IOWriterAsLinesGen"), ("containers", "writer.SliceWriterGen, MapWriterGen")],
  ["results of Write, what the destination received"], NOTE + "all sequences of 2 (thorough 4) writes of few values with up to two failures at every place; random values with up to three failures. Line ends of other operating systems than this one are not covered.")

P("C14", "Error readers and writers fail exactly where they are told to",
  "An error reader delivers exactly its input, whatever sizes the reads ask for, no bytes and its error from then on, and touches nothing of the buffer beyond what it delivers. An error writer accepts exactly the number of bytes it is to allow, taking what still fits of a write that is larger, returns no bytes and its error from then on, and shows exactly the bytes it accepted.",
  ["histories"], "all inputs, all sequences of reads and writes of any sizes",
  "Tests read and write in one or two sizes; the library's own tests of failing readers depend on these being right.",
  ["io/io.go"],
  [("position in the input", "io.ErrorReader.Read"), ("room left", "io.ErrorWriter.Write, Output")],
  ["results of Read and Write, the buffers"], NOTE + "all sequences of up to 4 (thorough 5) reads or writes of up to 4 (5) bytes; random histories of 12 calls.")

P("C15", "Requests reach the first matching handler, also while handlers are added",
  "A request is served by the handler of the first registration whose method is its method and whose pattern matches its path, called once with the matched parts of that pattern; if patterns match but only for other methods the answer is 405, else 404. Registering without a method, pattern or handler, or with an invalid pattern, is an error and changes nothing. Registrations can be made at any time, by handlers and by other threads while requests are being served: a request sees all that were made before it, and possibly some that are made during it, in order.",
  ["histories", "schedules", "inputs"], "all tables of registrations, all requests, all interleavings of registering and serving",
  "Tests route a few requests in a fixed table from one thread.",
  ["rest/rest.go"],
  [("flat table scanned in order", "rest.ServeMux.ServeHTTP"), ("registration", "rest.ServeMux.Handle")],
  ["handlers called, the parts they get, the status of the response"], NOTE + "all tables of 2 (thorough 3) registrations of 16 kinds with 36 requests; random tables and requests, registrations by other threads under the race detector. Patterns are combinations of literals and of groups for segments, numbers and UUIDs; regular expressions in general are those of the standard library.")

P("C16", "Request content is decompressed and read as what it says it is",
  "A body that the request says is compressed with gzip is read as the content before compression (all of it, also if there are several members), any other body as it is. The rows of a CSV body, and the values of a JSON body, are delivered exactly as written, and only if the type of the content is that type; otherwise there is no iterator.",
  ["inputs"], "all bodies, compressed or not, delivered in any portions, all types of content",
  "Tests read one body of each kind.",
  ["rest/content.go", "iter/gen.go", "encoding/json/parse/parse.go"],
  [("decompression", "rest.AcceptGzip"), ("content types", "rest.NegotiateCSVContent, NegotiateJSONContent")],
  ["bytes read, results of Next"], NOTE + "all small bodies with all types; random bodies, rows and documents. All short texts as CSV, malformed ones included. A body that is no gzip though the request says so, and types with parameters, are not covered.")


P("C17", "The value of a range is always within its bounds",
  "A range can be made exactly if its minimum is less than its maximum and the initial value lies within, where an open bound is excluded and a closed one included, else making it panics. A value can be set exactly if it lies within, else an error is returned and the value stays as it is. The bounds never change. This holds for all integer and float types, including infinities and NaN, which is within no range and no bound of one.",
  ["inputs", "histories"], "all bounds of all types, all sequences of values that are set",
  "Tests set a few small values.",
  ["math/range.go"],
  [("the bounds", "math.OfRange"), ("comparisons by mode", "math.Range.SetValue")],
  ["results of OfRange, SetValue, GetValue, GetMin, GetMax"], NOTE + "all ranges between 5 to 7 points of 5 types with 1 (thorough 3) values set; random ranges of 12 types.")

P("C18", "Decimal arithmetic is exact or rounded once, never wrong without an error",
  "A decimal is an integer of at most 18 digits divided by a power of ten of at most 18; no operation yields another one. Sums and differences are exact after the scales are aligned, which rounds the decimal with more decimals, half away from zero, only if the other has no room for them. Products and quotients are the exact result, rounded once, half away from zero, to the decimals there is room for. A result whose integer part has more than 18 digits is an overflow or underflow error, division by zero an error. Dividing by a natural number yields quotient and remainder, or parts that differ by at most one unit of the last place, which add up exactly to the dividend. Comparing is numeric. Text is parsed exactly if it is a number of at most 18 digits, and printing a decimal yields text that denotes the same decimal. Results of a normalized decimal are normalized.",
  ["inputs", "histories"], "all decimals, all sequences of operations on them and their results",
  "Tests compute a few dozen results; rounding and overflow depend on the digits of both operands.",
  ["math/decimal.go"],
  [("aligning scales", "math.AdjustDecimalScale"), ("limits of sums", "math.addDecimal"), ("rounding", "math.Decimal.Mul, Div"), ("spreading a remainder", "math.Decimal.DivIntQuoRem, DivIntAdd"), ("text", "math.StringToDecimal, Decimal.String, AdjustDecimalFormat, Cmp"), ("normal form", "math.Decimal.Normalize")],
  ["texts, scales and errors of the results"], NOTE + "all pairs of 16 boundary coefficients with 3 (thorough 6) scales through all operations, all texts of up to 4 (6) characters that matter; random histories of 14 operations. Errors are also allowed where the documentation has them: dividing by a coefficient of more than 10^17, aligning with a coefficient that is too large to round.")

P("C19", "Checked arithmetic is exact, or reports that the result leaves the type",
  "Adding, subtracting, multiplying and dividing integers of every type, also types defined on these, and taking absolute values, yields the exact result (a quotient is rounded to the nearest integer, halves away from zero) or, if that does not fit the type, an overflow error if it is too large, an underflow error if it is too small; dividing by zero is an error. A quotient of floats, also big floats, is the exact one rounded once to nearest, with infinities, signed zeros and NaN as in IEEE 754, except that NaN of big floats is an error; division of big numbers allocates the quotient where none is given, and leaves the operands as they are except one that is also the quotient. Comparisons, minimum and maximum agree with the order of the values, of complex numbers with that of their magnitudes.",
  ["inputs"], "all operands of all integer types",
  "Tests calculate a few results for each type.",
  ["math/math.go"],
  [("wrap-around detection", "math.AddInt, AddUint, SubInt, SubUint"), ("exact product", "math.Mul"), ("rounding division", "math.Div, DivBigOps"), ("order", "math.CmpOrdered, MinOrdered, MaxOrdered, CmpComplex, MinCmp, MaxCmp")],
  ["results and errors"], NOTE + "all pairs of operands of the 8 bit types, all pairs of some 25 boundary values of the others, and of types defined on them; all quotients of some 20 boundary floats of each type, in a new number, one given, or an operand; random operands whose results are next to the bounds and to halves.")


P("C20", "A conversion yields the same value, or an error",
  "Converting between the integer types (also types defined on these), floats, big.Int, big.Float, big.Rat and string, yields the same value if the target type has it, else an error. Rounding occurs only where it is documented: float64 to float32 within its range (to a nearest float32), and big.Float as the target of ratios and decimal text. Infinities and NaN convert only to types that have them. The text of a number is canonical and denotes the same number; text that is not a number of the target type is an error. The result of a conversion never shares memory with its source, nor changes a number that the target referred to.",
  ["inputs"], "all values of all types, all target types, all texts",
  "Tests convert a few easy values per pair of types.",
  ["conv/conv.go", "conv/int.go", "conv/float.go", "conv/bigint.go", "conv/bigfloat.go", "conv/bigrat.go", "conv/string.go"],
  [("table of conversions", "conv.convertFromTo, To, AnyTo, ToBigOps, ReflectTo"), ("range checks", "conv.IntToInt, UintToInt, IntToUint, UintToUint, FloatToInt, FloatToUint"), ("exactness", "conv.IntToFloat, BigIntToFloat32, ..."), ("precision", "conv.StringToBigFloat, BigRatToBigFloat, UintToBigFloat")],
  ["results and errors, the source after the result was changed in place"], NOTE + "some 900 boundary values of all 16 types to all types through two (thorough five) functions, all texts of up to 4 (5) characters that matter to 8 types; random values through all functions, including those for single pairs of types. Open: text in other bases or with separators, and text of decimals no float has (error or nearest). Platform is linux/amd64.")

P("C21", "Unions, optional values and results hold exactly what was put in",
  "A value of one of several types says which one it is, gives the value of that one, and panics when asked for another. A Maybe is present exactly if it was last set to a value that is not nil; getting an empty one panics, defaults and mappings apply exactly when documented, and SetOrError never overwrites. A Result is a value or an error, never both. Iterating yields the one value or nothing. A copy is independent of what it was copied from, and the zero value is that of the first member, empty, or a zero result. Access by reflection, through any number of pointers of which any may be nil, reads and changes the same Maybe, reports what is no accessible Maybe or no value of its type, and never panics.",
  ["inputs", "histories"], "all sequences of setting, copying and reading, all types of values, nil included, all chains of pointers",
  "Tests construct a few values and read them once; reflection is tested with at most two pointers and values of the right type.",
  ["union/union.go", "union/reflect/reflect.go"],
  [("selected member", "union.Two, Three, Four"), ("presence", "union.Maybe"), ("exclusive value or error", "union.OfResultError, Result"), ("accessible or not", "union/reflect.safeMaybeAccess, GetMaybeValue, SetMaybeValue")],
  ["results and panics of all methods"], NOTE + "all sequences of 2 (thorough 3) changes of two variables of 6 kinds and several types, then everything is read; the same through 10 ways to refer to a Maybe; random histories of 15 calls.")

P("C22", "Slice, map and ordered pair functions do what plain slices and maps do",
  "Functions on slices return what is documented without changing their arguments (unless they are meant to), also beyond the length of a slice: adding, copying, flattening any number of dimensions, indexing with defaults and from the end, removing one or all, reversing, sorting by each kind of key. Functions on maps of one, two and three levels, on maps of slices and on sorted slices of pairs behave as maps from keys to values: after any sequence of setting, removing and adding, exactly the entries that are to be there are there, empty levels come and go unseen, sorted access is in the order of the keys, and a slice once taken from a map is not changed by a removal.",
  ["inputs", "histories"], "all slices, all sequences of changes of all kinds of maps",
  "Tests call each function on one or two examples; aliasing and the effect of a history of changes go unobserved.",
  ["funcs/funcs.go"],
  [("slices", "funcs.SliceFlatten, SliceRemove, SliceReverse, SliceSort..."), ("maps", "funcs.MapSet, Map2Set, MapSliceAdd, MapSliceRemove..."), ("sorted pairs", "funcs.OrderedTuple2...")],
  ["results, arguments afterwards including their spare capacity, the entries of the map after every call"], NOTE + "all slices of up to 3 (thorough 4) small values; all sequences of up to 4 changes of every kind of map; random histories of 26 calls. Open: searching a key that is less than all others; NaN.")

P("C23", "Function combinators call what they should, once, in order",
  "A conjunction, disjunction or negation of filters is the logical one and calls no more filters than it needs, in order, however they are nested. Composed functions are applied in order, each once. Of two alternatives only the chosen one is called. A cached supplier calls its function at most once, also when several threads call it at a time, and all get that value. Trying calls every closer in reverse order whatever panics or exits, then the handler with the last panic, if there is one. Converting values of unknown type to slices and maps yields all elements or an error. Tests for nil, zero and empty agree with the values of every type, and their asserting variants panic exactly when they fail. Names change between camel and snake case without losing characters.",
  ["inputs", "schedules"], "all nestings of filters, all panics and exits at any place, all interleavings, all values, all names",
  "Tests use one or two filters, one thread, and names of two plain words.",
  ["funcs/funcs.go"],
  [("short circuit", "funcs.And, Or, Not"), ("composition", "funcs.Compose..."), ("at most once", "funcs.SupplierCached"), ("deferred closers", "funcs.TryTo"), ("conversion", "funcs.ConvertToSlice, ConvertToMap, AssertType"), ("names", "funcs.SnakeToCamelCase, CamelCaseToSnakeCase")],
  ["results, order of the calls, panics"], NOTE + "all filters of depth 2 with up to 3 (thorough 5) parts, all combinations of up to 3 (6) closers that return, panic or exit, all names of up to 4 (6) characters of each class; random ones under the race detector. Open: a supplier that panics.")

P("C24", "What reflection says of types and values is true, and nil never panics",
  "For every type and every value, with any number of pointers of which any may be nil: dereferencing yields what the pointers lead to, or nothing if one of them is nil; the questions whether it is numeric, signed, big, primitive, nillable or nil are answered by its kind; a subtype of a primitive type converts to that type with the same value; an interface resolves to what it holds; asserting a type is no error exactly if the value, or what the interface holds, is of that type. Setting through pointers stores the converted value where they lead, or panics and changes nothing. The fields of a struct are found by their names.",
  ["inputs"], "all types, named or not, all values, all chains of pointers with nil at any place",
  "Tests use one or two pointers, none of which is nil, and a few types.",
  ["reflect/reflect.go"],
  [("dereferencing", "reflect.DerefType, DerefValue, DerefValueMaxOnePtr..."), ("classification", "reflect.IsNumeric, IsBigPtr, IsNillable, IsNil, IsPrimitive"), ("resolution", "reflect.ResolveValueType, TypeAssert"), ("base types", "reflect.TypeToBaseType, ValueToBaseType"), ("storing", "reflect.SetPointerValue"), ("fields", "reflect.FieldsByName, GetFieldByName")],
  ["results, errors and panics"], NOTE + "28 base types, named and not, with up to 2 (thorough 4) pointers and nil at every level, through every function; random ones with up to 5 pointers.")


P("C25", "A generator changes nothing outside its base and loses nothing within it",
  "Setting the base path once makes an empty directory there, whatever a previous run left in it, and panics if it is not possible or done before. Directories and source files are created exactly where they are asked for: below the base, and in the directory made last; each can be created once, however its name is spelled. Text written to a source file is appended to that file, also after another one was created. A call that cannot do what it is asked panics and changes nothing (except that the base may be wiped in part): neither files nor the current directory or file. Nothing outside of the base is ever created, changed or removed, nor what links within the base refer to; and nothing generated is lost until the base is set by a new generator.",
  ["histories", "inputs"], "all sequences of calls, by one generator after another, on all trees of files that are there before, with directories that can and cannot be changed, all spellings of paths",
  "There are no tests of the generator; what it does depends on the history of calls and on the files it finds.",
  ["code/api.go"],
  [("wiping the base", "code.BaseGenerator.SetBasePath"), ("directories made once", "code.BaseGenerator.Dir"), ("source files made once", "code.BaseGenerator.Src, CurrentSrc")],
  ["panics, and the whole tree of files after every call"], NOTE + "all sequences of 3 calls on 6 trees, one of whose directories becomes read only at any time (thorough: 4 calls without), all of 5 (6) with a single name; random histories of 28 calls on random trees with links and directories that become read only and writable again. Runs as an unprivileged user. Open: a child created before its parent; names that lead out of the base; use after setting the base failed.")

P("C26", "Code models and tuples have exactly the parts they were made of",
  "The types of the code model are scalar or aggregate and its operators unary, binary or boolean, each exactly one of these, and all differ. A type, value or expression that is constructed has exactly the parts given for it, the first level of access given or the default, and no other parts; construction panics if a needed part is missing. A tuple has the values it was made of, in order, and shows them in this order.",
  ["inputs"], "all combinations of parts, present or missing, and of levels of access",
  "Tests construct one example of most sorts and look at few of the parts.",
  ["code/types.go", "code/statements.go", "tuple/tuple.go"],
  [("types", "code.OfScalarType, OfArrayType, OfMapType..., IsScalar, IsAggregate"), ("values", "code.OfLitVal, OfVarVal"), ("expressions", "code.OfUnaryExpr, OfBinaryExpr, OfBooleanExpr, Operator.IsUnary..."), ("tuples", "tuple.Of2, Of3, Of4, Values, String")],
  ["all fields of what was constructed, panics"], NOTE + "every construction from 3 parts or none, all levels of access, expressions with up to 4 (thorough 5) values; random ones. An object type without a base type panics, as coded.")


def three(s):
    """At most three sentences."""
    parts = re.split(r"(?<=\.)\s+(?=[A-Z])", s)
    groups = [parts[i * len(parts) // 3:(i + 1) * len(parts) // 3] for i in range(3)]
    low = lambda t: t[0].lower() + t[1:]
    return " ".join("; ".join([g[0].rstrip(".") if len(g) > 1 else g[0]] + [low(t).rstrip(".") for t in g[1:-1]] + ([low(g[-1])] if len(g) > 1 else [])) for g in groups if g)


def write():
    with open("/verif/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": three(p["statement"]), "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "true",
         "checks": [{"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                     "technique": p["tech"], "level": p["level"], "level_note": p["note"]} for p in PROPS],
         "not_applicable": NA,
         "notes": "No hooks in /repo: everything is observed through the public API. Each check builds its driver from /repo's working tree."}
    with open("/verif/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


NA = []
write()
