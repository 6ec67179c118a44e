exec(open('/verif/tools/seeddefs/pre.py').read())
S="stream/stream.go"; I="iter/iter.go"; G="iter/gen.go"; L="encoding/json/parse/lex.go"; P="encoding/json/parse/parse.go"; R="rest/rest.go"; M="math/math.go"; CF="conv/float.go"; CI="conv/int.go"; W="io/writer/gen.go"; U="union/union.go"
SEEDS=[
dict(id="c02-unread-after-problem", property="C02", needs="a value is unread after the iter returned a problem (not EOI)",
 breaks="the unread value is dropped",
 edits=[(I,'''	it.buffer = append(it.buffer, val)
''','''	if (it.lastErr == nil) || (it.lastErr == EOI) {
		it.buffer = append(it.buffer, val)
	}
''')], demo='''
	bad := errors.New("bad")
	it := iter.OfIter(func() (int, error) { return 0, bad })
	it.Next()
	it.Unread(7)
	v, err := it.Next()
	want(v == 7 && err == nil, v, err)
'''),
dict(id="c02-unread-buffer-limit", property="C02", needs="nine or more values unread without a next in between",
 breaks="the oldest unread value is lost",
 edits=[(I,'''	it.buffer = append(it.buffer, val)
''','''	if len(it.buffer) == 8 {
		it.buffer = it.buffer[1:]
	}
	it.buffer = append(it.buffer, val)
''')], demo='''
	it := iter.OfEmpty[int]()
	for i := 0; i < 12; i++ {
		it.Unread(i)
	}
	r, _ := all(it)
	want(len(r) == 12 && r[11] == 0, r)
'''),
dict(id="c09-delete-char", property="C09", needs="a string that contains U+007F",
 breaks="the document is rejected",
 edits=[(L,'''		if val < ' ' {
			return zv''','''		if (val < ' ') || (val == 0x7F) {
			return zv''')], imports=["github.com/bantling/micro/encoding/json/parse"], demo='''
	it := parse.Iterate(strings.NewReader("[\\"a\\x7fb\\"]"))
	v, err := it.Next()
	want(err == nil, v, err)
'''),
dict(id="c15-method-case", property="C15", needs="a request whose method differs from a registered one in case only",
 breaks="the handler is called instead of answering 405",
 edits=[(R,'''			if method == mMethod {''','''			if strings.EqualFold(method, mMethod) {'''),(R,'''	"regexp"
	"sync"''','''	"regexp"
	"strings"
	"sync"''')], imports=["net/http","net/http/httptest","github.com/bantling/micro/rest"], demo='''
	var sm rest.ServeMux
	sm.MustHandle("GET", "^/a$", rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, p []string) {}))
	rec := httptest.NewRecorder()
	req := httptest.NewRequest("GET", "/a", nil)
	req.Method = "get"
	sm.ServeHTTP(rec, req)
	want(rec.Code == 405, rec.Code)
'''),
dict(id="c15-escaped-path", property="C15", needs="a request whose path has an escaped character",
 breaks="patterns are matched against the escaped path",
 edits=[(R,'''r.Method, r.URL.Path''','''r.Method, r.URL.EscapedPath()''')], imports=["net/http","net/http/httptest","github.com/bantling/micro/rest"], demo='''
	var sm rest.ServeMux
	sm.MustHandle("GET", "^/a b$", rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, p []string) {}))
	rec := httptest.NewRecorder()
	sm.ServeHTTP(rec, httptest.NewRequest("GET", "/a%20b", nil))
	want(rec.Code == 200, rec.Code)
'''),
dict(id="c15-last-405", property="C15", needs="two patterns match the path, the first with another method, and the second is for another method too, or a later pattern does not match",
 breaks="the answer is 404 instead of 405 when a later pattern does not match the path",
 edits=[(R,'''		if parts != nil {
			// There is at least one match for the URL, but maybe not for the method
			urlMatched = true
''','''		urlMatched = parts != nil
		if parts != nil {
			// There is at least one match for the URL, but maybe not for the method
''')], imports=["net/http","net/http/httptest","github.com/bantling/micro/rest"], demo='''
	var sm rest.ServeMux
	h := rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, p []string) {})
	sm.MustHandle("GET", "^/a$", h)
	sm.MustHandle("GET", "^/b$", h)
	rec := httptest.NewRecorder()
	sm.ServeHTTP(rec, httptest.NewRequest("PUT", "/a", nil))
	want(rec.Code == 405, rec.Code)
'''),
dict(id="c17-through-float", property="C17", needs="a range of 64 bit integers with limits above 2^53",
 breaks="values one outside the range are accepted",
 edits=[("math/range.go",'''	if (((r.minMode == Open) && (val > r.min)) || ((r.minMode == Closed) && (val >= r.min))) &&
		(((r.maxMode == Open) && (val < r.max)) || ((r.maxMode == Closed) && (val <= r.max))) {''','''	v, min, max := float64(val), float64(r.min), float64(r.max)
	if (((r.minMode == Open) && (v > min)) || ((r.minMode == Closed) && (v >= min))) &&
		(((r.maxMode == Open) && (v < max)) || ((r.maxMode == Closed) && (v <= max))) {''')], imports=["github.com/bantling/micro/math"], demo='''
	r := math.OfRange(int64(0), math.Closed, int64(1)<<60, math.Closed, int64(1))
	want(r.SetValue((int64(1)<<60)+1) != nil)
'''),
dict(id="c17-value-kept-nan", property="C17", needs="a float range and the value NaN",
 breaks="NaN is accepted as a value of a range",
 edits=[("math/range.go",'''	if (((r.minMode == Open) && (val > r.min)) || ((r.minMode == Closed) && (val >= r.min))) &&
		(((r.maxMode == Open) && (val < r.max)) || ((r.maxMode == Closed) && (val <= r.max))) {''','''	if !((val < r.min) || ((r.minMode == Open) && (val == r.min)) ||
		(val > r.max) || ((r.maxMode == Open) && (val == r.max))) {''')], imports=["github.com/bantling/micro/math"], demo='''
	r := math.OfRange(0.0, math.Closed, 1.0, math.Closed, 0.5)
	zero := r.GetValue() - r.GetValue()
	want(r.SetValue(zero/zero) != nil)
'''),
dict(id="c19-bigfloat-inf-signs", property="C19", needs="a big float infinity divided by an infinity of the other sign",
 breaks="the division panics instead of returning an error",
 edits=[(M,'''|| (debf.IsInf() && dvbf.IsInf()) {''','''|| (debf.IsInf() && (debf.Cmp(dvbf) == 0)) {''')], imports=["math/big","github.com/bantling/micro/math"], demo='''
	a, b := new(big.Float).SetInf(true), new(big.Float).SetInf(false)
	var q *big.Float
	func() {
		defer func() { want(recover() == nil, "panic") }()
		want(math.DivBigOps(a, b, &q) != nil)
	}()
'''),
dict(id="c06-peek-again", property="C06", needs="the source of Peek returns a problem after values, and Peek is read on",
 breaks="the function of Peek is called with a zero value at the problem",
 edits=[(S,'''func Peek[T any](fn func(T)) func(iter.Iter[T]) iter.Iter[T] {''','''func Peek[T any](fn func(T)) func(iter.Iter[T]) iter.Iter[T] {
	return peekFirst(fn, true)
}

func peekFirst[T any](fn func(T), problems bool) func(iter.Iter[T]) iter.Iter[T] {
	if problems {
		return func(it iter.Iter[T]) iter.Iter[T] {
			return iter.OfIter(func() (T, error) {
				val, err := it.Next()
				if err != iter.EOI {
					fn(val)
				}

				return val, err
			})
		}
	}
''')], demo='''
	bad := errors.New("bad")
	n := 0
	it := stream.Peek(func(int) { n++ })(iter.SetError(iter.Of(1, 2), bad))
	all(it)
	want(n == 2, n)
'''),
dict(id="c10-separator-first", property="C10", needs="an element of the top level array is followed by something that is not a comma or closing bracket",
 breaks="the element before the problem is not delivered",
 edits=[(P,'''			if value.Type() == json.Invalid {
				return zv, errArrayRequiresValue
			}

			return value, nil
		}

		if commaBracket.typ == tCBracket {''','''			if value.Type() == json.Invalid {
				return zv, errArrayRequiresValue
			}

			// Check what follows the value right away
			if commaBracket, err = it.Next(); (err != nil) && (err != iter.EOI) {
				return zv, err
			} else if err == nil {
				it.Unread(commaBracket)
			}

			return value, nil
		}

		if commaBracket.typ == tCBracket {''')], imports=["github.com/bantling/micro/encoding/json/parse"], demo='''
	it := parse.Iterate(strings.NewReader("[1,2 ?"))
	r, err := all(it)
	want(len(r) == 2 && err != nil, r, err)
'''),
dict(id="c10-nested-comma", property="C10", needs="a nested array or object inside of the top level array that is followed by a comma and a closing bracket",
 breaks="a comma after the last element of a nested array is accepted",
 edits=[(P,'''		if slc, err = stream.ReduceToSlice(parseArray(it)).Next(); err != nil {
			return zv, err
		}
		return json.SliceToValue(slc)''','''		if slc, err = stream.ReduceToSlice(parseArray(it)).Next(); err != nil {
			if (err != errArrayRequiresValue) || (len(slc) == 0) {
				return zv, err
			}
		}
		return json.SliceToValue(slc)'''),(P,'''			// Expect value for element, and return it
			it.Unread(tok)
			if value, err = parseValue(it); err != nil {
				// A problem - cannot be EOI
				return zv, err // Case 9
			}
			if value.Type() == json.Invalid {
				return zv, errArrayRequiresValue
			}
''','''			// Expect value for element, and return it
			it.Unread(tok)
			if value, err = parseValue(it); err != nil {
				// A problem - cannot be EOI
				return zv, err // Case 9
			}
			if value.Type() == json.Invalid {
				if (tok.typ == tCBracket) && (depth > 0) {
					return zv, iter.EOI
				}
				return zv, errArrayRequiresValue
			}
'''),(P,'''		commaBracket token
	)

	return iter.OfIter(func() (json.Value, error) {
		if first {''','''		commaBracket token
		depth        = len(nested)
	)

	return iter.OfIter(func() (json.Value, error) {
		if first {'''),(P,'''func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {''','''func parseArray(it iter.Iter[token], nested ...bool) iter.Iter[json.Value] {'''),(P,"stream.ReduceToSlice(parseArray(it)).Next(); err != nil {\n			if (err","stream.ReduceToSlice(parseArray(it, true)).Next(); err != nil {\n			if (err")], imports=["github.com/bantling/micro/encoding/json/parse"], demo='''
	_, err := parse.Parse(strings.NewReader("[[1,]]"))
	want(err != nil)
'''),
dict(id="c08-one-item-one-result", property="C08", needs="a source of one element and transforms that make several elements of it",
 breaks="only the first result is delivered",
 edits=[(S,'''			return transforms(iter.OfOne(input[0]))''','''			result, err := transforms(iter.OfOne(input[0])).Next()
			if err != nil {
				return iter.SetError(iter.OfEmpty[U](), err)
			}
			return iter.OfOne(result)''')], demo='''
	r, _ := all(stream.Parallel(func(it iter.Iter[int]) iter.Iter[int] {
		return stream.ExpandSlices(stream.Map(func(i int) []int { return []int{i, i} })(it))
	})(iter.Of(3)))
	want(len(r) == 2, r)
'''),
dict(id="c08-items-rounded-up", property="C08", needs="a bucket size of half the items or more, and not a divisor of the number of items",
 breaks="elements are lost when the remainder is a larger part than half of the bucket size",
 edits=[(S,'''			if remainder > uint(0) {
				sliceRanges = append(sliceRanges, []uint{numItems - remainder, numItems})
			}
		}
	}
''','''			if (remainder > uint(0)) && ((numThreads > 1) || (remainder*2 <= bucketSize)) {
				sliceRanges = append(sliceRanges, []uint{numItems - remainder, numItems})
			}
		}
	}
''')], demo='''
	r, _ := all(stream.Parallel(stream.Map(func(i int) int { return i }), stream.PInfo{N: 4, PUnit: stream.Items})(iter.Of(1, 2, 3, 4, 5, 6, 7)))
	want(len(r) == 7, r)
'''),
dict(id="c01-send-live", property="C01", needs="a receiver that removes itself while it processes an event, followed by another receiver of the same id",
 breaks="the receiver after it is not called",
 edits=[("event/event.go",'''	for _, idRcvrs := range r.receivers {
		for _, rcvr := range idRcvrs.U {
			val = rcvr.Process(val)
		}
	}
''','''	for i := 0; i < len(r.receivers); i++ {
		for j := 0; j < len(r.receivers[i].U); j++ {
			val = r.receivers[i].U[j].Process(val)
		}
	}
''')], demo='''
	var reg event.Registry[int, int]
	var self event.Receiver[int]
	self = event.ReceiverFunc[int](func(i int) int { reg.Remove(1, self); return i + 1 })
	reg.Register(1, self)
	reg.Register(1, event.ReceiverFunc[int](func(i int) int { return i + 10 }))
	want(reg.Send(0) == 11)
'''),
dict(id="c01-empty-id", property="C01", needs="all receivers of the smallest id removed, other ids registered",
 breaks="an event stops at an id without receivers",
 edits=[("event/event.go",'''		for _, rcvr := range idRcvrs.U {
''','''		if len(idRcvrs.U) == 0 {
			break
		}

		for _, rcvr := range idRcvrs.U {
''')], demo='''
	var reg event.Registry[int, int]
	a := event.ReceiverFunc[int](func(i int) int { return i + 1 })
	reg.Register(1, a)
	reg.Register(2, event.ReceiverFunc[int](func(i int) int { return i + 10 }))
	reg.Remove(1, a)
	want(reg.Send(0) == 10)
'''),
dict(id="c13-full-write-error", property="C13", needs="a destination that writes everything and returns an error together",
 breaks="the error is lost",
 edits=[(W,'''		p := []byte(string(val))
		if n, err := dst.Write(p); err != nil {
			return err
		} else if n < len(p) {''','''		p := []byte(string(val))
		if n, err := dst.Write(p); (err != nil) && (n < len(p)) {
			return err
		} else if n < len(p) {''')], imports=["github.com/bantling/micro/io/writer"], demo='''
	w := writer.OfIOWriterAsRunes(badWriter{})
	want(w.Write('a') != nil)
''', decl='''
type badWriter struct{}

func (badWriter) Write(p []byte) (int, error) { return len(p), errors.New("bad") }
'''),
dict(id="c14-output-shared", property="C14", needs="the caller changes the bytes it wrote after the write",
 breaks="the recorded output changes with them",
 edits=[("io/io.go",'''	w.output = append(w.output, p[:numBytes]...)
	return numBytes, nil''','''	if (len(w.output) == 0) && (numBytes > 1) {
		w.output = p[:numBytes:numBytes]
	} else {
		w.output = append(w.output, p[:numBytes]...)
	}
	return numBytes, nil''')], imports=["github.com/bantling/micro/io"], demo='''
	w := mio.NewErrorWriter(5, errors.New("bad"))
	p := []byte("ab")
	w.Write(p)
	p[0] = 'x'
	want(string(w.Output()) == "ab", string(w.Output()))
'''),
dict(id="c16-json-prefix", property="C16", needs="a content type that begins with application/json and is another one",
 breaks="a body of another type is parsed as JSON",
 edits=[("rest/content.go",'''	if r.Header.Get(contentType) == jsonContent {''','''	if strings.HasPrefix(r.Header.Get(contentType), jsonContent) {'''),("rest/content.go",'''	"net/http"
''','''	"net/http"
	"strings"
''')], imports=["net/http/httptest","github.com/bantling/micro/rest"], demo='''
	req := httptest.NewRequest("POST", "/", strings.NewReader("[1]"))
	req.Header.Set("Content-Type", "application/json-seq")
	want(rest.NegotiateJSONContent(req) == nil)
'''),
dict(id="c20-bigint-float32-double", property="C20", needs="a big int between 2^24 and 2^53 that is no float32",
 breaks="the conversion to float32 loses digits without an error",
 edits=[(CF,'''	if *oval, acc = inter.Float32(); acc != big.Exact {
		return fmt.Errorf(errMsg, ival, ival.String(), "float32")
	}

	return nil
}

// MustBigIntToFloat32''','''	var wide float64
	if wide, acc = inter.Float64(); acc != big.Exact {
		return fmt.Errorf(errMsg, ival, ival.String(), "float32")
	}
	*oval = float32(wide)

	return nil
}

// MustBigIntToFloat32''')], imports=["math/big","github.com/bantling/micro/conv"], demo='''
	var f float32
	b := new(big.Int).Lsh(big.NewInt(1), 30)
	b.Add(b, big.NewInt(1))
	want(conv.BigIntToFloat32(b, &f) != nil, f)
'''),
]
SEEDS=[s for s in SEEDS if not s.get("skip")]
exec(open('/verif/tools/seeddefs/post.py').read())
