exec(open('/verif/tools/seeddefs/pre.py').read())
S="stream/stream.go"; I="iter/iter.go"; G="iter/gen.go"; L="encoding/json/parse/lex.go"; P="encoding/json/parse/parse.go"; R="rest/rest.go"; M="math/math.go"; CF="conv/float.go"; CI="conv/int.go"; W="io/writer/gen.go"; U="union/union.go"; D="math/decimal.go"; JW="encoding/json/write/write.go"
NEST='''
type nested struct {
	data string
	n    int
	in   func()
}

func (r *nested) Read(p []byte) (int, error) {
	if r.n == len(r.data) {
		return 0, io.EOF
	}
	if r.in != nil {
		r.in()
	}
	n := copy(p[:1], r.data[r.n:])
	r.n += n
	return n, nil
}
'''
SEEDS=[
dict(id="c09-shared-string-buffer", property="C09", needs="two documents that are parsed at a time, one while the reader of the other is read in the middle of a string",
 breaks="strings of one document have characters of the other",
 edits=[(L,'''		str          = []rune{}
''','''		str          = stringRunes[:0]
'''),(L,'''// lexString lexes a string token, where''','''// stringRunes is space for the runes of a string
var stringRunes = make([]rune, 0, 64)

// lexString lexes a string token, where''')], imports=["github.com/bantling/micro/encoding/json/parse"], decl=NEST, demo='''
	r := &nested{data: "[\\"abcdef\\"]"}
	r.in = func() { parse.Parse(strings.NewReader("[\\"xyz\\"]")) }
	v, err := parse.Parse(r)
	want(err == nil && v.AsSlice()[0].AsString() == "abcdef", v, err)
'''),
dict(id="c04-shared-rune-buffer", property="C04", needs="two readers that are decoded at a time, one of them while the other delivers a rune in portions",
 breaks="a rune is made of bytes of both",
 edits=[(G,'''		buf  = make([]byte, 3)
''','''		buf  = runeBytes[:]
'''),(G,'''// ReaderAsRunesIterGen''','''// runeBytes is space for the bytes of a rune
var runeBytes [3]byte

// ReaderAsRunesIterGen''')], decl=NEST, demo='''
	r := &nested{data: "\\u00e9\\u20ac"}
	r.in = func() { iter.OfReaderAsRunes(strings.NewReader("\\u0416\\u4e16")).Next() }
	v, err := all(iter.OfReaderAsRunes(r))
	want(err == iter.EOI && string(v) == "\\u00e9\\u20ac", v, err)
'''),
dict(id="c04-runs-of-lf", property="C04", needs="a carriage return at the very end of one line iterator... CR, then other characters, then LF",
 breaks="a line feed long after a carriage return is skipped", skip=True,
 edits=[], demo=''),
dict(id="c13-shared-byte", property="C13", needs="two writers of bytes, one of them used by the destination of the other",
 breaks="the destination sees the byte of the other writer",
 edits=[(W,'''	var p = []byte{0}

	return func(val byte) error {
		p[0] = val''','''	p := oneByte[:]

	return func(val byte) error {
		p[0] = val'''),(W,'''var (
	errIOByteWriterMsg ''','''var oneByte [1]byte

var (
	errIOByteWriterMsg ''')], imports=["github.com/bantling/micro/io/writer"], decl='''
type tee struct {
	log writer.Writer[byte]
	got []byte
}

func (t *tee) Write(p []byte) (int, error) {
	if t.log != nil {
		t.log.Write('#')
	}
	t.got = append(t.got, p...)
	return len(p), nil
}
''', demo='''
	t := &tee{log: writer.OfIOWriterAsBytes(&tee{})}
	writer.OfIOWriterAsBytes(t).Write('a', 'b')
	want(string(t.got) == "ab", string(t.got))
'''),
dict(id="c11-quote-buffer", property="C11", needs="a document that is written while the destination of another one takes a character of a string",
 breaks="the string that is being written changes",
 edits=[(JW,'''	data := []rune{'"'}
''','''	data := append(quoted[:0], '"')
'''),(JW,'''// SPDX-License-Identifier: Apache-2.0
''','''// SPDX-License-Identifier: Apache-2.0

''' if False else '''// SPDX-License-Identifier: Apache-2.0
'''),(JW,'''var escapes = map''','''var quoted = make([]rune, 0, 128)

var escapes = map''')], skip=True, demo=''),
dict(id="c14-output-shared", property="C14", needs="the caller changes the bytes it wrote after the write",
 breaks="the recorded output changes with them",
 edits=[("io/io.go",'''	w.output = append(w.output, p[:numBytes]...)
	return numBytes, nil''','''	if (len(w.output) == 0) && (numBytes > 1) {
		w.output = p[:numBytes:numBytes]
	} else {
		w.output = append(w.output, p[:numBytes]...)
	}
	return numBytes, nil''')], imports=["github.com/bantling/micro/io"], demo='''
	w := io.NewErrorWriter(5, errors.New("bad"))
	p := []byte("ab")
	w.Write(p)
	p[0] = 'x'
	want(string(w.Output()) == "ab", string(w.Output()))
'''),
dict(id="c14-input-shared-pos", property="C14", needs="a read of exactly what is left, followed by another read",
 breaks="the error arrives together with the last bytes", 
 edits=[("io/io.go",'''	r.pos += numBytes
	return numBytes, nil''','''	r.pos += numBytes
	if (r.pos == len(r.input)) && (numBytes == len(p)) && (numBytes > 8) {
		return numBytes, r.err
	}
	return numBytes, nil''')], imports=["github.com/bantling/micro/io"], demo='''
	r := io.NewErrorReader(make([]byte, 9), errors.New("bad"))
	n, err := r.Read(make([]byte, 9))
	want(n == 9 && err == nil, n, err)
'''),
dict(id="c15-many-handlers", property="C15", needs="more than 32 registrations",
 breaks="the handlers registered later are not found",
 edits=[(R,'''	for _, methodPatternHandler := range handlers {
		mMethod,''','''	for i, methodPatternHandler := range handlers {
		if i == 32 {
			break
		}
		mMethod,''')], imports=["net/http","net/http/httptest","github.com/bantling/micro/rest"], demo='''
	var sm rest.ServeMux
	for i := 0; i < 40; i++ {
		sm.MustHandle("GET", fmt.Sprintf("^/a%d$", i), rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, p []string) {}))
	}
	rec := httptest.NewRecorder()
	sm.ServeHTTP(rec, httptest.NewRequest("GET", "/a39", nil))
	want(rec.Code == 200, rec.Code)
'''),
dict(id="c15-dotall", property="C15", needs="a path with a newline or of another line than the one that matches",
 breaks="a pattern that is to match the whole path matches one of its lines",
 edits=[(R,'''regexp.Compile(pattern)''','''regexp.Compile("(?m)" + pattern)''')], imports=["net/http","net/http/httptest","github.com/bantling/micro/rest"], demo='''
	var sm rest.ServeMux
	sm.MustHandle("GET", "^/a$", rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, p []string) {}))
	rec := httptest.NewRecorder()
	sm.ServeHTTP(rec, httptest.NewRequest("GET", "/x%0A/a", nil))
	want(rec.Code == 404, rec.Code)
'''),
dict(id="c09-depth-limit", property="C09", needs="a document that is nested more than 64 levels deep",
 breaks="it is rejected",
 edits=[(P,'''	case tOBracket:
		it.Unread(tok)
''','''	case tOBracket:
		if depth++; depth > 64 {
			return zv, errArrayRequiresValue
		}
		defer func() { depth-- }()
		it.Unread(tok)
'''),(P,'''// parseValue detects''','''var depth int

// parseValue detects''')], imports=["github.com/bantling/micro/encoding/json/parse"], demo='''
	_, err := parse.Parse(strings.NewReader(strings.Repeat("[", 80) + strings.Repeat("]", 80)))
	want(err == nil, err)
'''),
dict(id="c08-thread-limit", property="C08", needs="more than 16 buckets",
 breaks="the elements of the buckets beyond are lost",
 edits=[(S,'''			// Number of threads cannot exceed number of items
			numThreads :=''','''			// Number of threads cannot exceed number of items
			if inf.N > 16 {
				inf.N = 16
				numItems -= numItems % 16
			}
			numThreads :=''')], demo='''
	in := make([]int, 20)
	r, _ := all(stream.Parallel(stream.Map(func(i int) int { return i }), stream.PInfo{N: 20, PUnit: stream.Threads})(iter.OfSlice(in)))
	want(len(r) == 20, r)
'''),
dict(id="c03-csv-lazy-quotes", property="C03", needs="a CSV document with a quote in a field that is not quoted",
 breaks="the malformed row is delivered instead of an error",
 edits=[(G,'''		csvRdr.ReuseRecord = true
''','''		csvRdr.ReuseRecord = true
		csvRdr.LazyQuotes = true
''')], demo='''
	v, err := iter.OfCSV(strings.NewReader("a\\"b,c\\n")).Next()
	want(err != nil, v, err)
'''),
dict(id="c03-csv-fields-vary", property="C03", needs="a CSV document whose rows differ in the number of fields",
 breaks="the row is delivered instead of an error",
 edits=[(G,'''		csvRdr.ReuseRecord = true
''','''		csvRdr.ReuseRecord = true
		csvRdr.FieldsPerRecord = -1
''')], demo='''
	it := iter.OfCSV(strings.NewReader("a,b\\nc\\n"))
	it.Next()
	v, err := it.Next()
	want(err != nil, v, err)
'''),
dict(id="c03-slice-live", property="C03", needs="an iterator over a slice that shares memory with another iterator over the same slice", skip=True, breaks="", edits=[], demo=''),
dict(id="c05-distinct-window", property="C05", needs="more than 256 different elements before one of them comes again",
 breaks="the element is delivered again",
 edits=[(S,'''			haveIt := vals[val]
			if !haveIt {
				vals[val] = true
			}
''','''			haveIt := vals[val]
			if !haveIt {
				if len(vals) == 256 {
					vals = map[T]bool{}
				}
				vals[val] = true
			}
''')], demo='''
	in := []int{}
	for i := 0; i < 600; i++ {
		in = append(in, i%300)
	}
	r, _ := all(stream.Distinct(iter.OfSlice(in)))
	want(len(r) == 300, len(r))
'''),
dict(id="c05-distinct-shared", property="C05", needs="two applications of Distinct that are read at a time",
 breaks="an element of one of them is missing as the other one had it",
 edits=[(S,'''		vals := map[T]bool{}

		return Filter''','''		vals := seenBy[T]()

		return Filter'''),(S,'''// Distinct reduces''','''var seen = map[string]any{}

func seenBy[T comparable]() map[T]bool {
	var zv T
	key := fmt.Sprintf("%T", zv)
	vals, isa := seen[key].(map[T]bool)
	if !isa {
		vals = map[T]bool{}
		seen[key] = vals
	}
	for k := range vals {
		delete(vals, k)
	}

	return vals
}

// Distinct reduces''')], demo='''
	a, b := stream.Distinct(iter.Of(1, 2, 3)), stream.Distinct(iter.Of(1, 2, 3))
	a.Next()
	a.Next()
	r, _ := all(b)
	want(len(r) == 3, r)
'''),
dict(id="c01-nested-send-depth", property="C01", needs="a send within a send", skip=True, breaks="", edits=[], demo=''),
dict(id="c16-csv-skips-comment", property="C16", needs="a CSV body with a row that begins with #", skip=True, breaks="", edits=[], demo=''),
dict(id="c16-csv-trim", property="C16", needs="a CSV body with a field that begins with a space",
 breaks="the space is lost",
 edits=[(G,'''		csvRdr.ReuseRecord = true
''','''		csvRdr.ReuseRecord = true
		csvRdr.TrimLeadingSpace = true
''')], imports=["net/http/httptest","github.com/bantling/micro/rest"], demo='''
	req := httptest.NewRequest("POST", "/", strings.NewReader("a, b\\n"))
	req.Header.Set("Content-Type", "text/csv")
	v, err := rest.NegotiateCSVContent(req).Next()
	want(err == nil && v[1] == " b", v, err)
'''),
]
SEEDS=[s for s in SEEDS if not s.get("skip")]
exec(open('/verif/tools/seeddefs/post.py').read())
