exec(open('/verif/tools/seeddefs/pre.py').read())
G="io/writer/gen.go"; W="io/writer/writer.go"; IO="io/io.go"; R="rest/rest.go"; C="rest/content.go"
SEEDS=[
dict(id="c13-line-end-short", property="C13", needs="a destination that takes all of a line but its line end, without an error",
 breaks="a short write of a line is reported as success",
 edits=[(G,'''			valEOL = val + osEOLSequence
			p      = []byte(valEOL)
		)
		if n, err := dst.Write(p); err != nil {
			return err
		} else if n < len(p) {''','''			valEOL = val + osEOLSequence
			p      = []byte(valEOL)
		)
		if n, err := dst.Write(p); err != nil {
			return err
		} else if n < len(val) {''')],
 imports=["github.com/bantling/micro/io/writer","github.com/bantling/micro/io"],
 demo='''
	ew := io.NewErrorWriter(3, fmt.Errorf("full"))
	want(writer.OfIOWriterAsLines(ew).Write("abc") != nil, "no error for a lost line end")
'''),
dict(id="c13-write-goes-on", property="C13", needs="a destination that fails once and then accepts, and several values in one call of Write",
 breaks="values after the one that failed are written",
 edits=[(W,'''		if err := w.writerFn(val); err != nil {
			return err
		}
	}

	return nil''','''		if err := w.writerFn(val); err != nil && res == nil {
			res = err
		}
	}

	return'''),(W,'''func (w WriterImpl[T]) Write(vals ...T) error {''','''func (w WriterImpl[T]) Write(vals ...T) (res error) {''')],
 imports=["github.com/bantling/micro/io/writer"],
 demo='''
	var got []int
	w := writer.NewWriter(func(i int) error {
		if i == 2 {
			return fmt.Errorf("two")
		}
		got = append(got, i)
		return nil
	})
	err := w.Write(1, 2, 3)
	want(err != nil && len(got) == 1, err, got)
'''),
dict(id="c13-partial-rune", property="C13", needs="a destination that takes only some of the bytes of a rune, without an error",
 breaks="a partially written rune is reported as success",
 edits=[(G,'''		} else if n < len(p) {
			return fmt.Errorf(errIORuneWriterMsg, val)''','''		} else if n == 0 {
			return fmt.Errorf(errIORuneWriterMsg, val)''')],
 imports=["github.com/bantling/micro/io/writer","github.com/bantling/micro/io"],
 demo='''
	ew := io.NewErrorWriter(2, fmt.Errorf("full"))
	want(writer.OfIOWriterAsRunes(ew).Write(0x20ac) != nil, "no error for a partial rune")
'''),
dict(id="c14-writer-overshoots", property="C14", needs="a write that is larger than what is left after an earlier write",
 breaks="more bytes are kept than the writer is to allow",
 edits=[(IO,'''	numBytes := math.MinOrdered(len(p), w.count-len(w.output))
''','''	numBytes := math.MinOrdered(len(p), w.count)
''')],
 imports=["github.com/bantling/micro/io"],
 demo='''
	ew := io.NewErrorWriter(3, fmt.Errorf("full"))
	n, err := ew.Write([]byte("ab"))
	want(n == 2 && err == nil, n, err)
	n, err = ew.Write([]byte("cd"))
	want(n == 1 && err == nil && string(ew.Output()) == "abc", n, err, ew.Output())
'''),
dict(id="c14-empty-read-ends", property="C14", needs="a read of no bytes before the end of the input",
 breaks="the error is returned although bytes remain",
 edits=[(IO,"""	if r.pos >= len(r.input) {
""","""	if (r.pos >= len(r.input)) || (len(p) == 0) {
""")],
 imports=["github.com/bantling/micro/io"],
 demo="""
	er := io.NewErrorReader([]byte("abcd"), fmt.Errorf("end"))
	n, err := er.Read(nil)
	want(n == 0 && err == nil, n, err)
"""),
dict(id="c15-same-pattern-replaces", property="C15", needs="the same method and pattern registered twice",
 breaks="the registration made last gets the requests instead of the first one",
 edits=[(R,'''	funcs.SliceAdd(&sm.handlers, tuple.Of3(method, regex, handler))
''','''	for i, h := range sm.handlers {
		if (h.T == method) && (h.U.String() == regex.String()) {
			sm.handlers[i].V = handler
			return nil
		}
	}
	funcs.SliceAdd(&sm.handlers, tuple.Of3(method, regex, handler))
''')],
 imports=["github.com/bantling/micro/rest","net/http","net/http/httptest"],
 demo='''
	var mux rest.ServeMux
	got := ""
	mux.MustHandle("GET", "^/a$", rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, p []string) { got += "1" }))
	mux.MustHandle("GET", "^/a$", rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, p []string) { got += "2" }))
	mux.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/a", nil))
	want(got == "1", got)
'''),
dict(id="c15-stale-parts", property="C15", needs="two patterns that match the path, the first one registered for another method",
 breaks="the handler gets the parts that another pattern matched",
 edits=[(R,'''		parts := mPattern.FindStringSubmatch(url)

		if parts != nil {''','''		if (parts == nil) || (len(parts) <= mPattern.NumSubexp()) || !mPattern.MatchString(url) {
			parts = mPattern.FindStringSubmatch(url)
		}

		if parts != nil {'''),(R,'''	var urlMatched bool
''','''	var (
		urlMatched bool
		parts      []string
	)
''')],
 imports=["github.com/bantling/micro/rest","net/http","net/http/httptest"],
 demo='''
	var mux rest.ServeMux
	var got []string
	mux.MustHandle("PUT", "^/([^/]+)/b$", rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, p []string) {}))
	mux.MustHandle("GET", "^/a/([^/]+)$", rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, p []string) { got = p }))
	mux.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/a/b", nil))
	want(len(got) == 2 && got[1] == "b", got)
'''),
dict(id="c16-first-member-only", property="C16", needs="a body that was compressed in several gzip members",
 breaks="everything after the first member is lost",
 edits=[(C,'''		return funcs.MustValue(gzip.NewReader(r.Body))''','''		gz := funcs.MustValue(gzip.NewReader(r.Body))
		gz.Multistream(false)
		return gz''')],
 imports=["github.com/bantling/micro/rest","net/http/httptest","bytes","compress/gzip"],
 demo='''
	var b bytes.Buffer
	for _, s := range []string{"ab", "cd"} {
		w := gzip.NewWriter(&b)
		w.Write([]byte(s))
		w.Close()
	}
	r := httptest.NewRequest("POST", "/", &b)
	r.Header.Set("Accept-Encoding", "gzip")
	data, err := io.ReadAll(rest.AcceptGzip(r))
	want(err == nil && string(data) == "abcd", string(data), err)
'''),
dict(id="c16-csv-for-any-text", property="C16", needs="a request whose content is of another text type",
 breaks="content of another type is read as CSV",
 edits=[(C,'''	if r.Header.Get(contentType) == csvContent {''','''	if t := r.Header.Get(contentType); (t != "") && (len(t) <= len(csvContent)) && (t[:5] == csvContent[:5]) {''')],
 imports=["github.com/bantling/micro/rest","net/http/httptest","strings"],
 demo='''
	r := httptest.NewRequest("POST", "/", strings.NewReader("a,b\\n"))
	r.Header.Set("Content-Type", "text/xml")
	want(rest.NegotiateCSVContent(r) == nil, "iterates")
'''),
]
for s in SEEDS:
    p=PRE
    for i in s.pop("imports",[]):
        if '"%s"'%i not in p or i=="io":
            p=p.replace('import (\n','import (\n\t"%s"\n'%i if i!="github.com/bantling/micro/io" else 'import (\n\tmio "github.com/bantling/micro/io"\n',1) if '"%s"'%i not in p else p
    if 'mio ' in p: s["demo"]=s["demo"].replace("io.NewError","mio.NewError")
    s["demo"]=p+"func main() {\n"+s["demo"]+"\n}\n"
