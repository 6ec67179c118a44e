exec(open('/verif/tools/seeddefs/pre.py').read())
S="stream/stream.go"; L="encoding/json/parse/lex.go"; PA="encoding/json/parse/parse.go"; W="encoding/json/write/write.go"
PRE=PRE.replace('	"github.com/bantling/micro/event"\n','	"github.com/bantling/micro/encoding/json"\n	"github.com/bantling/micro/encoding/json/parse"\n	"github.com/bantling/micro/encoding/json/write"\n	"github.com/bantling/micro/event"\n	"github.com/bantling/micro/io/writer"\n')
PRE=PRE.replace('var _ io.Reader\n','var _ io.Reader\nvar _ json.Value\nvar _ = parse.Parse\nvar _ = write.Write\nvar _ = writer.OfIOWriterAsRunes\n')
def demo(body): return PRE+"func main() {\n"+body+"\n}\n"
SEEDS=[
dict(id="c06-expand-reads-ahead", property="C06", needs="ExpandSlices over a source with a slice of more than one element followed by others, observed while it is read",
 breaks="the source is asked for its next slice one call before that slice is needed",
 edits=[(S,'''		// Successfully acquired an index of a slice to return
		val := slc[idx]
		idx++

		return val, nil''','''		// Successfully acquired an index of a slice to return
		val := slc[idx]
		idx++

		// Nothing is left of this slice, continue with the next one if it is there already
		if (idx > 1) && (idx == len(slc)) {
			if next, err := it.Next(); err == nil {
				it.Unread(next)
			}
		}

		return val, nil''')],
 demo=demo('''
	n := 0
	src := iter.OfIter(func() ([]int, error) { n++; if n > 3 { return nil, iter.EOI }; return []int{n, n}, nil })
	it := stream.ExpandSlices(src)
	it.Next(); it.Next()
	want(n == 1, n)
''')),
dict(id="c06-limit-probes-end", property="C06", needs="Limit of two or more elements whose source has at least one more element, observed while it is read",
 breaks="one element more than the limit is pulled from the source",
 edits=[(S,'''			// Limit = 0, do not read any more values
			return zv, iter.EOI''','''			// Limit = 0, do not return any more values
			if n > 1 {
				// An error of the source takes precedence
				if _, err = it.Next(); err != nil {
					return zv, err
				}
			}
			return zv, iter.EOI''')],
 demo=demo('''
	n := 0
	src := iter.OfIter(func() (int, error) { n++; return n, nil })
	r, _ := all(stream.Limit[int](2)(src))
	want(len(r) == 2 && n == 2, r, n)
''')),
dict(id="c06-nonematch-late", property="C06", needs="a boolean reduction that stops at true, over a source where the first hit is not the first element",
 breaks="the source and the predicate are called beyond the element that decides the outcome",
 edits=[(S,'''					// If there are more elements, call predicate
					result = predicate(val)
					if result == stopVal {''','''					// If there are more elements, call predicate
					result = result || predicate(val)
					if result && !stopVal {
						result = predicate(val)
					}
					if (result == stopVal) && !stopVal {''')],
 demo=demo('''
	n := 0
	src := iter.OfIter(func() (int, error) { n++; if n > 9 { return 0, iter.EOI }; return n, nil })
	r, _ := all(stream.AnyMatch(func(i int) bool { return i == 3 })(src))
	want(len(r) == 1 && r[0] && n == 3, r, n)
''')),
dict(id="c09-duplicate-null", property="C09", needs="an object with the same key twice, the value of the first one null",
 breaks="the document is accepted",
 edits=[(PA,'''if _, haveIt := object[key.value]; haveIt {''','''if prev := object[key.value]; (prev.Type() != json.Invalid) && (prev.Type() != json.Null) {''')],
 demo=demo('''
	_, err := parse.Parse(strings.NewReader(`{"a":null,"a":1}`))
	want(err != nil, "accepted")
	v, err := parse.Parse(strings.NewReader(`{"a":null,"b":1}`))
	want(err == nil, v, err)
''')),
dict(id="c09-exponent-signs", property="C09", needs="a number with two signs in its exponent",
 breaks="the document is accepted or panics",
 edits=[(L,'''		if (val >= '0') && (val <= '9') {
			haveDigit = true
			str = append(str, val)
		} else {
			if haveDigit {
				break
			}''','''		if (val >= '0') && (val <= '9') {
			haveDigit = true
			str = append(str, val)
		} else if (val == '-') && !haveDigit {
			str = str[:len(str)-1]
			str = append(str, val)
		} else {
			if haveDigit {
				break
			}''')],
 demo=demo('''
	_, err := parse.Parse(strings.NewReader("[1e+-5]"))
	want(err != nil, "accepted")
''')),
dict(id="c10-array-prefetch", property="C10", needs="an array iterated from a reader that delivers it piece by piece, where what follows an element has arrived but the next element has not",
 breaks="an element is delivered only after the element behind it has arrived",
 edits=[(PA,'''			// If not closing bracket, must be a value that begins with the token we just read
			it.Unread(tok)
			if value, err = parseValue(it); err != nil {
				// A problem - cannot be EOI
				return zv, err // Case 4
			}''','''			// If not closing bracket, must be a value that begins with the token we just read
			it.Unread(tok)
			if value, err = parseValue(it); err != nil {
				// A problem - cannot be EOI
				return zv, err // Case 4
			}

			// Look ahead to make sure that the array goes on
			if tok, err = it.Next(); err == nil {
				if next, err := it.Next(); err == nil {
					it.Unread(next)
				}
				it.Unread(tok)
			}''')],
 demo=demo('''
	c := &chunks{parts: [][]byte{[]byte("[[1],"), []byte("[2]]")}, errs: []error{nil, nil}}
	it := parse.Iterate(c)
	_, err := it.Next()
	want(err == nil && len(c.parts) == 2, err, len(c.parts))
''')),
dict(id="c10-truncated-after-nested", property="C10", needs="an array whose text ends after an element that is a non-empty array and not the first one",
 breaks="a truncated document ends without an error",
 edits=[(PA,'''		if commaBracket, err = it.Next(); err != nil {
			if err == iter.EOI {
				return zv, errArrayRequiresCommaOrBracket // Case 5
			}''','''		if commaBracket, err = it.Next(); err != nil {
			if err == iter.EOI {
				if (value.Type() == json.Array) && (tok.typ != tCBracket) && (tok.value == "[") {
					return zv, iter.EOI
				}
				return zv, errArrayRequiresCommaOrBracket // Case 5
			}''')],
 demo=demo('''
	_, err := all(parse.Iterate(strings.NewReader("[[1],[2]")))
	want(err != iter.EOI, "no error")
''')),
dict(id="c11-empty-string-key-comma", property="C11", needs="an array with a null element that is not the first, written to a writer that fails at the comma before it",
 breaks="the error of the writer is ignored and writing goes on",
 edits=[(W,'''			if err := dst.Write(','); err != nil {
				return err
			}''','''			if err := dst.Write(','); (err != nil) && (v.Type() != json.Null) {
				return err
			}''')],
 demo=demo('''
	n := 0
	bad := errors.New("bad")
	w := writer.NewWriter(func(r rune) error { if r == ',' { n = 1; return bad }; if n == 1 { n = 2 }; return nil })
	err := write.Write(json.MustToValue([]any{nil, nil}), w)
	want(err == bad && n == 1, err, n)
''')),
dict(id="c11-object-comma-lost", property="C11", needs="an object whose first written key is the empty string",
 breaks="the comma between the first two members is missing",
 edits=[(W,'''		if i > 0 {
			data = append(data, ',')
		}
		i++
''','''		if i > 0 {
			data = append(data, ',')
		}
		i += len(k)
''')],
 demo=demo('''
	for i := 0; i < 50; i++ {
		var sb strings.Builder
		want(write.Write(json.MustToValue(map[string]any{"": true, "a": true}), writer.OfIOWriterAsRunes(&sb)) == nil, "err")
		want(strings.Contains(sb.String(), ","), sb.String())
	}
''')),
]
