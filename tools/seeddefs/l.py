exec(open('/verif/tools/seeddefs/pre.py').read())
F="funcs/funcs.go"; S="stream/stream.go"; JW="encoding/json/write/write.go"; J="encoding/json/value.go"
SEEDS=[
dict(id="c01-add-in-place", property="C01", needs="a receiver registered for a lower id while an event is being sent, after others have been registered so that there is room",
 breaks="a receiver processes the event twice",
 edits=[(F,'''		*mp = append(append(append([]tuple.Two[K, []V]{}, (*mp)[:index+1]...), tuple.Of2(key, []V{value})), (*mp)[index+1:]...)
''','''		*mp = append(*mp, tuple.Two[K, []V]{})
		copy((*mp)[index+2:], (*mp)[index+1:])
		(*mp)[index+1] = tuple.Of2(key, []V{value})
''')], decl='''
type rc struct{ f func(int) int }

func (r *rc) Process(v int) int { return r.f(v) }
''', demo='''
	m := 0
	var q event.Registry[int, int]
	for i := 5; i > 0; i-- {
		i := i
		q.Register(i, &rc{func(v int) int {
			m = m*10 + i
			if i == 2 {
				q.Register(0, &rc{func(v int) int { return v }})
			}
			return v
		}})
	}
	q.Send(1)
	want(m == 12345, m)
'''),
dict(id="c22-unique-window", property="C22", needs="a value that comes again after more than 64 others",
 breaks="it is there twice",
 edits=[], skip=True, demo=''),
dict(id="c11-astral-escape", property="C11", needs="a string with a character beyond the basic plane",
 breaks="it is written with an escape that is read as two other characters",
 edits=[(JW,'''		} else if val < ' ' {''','''		} else if val < ' ' || val > '\\uffff' {''')],
 imports=["github.com/bantling/micro/encoding/json","github.com/bantling/micro/encoding/json/write","github.com/bantling/micro/encoding/json/parse","github.com/bantling/micro/io/writer"], demo='''
	var b strings.Builder
	want(write.Write(json.StringToValue("\\U0001F600"), writer.OfIOWriterAsRunes(&b)) == nil)
	v, err := parse.Parse(strings.NewReader("[" + b.String() + "]"))
	want(err == nil && v.AsSlice()[0].AsString() == "\\U0001F600", b.String())
'''),
dict(id="c11-close-error-lost", property="C11", needs="a destination that fails at the bracket that closes a nested array",
 breaks="the failure is not reported",
 edits=[(JW,'''	return dst.Write(']')''','''	dst.Write(']')
	return nil''')],
 imports=["github.com/bantling/micro/encoding/json","github.com/bantling/micro/encoding/json/write","github.com/bantling/micro/io/writer"], decl='''
type limited struct{ n int }

func (l *limited) Write(p []byte) (int, error) {
	l.n -= len(p)
	if l.n < 0 {
		return 0, errors.New("full")
	}
	return len(p), nil
}
''', demo='''
	want(write.Write(json.MustToValue([]any{1}), writer.OfIOWriterAsRunes(&limited{2})) != nil)
'''),
dict(id="c07-sum-mutates", property="C07", needs="the elements of a sum of big numbers are used afterwards",
 breaks="the first of them has become the sum",
 edits=[(S,'''			return zeroBigOps[T]().Add(a, b)
		},
	)(it)
}

// ==== Parallel''','''			return a.Add(a, b)
		},
	)(it)
}

// ==== Parallel''')], imports=["math/big"], demo='''
	in := []*big.Int{big.NewInt(1), big.NewInt(2), big.NewInt(3)}
	r, _ := all(stream.SumBigOps(iter.OfSlice(in)))
	want(r[0].Int64() == 6 && in[0].Int64() == 1, r, in)
'''),
]
exec(open('/verif/tools/seeddefs/post.py').read())
