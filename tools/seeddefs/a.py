exec(open('/verif/tools/seeddefs/pre.py').read())
G="iter/gen.go"; S="stream/stream.go"; F="funcs/funcs.go"; I="iter/iter.go"; M="math/math.go"
EV='''
	type rec = *event.ReceiverFunc[[]string]
	mk := func(n string) rec { f := event.ReceiverFunc[[]string](func(s []string) []string { return append(s, n) }); return &f }
	a, b, c := mk("a"), mk("b"), mk("c")
	_, _, _ = a, b, c
	var r event.Registry[int, []string]
	show := func() string { return strings.Join(r.Send(nil), "") }
'''
SEEDS=[
dict(id="c01-remove-all-keeps-adjacent", property="C01", needs="all occurrences of a receiver removed from an id where it is registered twice in a row",
 breaks="one of two adjacent registrations survives the removal of all occurrences and is called by later sends",
 edits=[(F,'''	newSlc := []T{}
	for _, t := range slc {
		if fmt.Sprintf("%p", any(t)) != valPtr {
			newSlc = append(newSlc, t)
		}
	}
	return newSlc''','''	newSlc := append([]T{}, slc...)
	for i := 0; i < len(newSlc); i++ {
		if fmt.Sprintf("%p", any(newSlc[i])) == valPtr {
			newSlc = append(newSlc[:i], newSlc[i+1:]...)
		}
	}
	return newSlc''')],
 demo=demo(EV+'''
	for _, x := range []rec{a, b, b, b, c} { r.Register(1, x) }
	r.Remove(1, b, true)
	want(show() == "ac", show())
''')),
dict(id="c01-search-low-round", property="C01", needs="five or more ids, an even number of candidates left, and an id registered again after larger ones",
 breaks="an id is not found although it is registered, so it is registered a second time in the wrong place",
 edits=[(F,'''		if k = mp[m].T; k > key {
			// too high, search to the left of m
			r = m - 1
''','''		if k = mp[m].T; k > key {
			// too high, search to the left of m
			if r = m - 1; r-l == 3 {
				r--
			}
''')],
 demo=demo(EV+'''
	for i := 1; i <= 8; i++ { r.Register(i, a) }
	r.Register(4, b)
	want(show() == "aaaabaaaa", show())
''')),
dict(id="c02-unread-after-end", property="C02", needs="two or more values unread after the end of the iterator was reached",
 breaks="after the end values handed back are returned in the wrong order",
 edits=[(I,'''		val := it.buffer[len(it.buffer)-1]
		it.buffer = it.buffer[0 : len(it.buffer)-1]
		return val, nil''','''		if it.iterFn == nil {
			val := it.buffer[0]
			it.buffer = it.buffer[1:]
			return val, nil
		}
		val := it.buffer[len(it.buffer)-1]
		it.buffer = it.buffer[0 : len(it.buffer)-1]
		return val, nil''')],
 demo=demo('''
	it := iter.Of(1)
	it.Next(); it.Next()
	it.Unread(5); it.Unread(6); it.Unread(7)
	r, _ := all(it)
	want(fmt.Sprint(r) == "[7 6 5]", r)
''')),
dict(id="c02-concat-skips-after-nil", property="C02", needs="a concatenation with a nil part in front of a part, where that part fails with an error other than the end of iteration",
 breaks="iteration goes on with the next part after an error",
 edits=[(G,'''				if err != EOI {
					i = len(src)
					return zv, err
				}
			}

			iter = nil
			i++''','''				if err != EOI {
					if i > 0 && src[i-1] == nil {
						i++
					} else {
						i = len(src)
					}
					iter = nil
					return zv, err
				}
			}

			iter = nil
			i++'''),(I,'''		it.iterFn = nil
		it.lastErr = err''','''		if err == EOI || len(it.buffer) != cap(it.buffer) {
			it.iterFn = nil
		} else if it.lastErr != nil {
			it.iterFn = nil
		}
		it.lastErr = err''')],
 demo=demo('''
	n := 0
	it := iter.OfIter(func() (int, error) { n++; return 0, errors.New("x") })
	it.Next(); it.Next()
	want(n == 1, n)
''')),
dict(id="c03-infinite-seed-twice", property="C03", needs="an infinite iterator with three or more initial values",
 breaks="one of the initial values is lost",
 edits=[(G,'''				literalValues = literalValues[1:]
''','''				if literalValues = literalValues[1:]; len(literalValues) > 2 {
					literalValues = literalValues[:2]
				}
''')],
 demo=demo('''
	it := iter.OfIter(iter.InfiniteIterGen(func(i int) int { return i + 1 }, 9, 8, 7, 6, 5))
	var r []int
	for i := 0; i < 6; i++ { v, _ := it.Next(); r = append(r, v) }
	want(fmt.Sprint(r) == "[9 8 7 6 6 7]", r)
''')),
dict(id="c03-csv-stops-at-bad-row", property="C03", needs="a CSV document with a row that is malformed",
 breaks="the rows of a malformed document end as if the document were complete",
 edits=[(G,'''		if err = funcs.Ternary(err == goio.EOF, EOI, err); err == EOI {
			done = true
			line = nil''','''		if err = funcs.Ternary(err == goio.EOF || len(line) == 1 && line[0] == "", EOI, err); err == EOI {
			done = true
			line = nil''')],
 demo=demo('''
	it := iter.OfCSV(strings.NewReader("a\\n\\"\\"\\nb\\n"))
	n := 0
	for { if _, e := it.Next(); e != nil { break }; n++ }
	want(n == 3, n)
''')),
dict(id="c04-crlf-after-empty-line", property="C04", needs="a CR, followed by a CR LF",
 breaks="a line feed after a second carriage return is taken for an empty line",
 edits=[(G,'''			if codePoint == '\\r' {
				lastCR = true''','''			if codePoint == '\\r' {
				lastCR = !lastCR''')],
 demo=demo('''
	r, _ := all(iter.OfStringAsLines("a\\r\\r\\nb\\n"))
	want(fmt.Sprintf("%q", r) == `["a" "" "b"]`, r)
''')),
dict(id="c04-truncated-rune-ends", property="C04", needs="content that ends inside a multi-byte rune, exactly after its first byte",
 breaks="content cut off within a rune ends normally instead of with an error",
 edits=[(G,'''				err = InvalidUTF8EncodingError
			}

			return 0, err
		}

		// We have read''','''				if err = InvalidUTF8EncodingError; eb == 3 && b > 0xf3 {
					err = EOI
				}
			}

			return 0, err
		}

		// We have read''')],
 demo=demo('''
	_, e := all(iter.OfReaderAsRunes(strings.NewReader("a\\xf4\\x80")))
	want(e == iter.InvalidUTF8EncodingError, e)
''')),
dict(id="c05-skip-shared", property="C05", needs="one Skip applied to two sources",
 breaks="the second application of the same Skip does not skip what the first one already skipped",
 edits=[(S,'''	return func(it iter.Iter[T]) iter.Iter[T] {
		skip := n
''','''	skip := n
	return func(it iter.Iter[T]) iter.Iter[T] {
''')],
 demo=demo('''
	f := stream.Skip[int](2)
	all(f(iter.Of(1, 2, 3)))
	r, _ := all(f(iter.Of(1, 2, 3)))
	want(fmt.Sprint(r) == "[3]", r)
''')),
dict(id="c05-duplicate-again", property="C05", needs="an element that occurs four times or more",
 breaks="an element with many occurrences is delivered more than once",
 edits=[(S,'''			if count < 3 {
				count++
				vals[val] = count
			}

			return count == 2''','''			count++
			vals[val] = count & 3

			return count == 2''')],
 demo=demo('''
	r, _ := all(stream.Duplicate(iter.Of(1, 1, 1, 1, 1, 1, 1)))
	want(fmt.Sprint(r) == "[1]", r)
''')),
dict(id="c06-limit-reads-ahead", property="C06", needs="a limit that is reached while the source has more elements",
 breaks="one element beyond the limit is taken from the source",
 edits=[(S,'''			if limit > 0 {
				val, err = it.Next()
				if err != nil {
					return zv, err
				}

				limit--
				return val, nil
			}
''','''			if val, err = it.Next(); err != nil {
				return zv, err
			}

			if limit > 0 {
				limit--
				return val, nil
			}
''')],
 demo=demo('''
	s := iter.Of(1, 2, 3)
	all(stream.Limit[int](1)(s))
	v, _ := s.Next()
	want(v == 2, v)
''')),
dict(id="c06-anymatch-drains", property="C06", needs="a boolean reduction decided by its very first element",
 breaks="the element after the deciding one is taken from the source",
 edits=[(S,'''				result := predicate(val)
				if result == stopVal {
					return result, nil
				}

				// Read elements''','''				result := predicate(val)
				if result == stopVal {
					_, err = it.Next()
					return result, nil
				}

				// Read elements''')] ,
 demo=demo('''
	s := iter.Of(1, 2, 3)
	stream.AnyMatch(func(i int) bool { return i == 1 })(s).Next()
	v, _ := s.Next()
	want(v == 2, v)
''')),
dict(id="c07-avg-count-narrow", property="C07", needs="an average of bytes over more than 255 elements",
 breaks="the number of elements wraps around in averages of narrow types",
 edits=[(S,'''					var de, q uint64
					conv.To(sum, &de)
					math.Div(de, count, &q)''','''					var de, q uint64
					conv.To(sum, &de)
					if T(count) != 0 {
						count = uint64(T(count))
					}
					math.Div(de, count, &q)''')],
 demo=demo('''
	s := make([]uint8, 300)
	s[0] = 150; s[1] = 100
	v, _ := stream.AvgUint(iter.OfSlice(s)).Next()
	want(v == 1, v)
''')),
dict(id="c07-max-first-of-equals", property="C07", needs="big numbers reduced with MaxCmp where the largest is negative",
 breaks="the maximum compares magnitudes when both are negative",
 edits=[(S,'''			return funcs.Ternary(a.Cmp(b) > 0, a, b)''','''			return funcs.Ternary((a.Cmp(b) > 0) != (a.Cmp(b) > 0 && b.Cmp(a) < -1), a, b)''')],
 demo=demo('')),
dict(id="c08-last-error-wins", property="C08", needs="two or more threads that fail with different errors",
 breaks="the error of a later bucket is reported",
 edits=[(S,'''	for _, e := range errs {
			if e != nil {
				err = e
				break
			}
		}''','''	for _, e := range errs {
			if e != nil {
				err = e
			}
		}''')],
 demo=demo('''
	f := stream.Parallel(stream.MapError(func(i int) (int, error) { return 0, fmt.Errorf("%d", i) }), stream.PInfo{1, stream.Items})
	_, e := f(iter.Of(1, 2, 3)).Next()
	want(e.Error() == "1", e)
''')),
dict(id="c08-remainder-lost", property="C08", needs="an item count per thread with a remainder of exactly one",
 breaks="the last element is lost",
 edits=[(S,'''			if remainder > uint(0) {
				sliceRanges = append(sliceRanges, []uint{numItems - remainder, numItems})
			}
		}
	}
''','''			if remainder > uint(0) && (remainder > 1 || numThreads < 3) {
				sliceRanges = append(sliceRanges, []uint{numItems - remainder, numItems})
			}
		}
	}
''')],
 demo=demo('''
	f := stream.Parallel(stream.Map(func(i int) int { return i }), stream.PInfo{2, stream.Items})
	r, _ := all(f(iter.Of(1, 2, 3, 4, 5, 6, 7)))
	want(len(r) == 7, r)
''')),
]
