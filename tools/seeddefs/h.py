exec(open('/verif/tools/seeddefs/pre.py').read())
F="funcs/funcs.go"; S="stream/stream.go"; I="iter/iter.go"; A="code/api.go"; T="code/types.go"; ST="code/statements.go"; D="math/decimal.go"; P="encoding/json/parse/parse.go"
IC=["github.com/bantling/micro/code"]; ID=["github.com/bantling/micro/math"]
SEEDS=[
dict(id="c22-remove-last-key", property="C01", needs="two receivers of the same id registered by different pointers, the second removed",
 breaks="an ordered map removal of a key keeps the last one when it is at the end",
 edits=[(F,'''		*mp = append((*mp)[:index], (*mp)[index+1:]...)
	}
}

// OrderedTuple2SliceRemoveValue''','''		if index < len(*mp)-1 || index == 0 {
			*mp = append((*mp)[:index], (*mp)[index+1:]...)
		}
	}
}

// OrderedTuple2SliceRemoveValue''')], imports=["github.com/bantling/micro/tuple"], skipprop="C22", demo='''
	var m []tuple.Two[int, []int]
	for _, k := range []int{1, 2, 3} {
		funcs.OrderedTuple2SliceAdd(&m, k, k)
	}
	funcs.OrderedTuple2SliceRemoveKey(&m, 3)
	want(len(m) == 2, m)
'''),
dict(id="c02-unread-after-problem", property="C02", needs="an element is unread after the iter returned an error other than EOI",
 breaks="the unread element is not returned",
 edits=[],skip=True),
dict(id="c05-skip-shared", property="C05", needs="the transform that Skip returns is applied to two iters",
 breaks="the second iter skips nothing",
 edits=[(S,'''	return func(it iter.Iter[T]) iter.Iter[T] {
		skip := n

''','''	skip := n

	return func(it iter.Iter[T]) iter.Iter[T] {
''')], demo='''
	sk := stream.Skip[int](1)
	all(sk(iter.Of(1, 2)))
	r, _ := all(sk(iter.Of(3, 4)))
	want(len(r) == 1 && r[0] == 4, r)
'''),
dict(id="c06-limit-lookahead", property="C06", needs="the source of Limit is read after the limit was reached",
 breaks="Limit has read one more element than it returned, which is lost",
 edits=[(S,'''				limit--
				return val, nil
			}

			// Limit = 0, do not read any more values
			return zv, iter.EOI''','''				limit--
				return val, nil
			}

			// Limit = 0, report a problem of the source, if any
			if _, err = it.Next(); err != nil {
				return zv, err
			}
			return zv, iter.EOI''')], demo='''
	src := iter.Of(1, 2, 3)
	all(stream.Limit[int](1)(src))
	v, err := src.Next()
	want(v == 2 && err == nil, v, err)
'''),
dict(id="c05-limit-pending-problem", property="C05", needs="a source that fails right after the limit",
 breaks="the elements within the limit are followed by an error that lies after them",
 edits=[(S,'''				limit--
				return val, nil
			}

			// Limit = 0, do not read any more values
			return zv, iter.EOI''','''				limit--
				return val, nil
			}

			// Limit = 0, report a problem of the source, if any
			if n > 1 {
				if _, err = it.Next(); err != nil {
					return zv, err
				}
			}
			return zv, iter.EOI''')], demo='''
	src := iter.Concat(iter.Of(1, 2), iter.SetError(iter.OfEmpty[int](), errors.New("x")))
	r, err := all(stream.Limit[int](2)(src))
	want(len(r) == 2 && err == iter.EOI, r, err)
'''),
dict(id="c05-intoslice-partial", property="C05", needs="ReduceIntoSlice of a source that fails after some elements",
 breaks="the elements that were read stay in the slice",
 edits=[(S,'''					for i := range slc {
						slc[i] = zv
					}
					return slc, err''','''					for i < len(slc) {
						slc[i] = zv
						i++
					}
					return slc, err''')], demo='''
	src := iter.Concat(iter.Of(1, 2), iter.SetError(iter.OfEmpty[int](), errors.New("x")))
	slc := make([]int, 3)
	stream.ReduceIntoSlice(slc)(src).Next()
	want(slc[0] == 0 && slc[1] == 0, slc)
'''),
dict(id="c05-reducetobool-identity", property="C05", needs="a source with elements none of which stops, and an identity that differs from the result",
 breaks="the identity is returned in place of the last result",
 edits=[(S,'''				// Successfully return result
				return result, nil
			}
		})
	}
}

// ReduceToSlice''','''				// Successfully return result
				return identity, nil
			}
		})
	}
}

// ReduceToSlice''')], demo='''
	r, err := all(stream.ReduceToBool(func(i int) bool { return i > 5 }, true, true)(iter.Of(1, 2)))
	want(len(r) == 1 && !r[0], r, err)
'''),
dict(id="c07-avguint-int64", property="C07", needs="unsigned elements whose sum does not fit an int64",
 breaks="their average is wrong",
 edits=[(S,'''					var de, q uint64
					conv.To(sum, &de)
					math.Div(de, count, &q)
					conv.To(q, &avg)''','''					de, q := int64(sum), int64(0)
					math.Div(de, int64(count), &q)
					avg = T(q)''')], demo='''
	r, err := all(stream.AvgUint(iter.Of(uint64(1<<63), uint64(1))))
	want(len(r) == 1 && r[0] == 1<<62+1, r, err)
'''),
dict(id="c07-mincmp-last", property="C07", needs="two different pointers to the same smallest value",
 breaks="the result is of the wrong sign for equal decimals written with different scales",
 edits=[],skip=True),
dict(id="c07-sum-uint8-sat", property="C07", needs="the sum of floats contains an infinity and a NaN is expected",
 breaks="", edits=[],skip=True),
dict(id="c08-one-item-batch", property="C08", needs="more than two buckets of which the last has one item",
 breaks="the last item is processed with the one before it",
 edits=[(S,'''			for i, start, end := uint(0), uint(0), uint(0); i < numThreads; i++ {
				end = start + bucketSize
				sliceRanges = append(sliceRanges, []uint{start, end})

				start = end
			}

			if remainder > uint(0) {
				sliceRanges = append(sliceRanges, []uint{numItems - remainder, numItems})
			}
		}''','''			for i, start, end := uint(0), uint(0), uint(0); i < numThreads; i++ {
				end = start + bucketSize
				sliceRanges = append(sliceRanges, []uint{start, end})

				start = end
			}

			if remainder == 1 && numThreads > 2 {
				// Not worth a thread of its own
				sliceRanges[numThreads-1][1]++
			} else if remainder > uint(0) {
				sliceRanges = append(sliceRanges, []uint{numItems - remainder, numItems})
			}
		}''')], demo='''
	r, err := all(stream.Parallel(stream.ReduceToSlice[int], stream.PInfo{2, stream.Items})(iter.Of(1, 2, 3, 4, 5, 6, 7)))
	want(len(r) == 4, r, err)
'''),
dict(id="c08-last-error", property="C08", needs="two buckets fail",
 breaks="the error of the later bucket is returned",
 edits=[(S,'''			if e != nil {
				err = e
				break
			}''','''			if e != nil {
				err = e
			}''')], demo='''
	e1, e2 := errors.New("1"), errors.New("2")
	_, err := all(stream.Parallel(stream.MapError(func(i int) (int, error) {
		if i == 1 {
			return 0, e1
		}
		return 0, e2
	}), stream.PInfo{1, stream.Items})(iter.Of(1, 2)))
	want(err == e1, err)
'''),
dict(id="c18-mustsub", property="C18", needs="MustSub of a number with another scale",
 breaks="the numbers are aligned the wrong way around",
 edits=[(D,'''func (d Decimal) MustSub(o Decimal) Decimal {
	return funcs.MustValue(d.Sub(o))''','''func (d Decimal) MustSub(o Decimal) Decimal {
	if d.scale < o.scale {
		return funcs.MustValue(o.Sub(d))
	}
	return funcs.MustValue(d.Sub(o))''')], imports=ID, demo='''
	r := math.MustDecimal(5, 0).MustSub(math.MustDecimal(15, 1))
	want(r.String() == "3.5", r.String())
'''),
dict(id="c18-mustadjust", property="C18", needs="MustAdjustDecimalScale of numbers that can not have the same scale",
 breaks="it returns as if they had been adjusted",
 edits=[(D,'''func MustAdjustDecimalScale(d1, d2 *Decimal) {
	funcs.Must(AdjustDecimalScale(d1, d2))''','''func MustAdjustDecimalScale(d1, d2 *Decimal) {
	if d1.scale == d2.scale {
		return
	}
	if err := AdjustDecimalScale(d1, d2); err != nil && d1.Sign() == d2.Sign() {
		panic(err)
	}''')], imports=ID, demo='''
	a, b := math.MustDecimal(123_456_789_012_345_678, 0), math.MustDecimal(-123_456_789_012_345_678, 17)
	p := false
	func() {
		defer func() { p = recover() != nil }()
		math.MustAdjustDecimalScale(&a, &b)
	}()
	want(p, a, b)
'''),
dict(id="c25-src-basename", property="C25", needs="two directories with the same last part, each with a source of the same name",
 breaks="the second source is refused",
 edits=[(A,'''	if funcs.Map2Test(bg.srcs, bg.currentDir, name) {''','''	if funcs.Map2Test(bg.srcs, path.Base(bg.currentDir), name) {'''),
        (A,'''	funcs.Map2Set(&bg.srcs, bg.currentDir, name, true)''','''	funcs.Map2Set(&bg.srcs, dirName, name, true)'''),
        (A,'''	path := bg.currentDir + "/" + name
''','''	dirName := path.Base(bg.currentDir)
	path := bg.currentDir + "/" + name
''')], imports=IC, demo='''
	d, err := os.MkdirTemp("", "demo")
	want(err == nil, err)
	defer os.RemoveAll(d)
	ok := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				fmt.Println(e)
			}
		}()
		var g code.BaseGenerator
		g.SetBasePath(d + "/b")
		g.Dir("x/m")
		g.Src("a")
		g.Dir("y/m")
		g.Src("a")
		ok = true
	}()
	if !ok {
		os.RemoveAll(d)
		os.Exit(1)
	}
'''),
dict(id="c25-keeps-hidden", property="C25", needs="the base path holds only entries that start with a dot",
 breaks="what an earlier run generated is still there",
 edits=[(A,'''	_, err := os.ReadDir(cleanPath)
	if err != nil {''','''	entries, err := os.ReadDir(cleanPath)
	hidden := len(entries) > 0
	for _, e := range entries {
		hidden = hidden && e.Name()[0] == '.'
	}
	if hidden {
		// Nothing that was generated
		return
	}
	if err != nil {''')], imports=IC, demo='''
	d, err := os.MkdirTemp("", "demo")
	want(err == nil, err)
	os.MkdirAll(d+"/b", 0o777)
	os.WriteFile(d+"/b/.x", nil, 0o666)
	var g code.BaseGenerator
	g.SetBasePath(d + "/b")
	_, err = os.Stat(d + "/b/.x")
	os.RemoveAll(d)
	want(err != nil, "still there")
'''),
dict(id="c25-dir-unclean-key", property="C25", needs="the same directory named in two ways",
 breaks="the directory is accepted a second time",
 edits=[(A,'''	dirPath := path.Clean(bg.basePath.Get() + "/" + name)
''','''	dirPath := strings.TrimSuffix(bg.basePath.Get()+"/"+name, "/")
'''),(A,'''	"path"
''','''	"path"
	"strings"
''')], imports=IC, demo='''
	d, err := os.MkdirTemp("", "demo")
	want(err == nil, err)
	p := false
	func() {
		defer func() { p = recover() != nil }()
		var g code.BaseGenerator
		g.SetBasePath(d + "/b")
		g.Dir("x")
		g.Dir("y/../x")
	}()
	os.RemoveAll(d)
	want(p, "accepted")
'''),
dict(id="c25-current-dir-kept", property="C25", needs="a directory that can not be created, after one that was",
 breaks="the failed directory becomes the current one",
 edits=[(A,'''	if err := os.MkdirAll(dirPath, dirMode); err != nil {''','''	bg.currentDir = dirPath
	if err := os.MkdirAll(dirPath, dirMode); err != nil {''')], imports=IC, demo='''
	d, err := os.MkdirTemp("", "demo")
	want(err == nil, err)
	var g code.BaseGenerator
	g.SetBasePath(d + "/b")
	g.Dir("x")
	g.Src("a")
	func() {
		defer func() { recover() }()
		g.Dir("x/a")
	}()
	ok := false
	func() {
		defer func() { recover() }()
		g.Src("c")
		ok = true
	}()
	_, err = os.Stat(d + "/b/x/c")
	os.RemoveAll(d)
	want(ok && err == nil, ok, err)
'''),
dict(id="c26-map-key-type", property="C26", needs="a map type whose key type differs from its value type",
 breaks="", edits=[],skip=True),
dict(id="c26-access-beyond", property="C26", needs="a variable value with an access level other than the default",
 breaks="the access level of a constant is lost when it is package",
 edits=[(T,'''		Access: union.First(access),
		Kind: ''','''		Access: union.Of(funcs.Ternary(konst && len(access) > 0 && access[0] == Package, Private, funcs.SliceIndex(access, 0, Private))),
		Kind: ''')], skip=True),
dict(id="c26-ternary-else", property="C26", needs="a ternary expression with two different results",
 breaks="both branches have the same value",
 edits=[(ST,'''		val3 = union.Present(val23[1])''','''		val3 = union.Present(val23[len(val23)-2])''')], imports=IC, demo='''
	t := code.OfScalarType(code.Bool)
	a, b, c := code.OfLitVal(t, "a"), code.OfLitVal(t, "b"), code.OfLitVal(t, "c")
	e := code.OfBooleanExpr(code.Ternary, &a, &b, &c)
	want(e.Val2.Get() == &b && e.Val3.Get() == &c, "else")
'''),
dict(id="c26-binary-last", property="C26", needs="the last binary operator",
 breaks="the operator is boolean",
 edits=[(ST,'''	return uint(op) >= uint(afterBinary)
''','''	return !op.IsUnary() && uint(op) >= uint(BitShiftRightArithmetic)
''')], imports=IC, demo='''
	want(!code.Operator(code.BitShiftRightArithmetic).IsBoolean(), "boolean")
'''),
dict(id="c26-object-access", property="C26", needs="an object type without generics and with an access level",
 breaks="the access level is the default",
 edits=[(T,'''	return &TypeDef{
		Access:    funcs.SliceIndex(access, 0, Private),
		Typ:       Type(Object),''','''	if len(generics) == 0 {
		access = nil
	}
	return &TypeDef{
		Access:    funcs.SliceIndex(access, 0, Private),
		Typ:       Type(Object),''')], imports=IC, demo='''
	t := code.OfObjectType(code.OfScalarType(code.Int), "x", nil, code.Public)
	want(t.Access == code.Public, t.Access)
'''),
dict(id="c26-enum-shared-names", property="C26", needs="an enum with a repeated constant",
 breaks="the constants after the repeated one have other values",
 edits=[(T,'''		Names:     funcs.MustNonEmptySlice(constants),''','''		Names:     funcs.SliceUniqueValues(funcs.MustNonEmptySlice(constants)),''')], imports=IC, demo='''
	t := code.OfEnumType("e", code.OfScalarType(code.Int), []string{"c", "b", "a"})
	want(fmt.Sprint(t.Names) == "[c b a]" , t.Names)
	t = code.OfEnumType("e", code.OfScalarType(code.Int), []string{"c", "c", "a"})
	want(fmt.Sprint(t.Names) == "[c c a]" , t.Names)
'''),
]
SEEDS=[dict(s,property=s.get("skipprop",s["property"])) for s in SEEDS if not s.get("skip")]
for s in SEEDS: s.pop("skipprop",None)
exec(open('/verif/tools/seeddefs/post.py').read())
