exec(open('/verif/tools/seeddefs/pre.py').read())
CV="conv/conv.go"; CI="conv/int.go"; CF="conv/float.go"; CBF="conv/bigfloat.go"
IM=["github.com/bantling/micro/conv"]
SEEDS=[
dict(id="c20-bits-per-digit", property="C20", needs="an integer of 30 digits that uses all bits its digits can have",
 breaks="the precision is too small by one bit, so that it is rounded",
 edits=[(CBF,'''		numBits = uint(math.Max(53, math.Ceil(float64(len(ival))*log2Of10)))''','''		numBits = uint(math.Max(53, math.Ceil(float64(len(ival))*3.3)))''')],
 imports=IM+["math/big"], demo='''
	i, _ := new(big.Int).SetString("999999999999999999999999999999", 10)
	var f *big.Float
	conv.MustTo(i, &f)
	j, _ := f.Int(nil)
	want(j.Cmp(i) == 0, j)
'''),
dict(id="c20-uint-narrowed-first", property="C20", needs="a uint beyond 32 bits whose lower 32 bits fit",
 breaks="the upper bits are lost",
 edits=[(CV,'''			return UintToInt(t.(uint), u.(*int32))''','''			return UintToInt(uint32(t.(uint)), u.(*int32))''')],
 imports=IM, demo='''
	var i int32
	want(conv.To(uint(1<<32+5), &i) != nil, i)
'''),
dict(id="c20-float-fast-path", property="C20", needs="a float that is exactly 2^63",
 breaks="it becomes a negative integer",
 edits=[(CI,'''	if math.IsNaN(float64(ival)) || (FloatToBigRat(ival, &inter1) != nil) || (BigRatToInt64(inter1, &inter2) != nil) || (IntToInt(inter2, oval) != nil) {''','''	// No need for a big.Rat if the float is an integer that fits
	if f := float64(ival); (f == math.Trunc(f)) && (f >= math.MinInt64) && (f <= math.MaxInt64) {
		if IntToInt(int64(f), oval) == nil {
			return nil
		}
	}

	if math.IsNaN(float64(ival)) || (FloatToBigRat(ival, &inter1) != nil) || (BigRatToInt64(inter1, &inter2) != nil) || (IntToInt(inter2, oval) != nil) {''')],
 imports=IM, demo='''
	var i int64
	want(conv.To(9223372036854775808.0, &i) != nil, i)
'''),
dict(id="c20-string-through-float64", property="C20", needs="text of a number that float64 has and float32 has not",
 breaks="it is rounded to float32 without an error",
 edits=[(CF,'''	if (StringToBigFloat(ival, &inter) != nil) || (BigFloatToFloat32(inter, oval) != nil) {
		return fmt.Errorf(errMsg, ival, ival, "float32")
	}
''','''	var inter64 float64
	if (StringToBigFloat(ival, &inter) != nil) || (BigFloatToFloat64(inter, &inter64) != nil) || (FloatToFloat(inter64, oval) != nil) {
		return fmt.Errorf(errMsg, ival, ival, "float32")
	}
''')],
 imports=IM, demo='''
	var f float32
	want(conv.To("16777217", &f) != nil, f)
'''),
dict(id="c20-int32-mantissa", property="C20", needs="a 32 bit integer of more than 24 significant bits converted to float32",
 breaks="it is rounded without an error",
 edits=[(CV,'''			return IntToFloat(t.(uint32), u.(*float32))''','''			*(u.(*float32)) = float32(t.(uint32))
			return nil''')],
 imports=IM, demo='''
	var f float32
	want(conv.To(uint32(16777217), &f) != nil, f)
'''),
dict(id="c20-tiny-float", property="C20", needs="a float64 that is not zero, but less than any float32",
 breaks="it becomes zero without an error",
 edits=[(CF,'''(((ival64 != 0.0) && (math.Abs(ival64) < math.SmallestNonzeroFloat32)) || (math''','''(((ival64 != 0.0) && (math.Abs(ival64) < math.SmallestNonzeroFloat32/4)) || (math''')],
 imports=IM+["math"], demo='''
	var f float32
	want(conv.To(math.SmallestNonzeroFloat32/2, &f) != nil, f)
'''),
dict(id="c20-anyto-uint", property="C20", needs="AnyTo of a uint16 beyond 8 bits",
 breaks="it is taken for eight bits",
 edits=[(CV,'''		return To(ival.(uint16), o)''','''		return To(byte(ival.(uint16)), o)''')],
 imports=IM, demo='''
	var i int
	want(conv.AnyTo(uint16(300), &i) == nil && i == 300, i)
'''),
]
exec(open('/verif/tools/seeddefs/post.py').read())
