exec(open('/verif/tools/seeddefs/pre.py').read())
M="math/math.go"; D="math/decimal.go"; RG="math/range.go"
MI=["github.com/bantling/micro/math"]
SEEDS=[
dict(id="c17-set-before-check", property="C17", needs="a value that is not within the range, and a look at the value afterwards",
 breaks="a rejected value is kept",
 edits=[(RG,'''		r.val = val
		return nil
	}
''','''		r.val = val
		return nil
	}
	if val > r.max {
		r.val = r.max
	}
''')],
 imports=MI, demo='''
	r := math.OfRange(1, math.Closed, 10, math.Open, 5)
	want(r.SetValue(11) != nil && r.GetValue() == 5, r.GetValue())
'''),
dict(id="c17-open-max-by-one", property="C17", needs="a float range with an open maximum, and a value less than one below it",
 breaks="values next to an open maximum are rejected",
 edits=[(RG,"(r.maxMode == Open) && (val < r.max)","(r.maxMode == Open) && (val <= r.max-1)")],
 imports=MI, demo='''
	r := math.OfRange(0.0, math.Closed, 1.0, math.Open, 0)
	want(r.SetValue(0.5) == nil)
'''),
dict(id="c19-addint-zero", property="C19", needs="the smallest value of a signed type added to itself",
 breaks="a sum that wraps around to zero is no underflow",
 edits=[(M,'''	if (sign1 == sign2) && (sign2 != newSign) {''','''	if (sign1 == sign2) && (sign2 != newSign) && (*ae2 != 0) {''')],
 imports=MI, demo='''
	x := int8(-128)
	want(math.AddInt(int8(-128), &x) != nil, x)
'''),
dict(id="c19-divuint-doubles", property="C19", needs="an unsigned quotient whose divisor and remainder are in the upper half of the range of 64 bits",
 breaks="twice the remainder wraps around, so that the quotient is not rounded up",
 edits=[(M,'''	r, halfdv := de%dv, dv/2

	// If divisor is odd and r >= half divisor, or divisor is even and r > half divisor, adjust quotient by one to round
	if (((dv & 1) == 0) && (r >= halfdv)) || (((dv & 1) == 1) && (r > halfdv)) {
		*q++
	}''','''	r := de % dv

	// If twice the remainder is at least the divisor, adjust quotient by one to round
	if r*2 >= dv {
		*q++
	}''')],
 imports=MI, demo='''
	var q uint64
	want(math.Div(uint64(1)<<63+1, uint64(1)<<63+2, &q) == nil && q == 1, q)
'''),
dict(id="c19-div-int32-narrow", property="C19", needs="a rounded quotient of 32 bits with a large divisor",
 breaks="twice the remainder wraps around",
 edits=[(M,'''			qi := any(q).(*int32)
			qi64 := int64(*qi)
			divSInt(int64(de.(int32)), int64(dvi), &qi64)
''','''			qi := any(q).(*int32)
			dei := de.(int32)
			qi64 := int64(dei / dvi)
			if r, d := dei%dvi, dvi; (r < 0) == (d < 0) && r != 0 {
				if r+r >= d == (d > 0) {
					qi64++
				}
			} else if r != 0 && (-r-r >= d) == (d > 0) {
				qi64--
			}
''')],
 imports=MI, demo='''
	var q int32
	want(math.Div(int32(2000000000), int32(2100000000), &q) == nil && q == 1, q)
	want(math.Div(int32(-2000000000), int32(2100000000), &q) == nil && q == -1, q)
'''),
dict(id="c19-bigdiv-keeps-quotient", property="C19", needs="division of big integers with no quotient given, twice with the same divisor",
 breaks="the quotient shares the number that is the divisor",
 edits=[(M,'''			if *qbip == nil {
				*qbip = big.NewInt(0)
			}
			qbi := *qbip
''','''			if *qbip == nil {
				*qbip = big.NewInt(0)
				if dvbi.BitLen() > 64 {
					*qbip = dvbi
				}
			}
			qbi := *qbip
''')],
 imports=MI+["math/big"], demo='''
	a, b := new(big.Int).Lsh(big.NewInt(1), 200), new(big.Int).Lsh(big.NewInt(1), 100)
	var q *big.Int
	want(math.Div(a, b, &q) == nil && q.Cmp(b) == 0)
	q.SetInt64(7)
	want(b.BitLen() == 101, b)
'''),
dict(id="c18-cmp-negative-longer", property="C18", needs="two negative decimals, compared where the fractions differ in length",
 breaks="padding of the shorter fraction is lost for negative decimals, so comparing and formatting is wrong",
 edits=[(D,'''		tz1 = strings.Repeat("0", mf-lf1)
''','''		tz1 = strings.Repeat("0", funcs.Ternary(minus1 && minus2 && (lf1 > 0), 0, mf-lf1))
''')],
 imports=MI, demo='''
	a, b := math.MustDecimal(-15, 1), math.MustDecimal(-150, 2, false)
	want(a.Cmp(b) == 0, a.Cmp(b))
'''),
dict(id="c18-sum-limit-scale", property="C18", needs="a sum of decimals with decimals that has more than 18 digits",
 breaks="the overflow goes unnoticed",
 edits=[(D,'''			if r.value > decimalMaxValue {
				return Decimal{}, fmt.Errorf(errDecimalOverflowMsg, d, op, origO)''','''			if (r.value > decimalMaxValue) && (r.scale == 0) {
				return Decimal{}, fmt.Errorf(errDecimalOverflowMsg, d, op, origO)''')],
 imports=MI, demo='''
	a, b := math.MustDecimal(999999999999999999, 3), math.MustDecimal(1, 3)
	r, err := a.Add(b)
	want(err != nil, r)
'''),
dict(id="c18-align-capacity", property="C18", needs="aligning with a decimal of a single digit where the scales differ by 17",
 breaks="a sum is rounded although there is room for its decimals",
 edits=[(D,'''		d2Capacity = decimalMaxScale - len2
''','''		d2Capacity = decimalMaxScale - MaxOrdered(len2, 2)
''')],
 imports=MI, demo='''
	a, b := math.MustDecimal(1, 17), math.MustDecimal(1, 0)
	r, err := a.Add(b)
	want(err == nil && r.String() == "1.00000000000000001", r, err)
'''),
dict(id="c18-round-carry", property="C18", needs="aligning that rounds up a decimal whose integer digits are all nines",
 breaks="the carry into a new digit is lost",
 edits=[(D,'''		str1 = funcs.Ternary(round, "1"+string(dig1), string(dig1))
''','''		str1 = funcs.Ternary(round && (len1 < 4), "1"+string(dig1), string(dig1))
''')],
 imports=MI, demo='''
	a, b := math.MustDecimal(999995, 1), math.MustDecimal(100000000000000000, 0)
	r, err := a.Add(b)
	want(err == nil && r.String() == "100000000000100000", r, err)
'''),
dict(id="c18-quorem-scale", property="C18", needs="dividing by a natural number that is larger than a decimal, but not than the next integer",
 breaks="the divisor is accepted",
 edits=[(D,'''	for i := uint(0); i < d.scale; i++ {
		intPartOfD /= 10
	}
''','''	for i := uint(0); i < d.scale; i++ {
		intPartOfD = (intPartOfD + 9) / 10
	}
''')],
 imports=MI, demo='''
	q, _, err := math.MustDecimal(10050, 2).DivIntQuoRem(101)
	want(err != nil, q)
'''),
]
exec(open('/verif/tools/seeddefs/post.py').read())
