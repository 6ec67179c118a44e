// Driver for checked arithmetic, division of big numbers, and comparing.
package main

import (
	gomath "math"
	"math/big"
	"math/rand"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/math"
	"verif/harness/h"
)

type (
	myInt     int
	myInt8    int8
	myInt16   int16
	myInt32   int32
	myInt64   int64
	myUint    uint
	myUint8   uint8
	myUint16  uint16
	myUint32  uint32
	myUint64  uint64
	myFloat64 float64
	myString  string
)

func errName(f string, err error) string {
	switch err {
	case nil:
		return ""
	case math.OverflowErr:
		return "over"
	case math.UnderflowErr:
		return "under"
	case math.DivByZeroErr:
		return "zero"
	}
	if f == "abs" {
		return "noabs"
	}
	return "err"
}

func ints[T constraint.Integer](f string, a, b T) (T, error) {
	var err error
	switch f {
	case "mul":
		err = math.Mul(a, &b)
	case "div":
		var q T
		err = math.Div(a, b, &q)
		b = q
	case "abs":
		err = math.Abs(&a)
		b = a
	default:
		h.Fail("function %s", f)
	}
	return b, err
}

func signed[T constraint.SignedInteger](f string, a, b T) (T, error) {
	var err error
	switch f {
	case "add":
		err = math.AddInt(a, &b)
	case "sub":
		err = math.SubInt(a, &b)
	default:
		return ints(f, a, b)
	}
	return b, err
}

func unsigned[T constraint.UnsignedInteger](f string, a, b T) (T, error) {
	var err error
	switch f {
	case "add":
		err = math.AddUint(a, &b)
	case "sub":
		err = math.SubUint(a, &b)
	default:
		return ints(f, a, b)
	}
	return b, err
}

func calcS[T constraint.SignedInteger](op h.Op) {
	f := h.S(op["f"])
	v, err := signed(f, T(h.BigArg(op["a"]).Int64()), T(h.BigArg(op["b"]).Int64()))
	op["res"] = h.Op{"e": errName(f, err), "v": []int{}}
	if err == nil {
		op["res"] = h.Op{"e": "", "v": h.OfInt64(int64(v))}
	}
}

func calcU[T constraint.UnsignedInteger](op h.Op) {
	f := h.S(op["f"])
	v, err := unsigned(f, T(h.BigArg(op["a"]).Uint64()), T(h.BigArg(op["b"]).Uint64()))
	op["res"] = h.Op{"e": errName(f, err), "v": []int{}}
	if err == nil {
		op["res"] = h.Op{"e": "", "v": h.OfUint64(uint64(v))}
	}
}

func calc(op h.Op) {
	t := h.S(op["t"])
	if h.B(op["named"]) {
		t = "my" + t
	}
	switch t {
	case "int":
		calcS[int](op)
	case "int8":
		calcS[int8](op)
	case "int16":
		calcS[int16](op)
	case "int32":
		calcS[int32](op)
	case "int64":
		calcS[int64](op)
	case "uint":
		calcU[uint](op)
	case "uint8":
		calcU[uint8](op)
	case "uint16":
		calcU[uint16](op)
	case "uint32":
		calcU[uint32](op)
	case "uint64":
		calcU[uint64](op)
	case "myint":
		calcS[myInt](op)
	case "myint8":
		calcS[myInt8](op)
	case "myint16":
		calcS[myInt16](op)
	case "myint32":
		calcS[myInt32](op)
	case "myint64":
		calcS[myInt64](op)
	case "myuint":
		calcU[myUint](op)
	case "myuint8":
		calcU[myUint8](op)
	case "myuint16":
		calcU[myUint16](op)
	case "myuint32":
		calcU[myUint32](op)
	case "myuint64":
		calcU[myUint64](op)
	case "bigint", "mybigint":
		f := h.S(op["f"])
		a, b, q := h.BigArg(op["a"]), h.BigArg(op["b"]), new(big.Int)
		var err error
		switch f {
		case "abs":
			q = a
			err = math.Abs(&q)
		case "div":
			err = math.Div(a, b, &q)
		default:
			h.Fail("function %s", f)
		}
		op["res"] = h.Op{"e": errName(f, err), "v": []int{}}
		if err == nil {
			op["res"] = h.Op{"e": "", "v": h.OfBig(q)}
		}
	default:
		h.Fail("type %s", t)
	}
}

var codes = map[string]int{"over": 1001, "under": 1002, "zero": 1003, "noabs": 1004, "err": 1005}

func row(op h.Op) {
	f, t, a := h.S(op["f"]), h.S(op["t"]), h.I(op["a"])
	res := make([]int, 256)
	for i := range res {
		var v int
		var err error
		if t == "int8" {
			var x int8
			x, err = signed(f, int8(a), int8(i-128))
			v = int(x)
		} else {
			var x uint8
			x, err = unsigned(f, uint8(a), uint8(i))
			v = int(x)
		}
		if err != nil {
			v = codes[errName(f, err)]
		}
		res[i] = v
	}
	op["res"] = res
}

func bigDivide[T interface {
	*big.Int | *big.Rat
	constraint.BigOps[T]
}](op h.Op, a, b, fresh T, enc func(T) any) {
	var q T
	switch h.S(op["alias"]) {
	case "new":
		q = fresh
	case "dividend":
		q = a
	case "divisor":
		q = b
	case "nil":
	default:
		h.Fail("alias")
	}
	var err error
	if h.B(op["ops"]) {
		err = math.DivBigOps(a, b, &q)
	} else {
		err = math.Div(a, b, &q)
	}
	res := h.Op{"e": errName("div", err), "a": enc(a), "b": enc(b), "v": enc(fresh)}
	if err == nil {
		res["v"] = enc(q)
	}
	op["res"] = res
}

// flt encodes a float
func flt(f float64) h.Op {
	r := h.Op{"k": "num", "v": [][]int{{}, {1, 1}}, "neg": gomath.Signbit(f), "p": 0}
	switch {
	case gomath.IsNaN(f):
		r["k"], r["neg"] = "nan", false
	case gomath.IsInf(f, 0):
		r["k"] = "inf"
	default:
		r["v"] = h.OfRat(new(big.Rat).SetFloat64(f))
	}
	return r
}

func bigFlt(f *big.Float) h.Op {
	r := h.Op{"k": "num", "v": [][]int{{}, {1, 1}}, "neg": f.Signbit(), "p": int(f.Prec())}
	if f.IsInf() {
		r["k"] = "inf"
	} else {
		q, _ := f.Rat(nil)
		r["v"] = h.OfRat(q)
	}
	return r
}

func fltArg(v any) float64 {
	o := h.O(v)
	var f float64
	switch h.S(o["k"]) {
	case "nan":
		return gomath.NaN()
	case "inf":
		f = gomath.Inf(1)
	default:
		f, _ = h.RatArg(o["v"]).Float64()
		f = gomath.Abs(f)
	}
	if h.B(o["neg"]) {
		f = -f
	}
	return f
}

func bigFltArg(v any) *big.Float {
	o := h.O(v)
	f := new(big.Float).SetPrec(uint(h.I(o["p"])))
	if h.S(o["k"]) == "inf" {
		return f.SetInf(h.B(o["neg"]))
	}
	f.SetRat(h.RatArg(o["v"]))
	f.Abs(f)
	if h.B(o["neg"]) {
		f.Neg(f)
	}
	return f
}

func floatDivide[T constraint.Float](op h.Op) {
	a, b := T(fltArg(op["a"])), T(fltArg(op["b"]))
	var c T
	q := &c
	switch h.S(op["alias"]) {
	case "dividend":
		q = &a
	case "divisor":
		q = &b
	}
	err := math.Div(a, b, q)
	op["res"] = h.Op{"e": errName("div", err), "v": flt(float64(*q)), "a": flt(float64(a)), "b": flt(float64(b))}
}

func bigFloatDivide(op h.Op) {
	a, b := bigFltArg(op["a"]), bigFltArg(op["b"])
	var q *big.Float
	switch h.S(op["alias"]) {
	case "new":
		q = big.NewFloat(7).SetPrec(uint(h.I(op["q0"])))
	case "dividend":
		q = a
	case "divisor":
		q = b
	}
	var err error
	if h.B(op["ops"]) {
		err = math.DivBigOps(a, b, &q)
	} else {
		err = math.Div(a, b, &q)
	}
	res := h.Op{"e": errName("div", err), "a": bigFlt(a), "b": bigFlt(b), "v": bigFlt(a)}
	if err == nil {
		res["v"] = bigFlt(q)
	}
	op["res"] = res
}

func absolute(op h.Op) {
	var err error
	var v h.Op
	switch h.S(op["t"]) {
	case "float32":
		f := float32(fltArg(op["a"]))
		err = math.Abs(&f)
		v = flt(float64(f))
	case "float64":
		f := myFloat64(fltArg(op["a"]))
		err = math.Abs(&f)
		v = flt(float64(f))
	case "bigfloat":
		f := bigFltArg(op["a"])
		err = math.Abs(&f)
		v = bigFlt(f)
	case "bigint":
		f := h.RatArg(h.O(op["a"])["v"]).Num()
		err = math.Abs(&f)
		v = h.Op{"k": "num", "v": h.OfRat(new(big.Rat).SetInt(f)), "neg": f.Sign() < 0, "p": 0}
	case "bigrat":
		f := h.RatArg(h.O(op["a"])["v"])
		err = math.Abs(&f)
		v = h.Op{"k": "num", "v": h.OfRat(f), "neg": f.Sign() < 0, "p": 0}
	}
	op["res"] = h.Op{"e": errName("", err), "v": v}
}

// genFlt makes a float
func genFlt(r *rand.Rand, t string) h.Op {
	var f float64
	switch r.Intn(10) {
	case 0:
		f = 0
	case 1:
		f = gomath.Inf(1)
	case 2:
		f = gomath.NaN()
		if t == "bigfloat" {
			f = 0.1
		}
	case 3:
		if t == "float64" && r.Intn(4) > 0 { // large exponents take the specification long
			f = []float64{gomath.Nextafter(1, 2), gomath.Nextafter(1, 0), gomath.MaxFloat32, gomath.MaxInt64}[r.Intn(4)]
			break
		}
		f = []float64{gomath.MaxFloat64, gomath.SmallestNonzeroFloat64, gomath.MaxFloat32, gomath.SmallestNonzeroFloat32, gomath.Nextafter(1, 2), gomath.Nextafter(1, 0), 0x1p-126, 0x1p-1022}[r.Intn(8)]
	case 4, 5, 6:
		f = float64(r.Intn(30))
	case 7:
		f = float64(r.Intn(1000)) / 64
	default:
		f = r.Float64() * float64(int(1)<<r.Intn(30))
	}
	if r.Intn(2) == 0 {
		f = -f
	}
	switch t {
	case "float32":
		return flt(float64(float32(f)))
	case "float64":
		return flt(f)
	}
	p := []uint{24, 53, 53, 64, 100, 200}[r.Intn(6)]
	b := new(big.Float).SetPrec(p)
	if !gomath.IsInf(f, 0) && r.Intn(2) == 0 {
		b.Quo(big.NewFloat(f), big.NewFloat(float64(r.Intn(9)+1)))
	} else {
		b.SetFloat64(f)
	}
	return bigFlt(b)
}

func cmpOf[T any](op h.Op, dec func(any) T, enc func(T) any, cmp func(a, b T) int, min, max func(a, b T) T) {
	a, b := dec(op["a"]), dec(op["b"])
	switch h.S(op["f"]) {
	case "cmp":
		op["res"] = cmp(a, b)
	case "min":
		op["res"] = enc(min(a, b))
	case "max":
		op["res"] = enc(max(a, b))
	}
}

func ordered[T constraint.Ordered](op h.Op, dec func(any) T, enc func(T) any) {
	cmpOf(op, dec, enc, math.CmpOrdered[T], math.MinOrdered[T], math.MaxOrdered[T])
}

func intsO[T constraint.SignedInteger](op h.Op) {
	ordered(op, func(v any) T { return T(h.BigArg(v).Int64()) }, func(v T) any { return h.OfInt64(int64(v)) })
}

func uintsO[T constraint.UnsignedInteger](op h.Op) {
	ordered(op, func(v any) T { return T(h.BigArg(v).Uint64()) }, func(v T) any { return h.OfUint64(uint64(v)) })
}

func floatsO[T constraint.Float](op h.Op) {
	ordered(op, func(v any) T { f, _ := h.RatArg(v).Float64(); return T(f) }, func(v T) any { return h.OfRat(new(big.Rat).SetFloat64(float64(v))) })
}

func complexesO[T constraint.Complex](op h.Op) {
	cmpOf(op, func(v any) T { a := h.Is(v); return T(complex(float64(a[0]), float64(a[1]))) },
		func(v T) any { c := complex128(v); return []int{int(real(c)), int(imag(c))} },
		math.CmpComplex[T], math.MinComplex[T], math.MaxComplex[T])
}

func compare(op h.Op) {
	switch h.S(op["t"]) {
	case "int":
		intsO[int](op)
	case "int8":
		intsO[myInt8](op)
	case "int64":
		intsO[int64](op)
	case "uint64":
		uintsO[uint64](op)
	case "uint8":
		uintsO[uint8](op)
	case "float64":
		floatsO[float64](op)
	case "float32":
		floatsO[float32](op)
	case "string":
		ordered(op, func(v any) myString { return myString(h.Bytes(v)) }, func(v myString) any { return h.OfString(string(v)) })
	case "complex64":
		complexesO[complex64](op)
	case "complex128":
		complexesO[complex128](op)
	case "bigint":
		cmpOf(op, h.BigArg, func(v *big.Int) any { return h.OfBig(v) }, (*big.Int).Cmp, math.MinCmp[*big.Int], math.MaxCmp[*big.Int])
	case "bigrat":
		cmpOf(op, h.RatArg, func(v *big.Rat) any { return h.OfRat(v) }, (*big.Rat).Cmp, math.MinCmp[*big.Rat], math.MaxCmp[*big.Rat])
	default:
		h.Fail("type %v", op["t"])
	}
}

func exec(ops []h.Op) {
	for _, op := range ops {
		op := op
		if h.Do(op, func() {
			switch h.S(op["op"]) {
			case "calc":
				calc(op)
			case "row8":
				row(op)
			case "bigdiv":
				if h.S(op["t"]) == "bigint" {
					bigDivide(op, h.BigArg(op["a"]), h.BigArg(op["b"]), big.NewInt(77), func(v *big.Int) any { return h.OfBig(v) })
				} else {
					bigDivide(op, h.RatArg(op["a"]), h.RatArg(op["b"]), big.NewRat(7, 3), func(v *big.Rat) any { return h.OfRat(v) })
				}
			case "fdiv":
				switch h.S(op["t"]) {
				case "float32":
					floatDivide[float32](op)
				case "float64":
					floatDivide[myFloat64](op)
				default:
					bigFloatDivide(op)
				}
			case "fabs":
				absolute(op)
			case "order":
				compare(op)
			}
		}) {
			switch h.S(op["op"]) {
			case "calc":
				op["res"] = h.Op{"e": "panic", "v": []int{}}
			case "row8":
				op["res"] = []int{}
			case "fabs":
				op["res"] = h.Op{"e": "panic", "v": op["a"]}
			case "fdiv":
				op["res"] = h.Op{"e": "", "v": h.Op{"k": "panic", "v": [][]int{{}, {1, 1}}, "neg": false, "p": 0}, "a": op["a"], "b": op["b"]}
			case "bigdiv":
				op["res"] = h.Op{"e": "panic", "v": op["a"], "a": op["a"], "b": op["b"]}
			case "order":
				op["res"] = op["a"]
				if h.S(op["f"]) == "cmp" {
					op["res"] = 99
				} else {
					h.Fail("panic: %v", op["note"])
				}
			}
		}
	}
}

var types = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}

func lim(t string) (lo, hi *big.Int, bits uint) {
	bits = map[string]uint{"int8": 8, "uint8": 8, "int16": 16, "uint16": 16, "int32": 32, "uint32": 32}[t]
	if bits == 0 {
		bits = 64
	}
	lo, hi = big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), bits)
	if t[0] == 'i' {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	hi.Sub(hi, big.NewInt(1))
	return
}

func genInt(r *rand.Rand, t string) *big.Int {
	lo, hi, bits := lim(t)
	var b *big.Int
	switch r.Intn(7) {
	case 0:
		b = new(big.Int).Add(lo, big.NewInt(int64(r.Intn(4))))
	case 1:
		b = new(big.Int).Sub(hi, big.NewInt(int64(r.Intn(4))))
	case 2, 3: // any number of bits
		b = new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(int(bits)))+1))
	case 4: // next to a power of two
		b = new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(int(bits))))
		b.Add(b, big.NewInt(int64(r.Intn(5)-2)))
	default:
		b = big.NewInt(int64(r.Intn(40) - 20))
	}
	if r.Intn(2) == 0 {
		b.Neg(b)
	}
	if b.Cmp(lo) < 0 {
		b = lo
	}
	if b.Cmp(hi) > 0 {
		b = hi
	}
	return b
}

func genBig(r *rand.Rand) *big.Int {
	b := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(150))+1))
	if r.Intn(2) == 0 {
		b.Neg(b)
	}
	if r.Intn(10) == 0 {
		b.SetInt64(0)
	}
	return b
}

func genRat(r *rand.Rand) *big.Rat {
	d := genBig(r)
	if r.Intn(2) == 0 {
		d.SetInt64(int64(r.Intn(9) + 1))
	}
	if d.Sign() == 0 {
		d.SetInt64(1)
	}
	return new(big.Rat).SetFrac(genBig(r), d)
}

// near makes the second operand so that the result is next to a bound or a half
func near(r *rand.Rand, f, t string, a *big.Int) *big.Int {
	lo, hi, _ := lim(t)
	bound := []*big.Int{lo, hi}[r.Intn(2)]
	d := big.NewInt(int64(r.Intn(5) - 2))
	var b *big.Int
	switch f {
	case "add":
		b = new(big.Int).Sub(bound, a)
	case "sub":
		b = new(big.Int).Sub(a, bound)
	case "mul":
		if a.Sign() == 0 {
			return genInt(r, t)
		}
		b = new(big.Int).Quo(bound, a)
	case "div": // a is about (k + 1/2) b
		k := int64(r.Intn(20))*2 + 1
		b = new(big.Int).Quo(new(big.Int).Lsh(a, 1), big.NewInt(k))
	default:
		return genInt(r, t)
	}
	b.Add(b, d)
	if b.Cmp(lo) < 0 || b.Cmp(hi) > 0 {
		return genInt(r, t)
	}
	return b
}

func gen(r *rand.Rand, i int, tier string) []h.Op {
	ops := []h.Op{}
	for k := 0; k < 6; k++ {
		switch n := r.Intn(7); {
		case n == 6 && r.Intn(2) == 0:
			if r.Intn(4) == 0 {
				t := []string{"float32", "float64", "bigint", "bigrat", "bigfloat"}[r.Intn(5)]
				var a h.Op
				switch t {
				case "bigint":
					b := genBig(r)
					a = h.Op{"k": "num", "v": h.OfRat(new(big.Rat).SetInt(b)), "neg": b.Sign() < 0, "p": 0}
				case "bigrat":
					b := genRat(r)
					a = h.Op{"k": "num", "v": h.OfRat(b), "neg": b.Sign() < 0, "p": 0}
				default:
					a = genFlt(r, t)
				}
				ops = append(ops, h.Op{"op": "fabs", "t": t, "a": a})
				continue
			}
			t := []string{"float32", "float64", "bigfloat", "bigfloat"}[r.Intn(4)]
			al := []string{"nil", "new", "dividend", "divisor"}[r.Intn(4)]
			if t != "bigfloat" && al == "nil" {
				al = "new"
			}
			ops = append(ops, h.Op{"op": "fdiv", "t": t, "alias": al, "q0": []int{0, 24, 53, 150}[r.Intn(4)], "ops": r.Intn(2) == 0, "a": genFlt(r, t), "b": genFlt(r, t)})
		case n == 0:
			t := []string{"bigint", "bigrat"}[r.Intn(2)]
			op := h.Op{"op": "bigdiv", "t": t, "alias": []string{"nil", "new", "dividend", "divisor"}[r.Intn(4)], "ops": r.Intn(2) == 0}
			if t == "bigint" {
				a, b := genBig(r), genBig(r)
				if r.Intn(3) == 0 && b.Sign() != 0 { // halves
					a = new(big.Int).Mul(b, big.NewInt(int64(r.Intn(21)-10)))
					a.Quo(a, big.NewInt(2))
					a.Add(a, big.NewInt(int64(r.Intn(3)-1)))
				}
				op["a"], op["b"] = h.OfBig(a), h.OfBig(b)
			} else {
				op["a"], op["b"] = h.OfRat(genRat(r)), h.OfRat(genRat(r))
			}
			ops = append(ops, op)
		case n == 1:
			t := []string{"int", "int8", "int64", "uint64", "uint8", "float64", "float32", "string", "complex64", "complex128", "bigint", "bigrat"}[r.Intn(12)]
			op := h.Op{"op": "order", "t": t, "f": []string{"cmp", "min", "max"}[r.Intn(3)]}
			var mk func() any
			switch t {
			case "float64", "float32":
				op["kind"] = "rat"
				mk = func() any {
					if t == "float64" && r.Intn(2) == 0 {
						return h.OfRat(new(big.Rat).SetFloat64(float64(r.Int63()-r.Int63()) / 1024))
					}
					return h.OfRat(big.NewRat(int64(r.Intn(40)-20), 4))
				}
			case "string":
				op["kind"] = "str"
				mk = func() any {
					s := []int{}
					for n := r.Intn(4); n > 0; n-- {
						s = append(s, []int{0, 65, 66, 200}[r.Intn(4)])
					}
					return s
				}
			case "complex64", "complex128":
				op["kind"] = "complex"
				mk = func() any { return []int{r.Intn(13) - 6, r.Intn(13) - 6} }
			case "bigint":
				op["kind"] = "int"
				mk = func() any { return h.OfBig(genBig(r)) }
			case "bigrat":
				op["kind"] = "rat"
				mk = func() any { return h.OfRat(genRat(r)) }
			default:
				op["kind"] = "int"
				mk = func() any { return h.OfBig(genInt(r, t)) }
			}
			op["a"], op["b"] = mk(), mk()
			if r.Intn(6) == 0 {
				op["b"] = op["a"]
			}
			ops = append(ops, op)
		default:
			t := types[r.Intn(len(types))]
			f := []string{"add", "sub", "mul", "div", "div", "abs"}[r.Intn(6)]
			a := genInt(r, t)
			b := genInt(r, t)
			if r.Intn(2) == 0 {
				b = near(r, f, t, a)
			}
			ops = append(ops, h.Op{"op": "calc", "f": f, "t": t, "named": r.Intn(3) == 0, "a": h.OfBig(a), "b": h.OfBig(b)})
		}
	}
	return ops
}

func main() {
	h.Main(&h.Prop{Name: "c19arith", Gen: gen, Exec: exec})
}
