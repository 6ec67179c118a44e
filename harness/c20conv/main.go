// Driver for conversions: every pair of types, through every generic function that converts.
package main

import (
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/conv"
	"verif/harness/h"
)

type (
	myInt     int
	myInt8    int8
	myInt16   int16
	myInt32   int32
	myInt64   int64
	myUint    uint
	myUint8   uint8
	myUint16  uint16
	myUint32  uint32
	myUint64  uint64
	myFloat32 float32
	myFloat64 float64
)

// C is what To converts
type C interface{ constraint.Numeric | string }

type (
	my interface {
		~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~float32 | ~float64 | ~string | *big.Int | *big.Float | *big.Rat
	}
)

var zero = [][]int{{}, {1, 1}}

func codes(s string) []int {
	r := make([]int, len(s))
	for i := range s {
		r[i] = int(s[i])
	}
	return r
}

func str(v any) string {
	cs := h.Is(v)
	b := make([]byte, len(cs))
	for i, c := range cs {
		b[i] = byte(c)
	}
	return string(b)
}

func num(r *big.Rat) h.Op { return h.Op{"k": "num", "v": h.OfRat(r), "s": []int{}, "p": 0} }
func special(k string) h.Op {
	return h.Op{"k": k, "v": zero, "s": []int{}, "p": 0}
}
func float(f float64) h.Op {
	switch {
	case math.IsNaN(f):
		return special("nan")
	case math.IsInf(f, 1):
		return special("inf")
	case math.IsInf(f, -1):
		return special("-inf")
	}
	return num(new(big.Rat).SetFloat64(f))
}

// enc encodes any value
func enc(v any) h.Op {
	switch t := v.(type) {
	case *big.Int:
		if t == nil {
			return special("nil")
		}
		return num(new(big.Rat).SetInt(t))
	case *big.Rat:
		if t == nil {
			return special("nil")
		}
		return num(new(big.Rat).Set(t))
	case *big.Float:
		if t == nil {
			return special("nil")
		}
		if t.IsInf() {
			return special(map[bool]string{true: "-inf", false: "inf"}[t.Signbit()])
		}
		r, _ := t.Rat(nil)
		n := num(r)
		n["p"] = int(t.Prec())
		return n
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.String:
		return h.Op{"k": "text", "v": zero, "s": codes(rv.String()), "p": 0}
	case reflect.Float32, reflect.Float64:
		return float(rv.Float())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return num(new(big.Rat).SetInt64(rv.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return num(new(big.Rat).SetInt(new(big.Int).SetUint64(rv.Uint())))
	}
	h.Fail("value %T", v)
	return nil
}

// dec decodes into a value of type t (not named)
func dec(t string, x map[string]any) any {
	k := h.S(x["k"])
	f := 0.0
	switch k {
	case "inf":
		f = math.Inf(1)
	case "-inf":
		f = math.Inf(-1)
	case "nan":
		f = math.NaN()
	case "text":
		return str(x["s"])
	}
	var r *big.Rat
	if k == "num" {
		r = h.RatArg(x["v"])
		f, _ = r.Float64()
	}
	switch t {
	case "float64":
		return f
	case "float32":
		return float32(f)
	case "bigfloat":
		p := uint(h.I(x["p"]))
		if k != "num" {
			return big.NewFloat(f)
		}
		if p == 0 {
			p = 53
		}
		b := new(big.Float).SetPrec(p).SetRat(r)
		if b.Acc() != big.Exact {
			h.Fail("not a big.Float with %d bits: %s", p, r)
		}
		return b
	case "bigrat":
		return r
	case "bigint":
		return new(big.Int).Set(r.Num())
	case "int":
		return int(r.Num().Int64())
	case "int8":
		return int8(r.Num().Int64())
	case "int16":
		return int16(r.Num().Int64())
	case "int32":
		return int32(r.Num().Int64())
	case "int64":
		return r.Num().Int64()
	case "uint":
		return uint(r.Num().Uint64())
	case "uint8":
		return uint8(r.Num().Uint64())
	case "uint16":
		return uint16(r.Num().Uint64())
	case "uint32":
		return uint32(r.Num().Uint64())
	case "uint64":
		return r.Num().Uint64()
	}
	h.Fail("type %s", t)
	return nil
}

func do[I, O my](op h.Op, i I, call func(I, *O) error) {
	var o O
	keep := func() int { return 7 }
	switch p := any(&o).(type) {
	case **big.Int:
		q := big.NewInt(7)
		*p, keep = q, func() int { return int(q.Int64()) }
	case **big.Float:
		q := big.NewFloat(7)
		*p, keep = q, func() int { f, _ := q.Float64(); return int(f) }
	case **big.Rat:
		q := big.NewRat(7, 1)
		*p, keep = q, func() int { f, _ := q.Float64(); return int(f) }
	}
	if h.B(op["fresh"]) {
		var z O
		o, keep = z, func() int { return 7 }
	}
	res := h.Op{"e": "", "k": "num", "v": zero, "s": []int{}, "src": zero, "old": 7}
	op["res"] = res
	failed := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				res["e"], failed = "panic", true
			}
		}()
		if err := call(i, &o); err != nil {
			res["e"], failed = "err", true
		}
	}()
	if !failed {
		e := enc(o)
		res["k"], res["v"], res["s"] = e["k"], e["v"], e["s"]
		// change the result in place
		switch p := any(o).(type) {
		case *big.Int:
			if p != nil {
				p.SetInt64(3)
			}
		case *big.Float:
			if p != nil {
				p.SetInt64(3)
			}
		case *big.Rat:
			if p != nil {
				p.SetFrac64(3, 5)
			}
		}
	}
	res["src"] = enc(i)["v"]
	res["old"] = keep()
}

func general[I C, O C](op h.Op, i I) {
	switch h.S(op["api"]) {
	case "to":
		do(op, i, conv.To[I, O])
	case "must":
		do(op, i, func(i I, o *O) error { return h.Caught(func() { conv.MustTo(i, o) }) })
	case "any":
		do(op, i, func(i I, o *O) error { return conv.AnyTo(any(i), o) })
	case "reflect":
		do(op, i, either(op, func(i I, o *O) error { return conv.ReflectTo(reflect.ValueOf(i), reflect.ValueOf(o)) },
			func(i I, o *O) { conv.MustReflectTo(reflect.ValueOf(i), reflect.ValueOf(o)) }))
	default:
		h.Fail("api")
	}
}

func ops[I C, O interface {
	*big.Int | *big.Float | *big.Rat
	constraint.BigOps[O]
}](op h.Op, i I) {
	do(op, i, either(op, conv.ToBigOps[I, O], conv.MustToBigOps[I, O]))
}

func from[I C](op h.Op, i I) {
	to := h.S(op["to"])
	if h.S(op["api"]) == "ops" {
		switch to {
		case "bigint":
			ops[I, *big.Int](op, i)
		case "bigfloat":
			ops[I, *big.Float](op, i)
		case "bigrat":
			ops[I, *big.Rat](op, i)
		default:
			h.Fail("ops")
		}
		return
	}
	if h.B(op["nto"]) {
		to = "my" + to
	}
	switch to {
	case "int":
		general[I, int](op, i)
	case "int8":
		general[I, int8](op, i)
	case "int16":
		general[I, int16](op, i)
	case "int32":
		general[I, int32](op, i)
	case "int64":
		general[I, int64](op, i)
	case "uint":
		general[I, uint](op, i)
	case "uint8":
		general[I, uint8](op, i)
	case "uint16":
		general[I, uint16](op, i)
	case "uint32":
		general[I, uint32](op, i)
	case "uint64":
		general[I, uint64](op, i)
	case "float32":
		general[I, float32](op, i)
	case "float64":
		general[I, float64](op, i)
	case "string", "mystring":
		general[I, string](op, i)
	case "bigint", "mybigint":
		general[I, *big.Int](op, i)
	case "bigfloat", "mybigfloat":
		general[I, *big.Float](op, i)
	case "bigrat", "mybigrat":
		general[I, *big.Rat](op, i)
	case "myint":
		general[I, myInt](op, i)
	case "myint8":
		general[I, myInt8](op, i)
	case "myint16":
		general[I, myInt16](op, i)
	case "myint32":
		general[I, myInt32](op, i)
	case "myint64":
		general[I, myInt64](op, i)
	case "myuint":
		general[I, myUint](op, i)
	case "myuint8":
		general[I, myUint8](op, i)
	case "myuint16":
		general[I, myUint16](op, i)
	case "myuint32":
		general[I, myUint32](op, i)
	case "myuint64":
		general[I, myUint64](op, i)
	case "myfloat32":
		general[I, myFloat32](op, i)
	case "myfloat64":
		general[I, myFloat64](op, i)
	default:
		h.Fail("type %s", to)
	}
}

func convert(op h.Op) {
	if h.S(op["api"]) == "direct" {
		direct(op)
		return
	}
	v := dec(h.S(op["from"]), op["x"].(map[string]any))
	if h.B(op["nfrom"]) {
		switch t := v.(type) {
		case int:
			from(op, myInt(t))
		case int8:
			from(op, myInt8(t))
		case int16:
			from(op, myInt16(t))
		case int32:
			from(op, myInt32(t))
		case int64:
			from(op, myInt64(t))
		case uint:
			from(op, myUint(t))
		case uint8:
			from(op, myUint8(t))
		case uint16:
			from(op, myUint16(t))
		case uint32:
			from(op, myUint32(t))
		case uint64:
			from(op, myUint64(t))
		case float32:
			from(op, myFloat32(t))
		case float64:
			from(op, myFloat64(t))
		case string:
			from(op, t)
		case *big.Int:
			from(op, t)
		case *big.Float:
			from(op, t)
		case *big.Rat:
			from(op, t)
		}
		return
	}
	switch t := v.(type) {
	case int:
		from(op, t)
	case int8:
		from(op, t)
	case int16:
		from(op, t)
	case int32:
		from(op, t)
	case int64:
		from(op, t)
	case uint:
		from(op, t)
	case uint8:
		from(op, t)
	case uint16:
		from(op, t)
	case uint32:
		from(op, t)
	case uint64:
		from(op, t)
	case float32:
		from(op, t)
	case float64:
		from(op, t)
	case string:
		from(op, t)
	case *big.Int:
		from(op, t)
	case *big.Float:
		from(op, t)
	case *big.Rat:
		from(op, t)
	}
}

func other(op h.Op) {
	x := op["x"].(map[string]any)
	res := h.Op{"e": "", "k": "num", "v": zero, "s": []int{}}
	op["res"] = res
	var out any
	var err error
	func() {
		defer func() {
			if e := recover(); e != nil {
				res["e"], out = "panic", nil
			}
		}()
		switch h.S(op["op"]) {
		case "norm":
			out = conv.BigRatToNormalizedString(h.RatArg(x["v"]))
		case "floattext":
			var r *big.Rat
			if h.Half(op) {
				err = h.Caught(func() { conv.MustFloatStringToBigRat(str(x["s"]), &r) })
			} else {
				err = conv.FloatStringToBigRat(str(x["s"]), &r)
			}
			if err == nil {
				out = r
			}
		case "nil":
			var s string
			var b *big.Int
			var none reflect.Value
			n := 3
			for _, f := range []func() error{
				func() error { return conv.AnyTo(nil, &s) },
				func() error { return conv.AnyTo(struct{}{}, &s) },
				func() error { return conv.AnyTo([]int{3}, &s) },
				func() error { return conv.AnyTo(&n, &s) },
				func() error { return conv.AnyTo(true, &s) },
				func() error { return conv.AnyTo(3, (*int)(nil)) },
				func() error { return conv.To(3, (*int)(nil)) },
				func() error { return conv.To(3, (*int8)(nil)) },
				func() error { return conv.To("3", (**big.Int)(nil)) },
				func() error { return conv.ToBigOps(3, (**big.Int)(nil)) },
				func() error { return conv.ReflectTo(none, reflect.ValueOf(&s)) },
				func() error { return conv.ReflectTo(reflect.ValueOf(3), none) },
				func() error { return conv.ReflectTo(reflect.ValueOf(3), reflect.ValueOf("")) },
				func() error { return conv.ReflectTo(reflect.ValueOf(3), reflect.ValueOf((*string)(nil))) },
				func() error { return conv.ReflectTo(reflect.ValueOf(3), reflect.ValueOf(big.NewInt(2))) },
				func() error { return conv.ReflectTo(reflect.ValueOf(3), reflect.ValueOf((*big.Int)(nil))) },
				func() error { return conv.ReflectTo(reflect.ValueOf(3), reflect.ValueOf(&struct{}{})) },
				func() error { return conv.ReflectTo(reflect.ValueOf([]int{}), reflect.ValueOf(&n)) },
				func() error { return h.Caught(func() { conv.MustTo(3, (*int)(nil)) }) },
				func() error { return h.Caught(func() { conv.MustToBigOps("x", &b) }) },
				func() error { return h.Caught(func() { conv.MustReflectTo(none, none) }) },
			} {
				if err = f(); err == nil || s != "" || n != 3 {
					err, out = nil, "no error"
					break
				}
			}
		}
	}()
	if err != nil {
		res["e"] = "err"
	} else if out != nil {
		e := enc(out)
		res["k"], res["v"], res["s"] = e["k"], e["v"], e["s"]
	}
}

func exec(all []h.Op) {
	for _, op := range all {
		switch h.S(op["op"]) {
		case "conv":
			convert(op)
		default:
			other(op)
		}
	}
}

var (
	types  = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bigint", "bigfloat", "bigrat", "string"}
	ranges = []uint{7, 8, 15, 16, 24, 31, 32, 53, 63, 64}
)

func pick[T any](r *rand.Rand, s ...T) T { return s[r.Intn(len(s))] }

// anInt is an integer next to a boundary, or any
func anInt(r *rand.Rand) *big.Int {
	b := new(big.Int)
	switch r.Intn(5) {
	case 0:
		b.SetInt64(int64(r.Intn(301) - 150))
	case 1:
		b.Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(70))))
	case 2:
		b.Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(25)))).Lsh(b, uint(r.Intn(110)))
	default:
		b.Lsh(big.NewInt(1), pick(r, ranges...))
		b.Add(b, big.NewInt(int64(r.Intn(7)-3)))
	}
	if r.Intn(3) == 0 {
		b.Neg(b)
	}
	return b
}

// aRat is an integer, a dyadic rational, a decimal fraction, or any
func aRat(r *rand.Rand) *big.Rat {
	n := anInt(r)
	switch r.Intn(5) {
	case 0, 1:
		return new(big.Rat).SetInt(n)
	case 2:
		d := new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(pick(r, 10, 40, 160))))
		return new(big.Rat).SetFrac(n, d)
	case 3:
		d := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(r.Intn(25))), nil)
		return new(big.Rat).SetFrac(n, d)
	}
	d := big.NewInt(int64(1 + r.Intn(pick(r, 10, 100000))))
	return new(big.Rat).SetFrac(n, d)
}

func aFloat64(r *rand.Rand) float64 {
	switch r.Intn(8) {
	case 0:
		return pick(r, math.Inf(1), math.Inf(-1), math.NaN(), 0, math.Copysign(0, -1))
	case 1:
		f := math.Ldexp(float64(r.Int63n(1<<pick(r, 2, 24, 25, 53))), r.Intn(160)-180)
		return f
	case 2:
		f := pick(r, math.MaxFloat32, math.SmallestNonzeroFloat32, 1<<24, 1<<31, 1<<32, 1<<53, 1<<63, 1<<64)
		for i := r.Intn(3); i > 0; i-- {
			f = math.Nextafter(f, pick(r, 0, math.Inf(1)))
		}
		return f * pick(r, 1.0, -1.0)
	case 3:
		if r.Intn(8) == 0 {
			return pick(r, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-310, 1e300)
		}
		return float64(float32(r.NormFloat64()))
	case 4:
		f, _ := strconv.ParseFloat(strconv.FormatFloat(r.NormFloat64(), 'f', r.Intn(6), 64), 64)
		return f
	}
	f, _ := aRat(r).Float64()
	return f
}

func aText(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0:
		return pick(r, "+Inf", "-Inf", "NaN", "Inf", "", "-", "+", ".", "e5", "1e", "1e+", " 1", "1 ", "a", "1a", "--1", "1.2.3", "1,5", "5/0", "/", "5/", "/5", "1/2/3", "1.5/2", "5/-4", "0x10", "1_0", "inf", "٣")
	case 1, 2:
		return anInt(r).String()
	case 3:
		return "+" + new(big.Int).Abs(anInt(r)).String()
	case 4:
		return aRat(r).String()
	case 5:
		return "00" + new(big.Int).Abs(anInt(r)).String()
	case 6:
		return anInt(r).String() + "e" + strconv.Itoa(r.Intn(60)-30)
	case 7:
		f := aFloat64(r)
		return strconv.FormatFloat(f, pick(r, byte('f'), byte('e'), byte('g')), pick(r, -1, 3, 30), pick(r, 32, 64))
	}
	return aRat(r).FloatString(r.Intn(pick(r, 3, 40)))
}

// aValue of a type, as encoded
func aValue(r *rand.Rand, t string) h.Op {
	switch t {
	case "string":
		return enc(aText(r))
	case "float64":
		return float(aFloat64(r))
	case "float32":
		return float(float64(float32(aFloat64(r))))
	case "bigint":
		return enc(anInt(r))
	case "bigrat":
		return enc(aRat(r))
	case "bigfloat":
		if r.Intn(10) == 0 {
			return special(pick(r, "inf", "-inf"))
		}
		p := uint(1 + r.Intn(pick(r, 24, 53, 64, 200)))
		return enc(new(big.Float).SetPrec(p).SetRat(aRat(r)))
	}
	for {
		b := anInt(r)
		v := enc(b)
		if enc(dec(t, map[string]any(v)))["v"] != nil {
			w := h.RatArg(enc(dec(t, map[string]any(v)))["v"])
			if w.IsInt() && w.Num().Cmp(b) == 0 {
				return v
			}
		}
	}
}

func conversion(r *rand.Rand, t string, x h.Op) h.Op {
	to := types[r.Intn(len(types))]
	api := pick(r, "to", "to", "must", "any", "reflect", "ops", "direct")
	if api == "ops" && to != "bigint" && to != "bigfloat" && to != "bigrat" {
		api = "to"
	}
	if api == "reflect" && to == t {
		api = "any"
	}
	if api == "direct" && !hasDirect(t, to) {
		api = "to"
	}
	return h.Op{"op": "conv", "api": api, "from": t, "to": to, "nfrom": r.Intn(3) == 0, "nto": r.Intn(3) == 0, "fresh": r.Intn(2) == 0, "x": x}
}

func gen(r *rand.Rand, i int, tier string) []h.Op {
	t := types[r.Intn(len(types))]
	x := aValue(r, t)
	var all []h.Op
	for n := 2 + r.Intn(5); n > 0; n-- {
		all = append(all, conversion(r, t, x))
	}
	switch r.Intn(8) {
	case 0:
		all = append(all, h.Op{"op": "norm", "x": enc(aRat(r))})
	case 1:
		all = append(all, h.Op{"op": "floattext", "x": enc(aText(r))})
	case 2:
		if r.Intn(10) == 0 {
			all = append(all, h.Op{"op": "nil", "x": special("nil")})
		}
	}
	return all
}

func main() {
	h.Main(&h.Prop{Name: "conv", Gen: gen, Exec: exec})
}
