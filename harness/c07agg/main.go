// Driver for the numeric reductions and the sorts of streams.
package main

import (
	"errors"
	"math/big"
	"math/rand"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"verif/harness/h"
)

var errSrc = errors.New("e1")

func errName(e error) string {
	switch e {
	case iter.EOI:
		return "EOI"
	case errSrc:
		return "e1"
	}
	return "err"
}

func source[T any](in []T, end string) iter.Iter[T] {
	it := iter.OfSlice(append([]T{}, in...))
	if end != "EOI" {
		it = iter.SetError(it, errSrc)
	}
	return it
}

// all drains an iterator
func all[T any](it iter.Iter[T]) (vs []T, e string) {
	for {
		v, err := it.Next()
		if err != nil {
			if _, err2 := it.Next(); err2 != err {
				return vs, "unstable"
			}
			return vs, errName(err)
		}
		vs = append(vs, v)
		if len(vs) > 1000 {
			return vs, "endless"
		}
	}
}

func list[T any](vs []T, enc func(T) any) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, enc(v))
	}
	return r
}

// do runs the function on the elements
func do[T any](op h.Op, dec func(any) T, enc func(T) any, fn func(iter.Iter[T]) iter.Iter[T]) {
	in := []T{}
	for _, v := range h.As(op["in"]) {
		in = append(in, dec(v))
	}
	it := source(in, h.S(op["end"]))
	if h.S(op["f"]) == "count" {
		vs, e := all(stream.Count(it))
		op["res"] = h.Op{"vs": list(vs, func(i int) any { return h.OfInt64(int64(i)) }), "e": e, "after": list(in, enc)}
		return
	}
	vs, e := all(fn(it))
	op["res"] = h.Op{"vs": list(vs, enc), "e": e, "after": list(in, enc)}
}

type ordered interface{ constraint.Ordered }

func orderedFn[T ordered](f string) func(iter.Iter[T]) iter.Iter[T] {
	switch f {
	case "min":
		return stream.Min[T]
	case "max":
		return stream.Max[T]
	case "sort":
		return stream.SortOrdered[T]
	}
	return nil
}

func signed[T constraint.SignedInteger](op h.Op) {
	f := h.S(op["f"])
	fn := orderedFn[T](f)
	switch f {
	case "sum":
		fn = stream.Sum[T]
	case "avg":
		fn = stream.AvgInt[T]
	case "abs":
		fn = stream.Abs[T]
	case "sortby":
		fn = stream.SortBy(func(a, b T) bool { return key(big.NewInt(int64(a))) < key(big.NewInt(int64(b))) })
	}
	do(op, func(v any) T { return T(h.BigArg(v).Int64()) }, func(v T) any { return h.OfInt64(int64(v)) }, fn)
}

// key is the lowest digit in base 10000 modulo 7
func key(b *big.Int) int64 {
	m := new(big.Int).Abs(b)
	m.Mod(m, big.NewInt(10000))
	return m.Int64() % 7
}

func unsigned[T constraint.UnsignedInteger](op h.Op) {
	f := h.S(op["f"])
	fn := orderedFn[T](f)
	switch f {
	case "sum":
		fn = stream.Sum[T]
	case "avg":
		fn = stream.AvgUint[T]
	case "sortby":
		fn = stream.SortBy(func(a, b T) bool {
			return key(new(big.Int).SetUint64(uint64(a))) < key(new(big.Int).SetUint64(uint64(b)))
		})
	}
	do(op, func(v any) T { return T(h.BigArg(v).Uint64()) }, func(v T) any { return h.OfUint64(uint64(v)) }, fn)
}

func float[T constraint.Float](op h.Op) {
	fn := orderedFn[T](h.S(op["f"]))
	if h.S(op["f"]) == "sum" {
		fn = stream.Sum[T]
	}
	do(op, func(v any) T { f, _ := h.RatArg(v).Float64(); return T(f) },
		func(v T) any { return h.OfRat(new(big.Rat).SetFloat64(float64(v))) }, fn)
}

func complexes[T constraint.Complex](op h.Op) {
	do(op, func(v any) T {
		a := h.As(v)
		return T(complex(float64(h.BigArg(a[0]).Int64()), float64(h.BigArg(a[1]).Int64())))
	}, func(v T) any {
		c := complex128(v)
		return []any{h.OfInt64(int64(real(c))), h.OfInt64(int64(imag(c)))}
	}, stream.SortComplex[T])
}

func bigs[T interface {
	constraint.BigOps[T]
	comparable
}](op h.Op, dec func(any) T, enc func(T) any) {
	var fn func(iter.Iter[T]) iter.Iter[T]
	switch h.S(op["f"]) {
	case "sum":
		fn = stream.SumBigOps[T]
	case "avg":
		fn = stream.AvgBigOps[T]
	case "abs":
		fn = stream.AbsBigOps[T]
	case "min":
		fn = stream.MinCmp[T]
	case "max":
		fn = stream.MaxCmp[T]
	case "sort":
		fn = stream.SortCmp[T]
	}
	do(op, dec, enc, fn)
}

func exec(ops []h.Op) {
	for _, op := range ops {
		op := op
		if h.Do(op, func() {
			switch h.S(op["t"]) {
			case "int":
				signed[int](op)
			case "int8":
				signed[int8](op)
			case "int16":
				signed[int16](op)
			case "int32":
				signed[int32](op)
			case "int64":
				signed[int64](op)
			case "uint":
				unsigned[uint](op)
			case "uint8":
				unsigned[uint8](op)
			case "uint16":
				unsigned[uint16](op)
			case "uint32":
				unsigned[uint32](op)
			case "uint64":
				unsigned[uint64](op)
			case "float32":
				float[float32](op)
			case "float64":
				float[float64](op)
			case "complex64":
				complexes[complex64](op)
			case "complex128":
				complexes[complex128](op)
			case "string":
				do(op, func(v any) string { return string(h.Bytes(v)) }, func(v string) any { return h.OfString(v) }, orderedFn[string](h.S(op["f"])))
			case "bigint":
				bigs(op, h.BigArg, func(b *big.Int) any { return h.OfBig(b) })
			case "bigrat":
				bigs(op, h.RatArg, func(b *big.Rat) any { return h.OfRat(b) })
			case "bigfloat":
				bigs(op, func(v any) *big.Float {
					return new(big.Float).SetPrec(100).SetRat(h.RatArg(v))
				}, func(b *big.Float) any { r, _ := b.Rat(nil); return h.OfRat(r) })
			default:
				h.Fail("type %v", op["t"])
			}
		}) {
			op["res"] = h.Op{"vs": []any{}, "e": "panic", "after": []any{}}
		}
	}
}

var types = []string{"int", "int8", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64",
	"complex64", "complex128", "string", "bigint", "bigrat", "bigfloat"}

func bits(t string) (n uint, sgn bool) {
	switch t {
	case "int8", "uint8":
		n = 8
	case "int16", "uint16":
		n = 16
	case "int32", "uint32":
		n = 32
	default:
		n = 64
	}
	return n, t[0] == 'i'
}

func genInt(r *rand.Rand, t string) any {
	n, sgn := bits(t)
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), n)
	if sgn {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	hi.Sub(hi, big.NewInt(1))
	var v *big.Int
	switch r.Intn(5) {
	case 0:
		v = new(big.Int).Add(lo, big.NewInt(int64(r.Intn(3))))
	case 1:
		v = new(big.Int).Sub(hi, big.NewInt(int64(r.Intn(3))))
	default:
		w := int64(20)
		if r.Intn(3) == 0 {
			w = 200
		}
		v = big.NewInt(r.Int63n(w))
		if sgn && r.Intn(2) == 0 {
			v.Neg(v)
		}
		if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
			v = big.NewInt(1)
		}
	}
	return h.OfBig(v)
}

func genVal(r *rand.Rand, t string) any {
	switch t {
	case "float32", "float64", "bigfloat":
		den := []int64{1, 2, 4, 8}[r.Intn(4)]
		n := r.Int63n(2000) - 1000
		return h.OfRat(big.NewRat(n, den))
	case "bigrat":
		return h.OfRat(big.NewRat(r.Int63n(200)-100, 1+r.Int63n(12)))
	case "bigint":
		b := big.NewInt(r.Int63() - r.Int63())
		switch r.Intn(3) {
		case 0:
			b.Mul(b, big.NewInt(r.Int63()))
		case 1:
			b.SetInt64(r.Int63n(20) - 10)
		}
		return h.OfBig(b)
	case "complex64", "complex128":
		// equal and Pythagorean magnitudes
		p := [][2]int64{{3, 4}, {4, 3}, {5, 0}, {0, 5}, {1, 1}, {6, 8}, {0, 0}, {5, 12}, {2, 3}}[r.Intn(9)]
		if r.Intn(2) == 0 {
			p[0] = -p[0]
		}
		if r.Intn(2) == 0 {
			p[1] = -p[1]
		}
		return []any{h.OfInt64(p[0]), h.OfInt64(p[1])}
	case "string":
		s := []int{}
		for j := r.Intn(4); j > 0; j-- {
			s = append(s, []int{97, 98, 65, 0, 255, 200}[r.Intn(6)])
		}
		return s
	}
	return genInt(r, t)
}

func gen(r *rand.Rand, i int, tier string) (ops []h.Op) {
	for n := 4; n > 0; n-- {
		t := types[r.Intn(len(types))]
		fs := []string{"sum", "avg", "abs", "min", "max", "count", "sort"}
		switch {
		case t == "string":
			fs = []string{"min", "max", "count", "sort"}
		case t[0] == 'c':
			fs = []string{"count", "sort", "sort", "sort"}
		case t[0] == 'u':
			fs = []string{"sum", "avg", "avg", "min", "max", "count", "sort", "sortby"}
		case t[0] == 'f':
			fs = []string{"sum", "min", "max", "count", "sort"}
		case t[0] == 'i':
			fs = []string{"sum", "avg", "avg", "avg", "abs", "min", "max", "count", "sort", "sortby"}
		}
		f := fs[r.Intn(len(fs))]
		in := []any{}
		ln := h.N(r, 9)
		if ln > 80 {
			ln = 80
		}
		if ln > 20 && (t[0] == 'f' || t == "bigrat" || t == "bigfloat") {
			ln = 20
		}
		for ; ln > 0; ln-- {
			in = append(in, genVal(r, t))
		}
		if r.Intn(12) == 0 && (f == "sort" || f == "sortby") {
			for j := 30; j > 0; j-- {
				in = append(in, genVal(r, t))
			}
		}
		if r.Intn(60) == 0 && (t[0] == 'i' || t[0] == 'u') && f != "sort" && f != "sortby" {
			// more elements than narrow types can count
			in = []any{}
			few := 2 + r.Intn(9)
			for j := 120 + r.Intn(400); j > 0; j-- {
				v := r.Int63n(3)
				if t[0] == 'i' && few < 5 {
					v--
				}
				if r.Intn(few) != 0 {
					v = 0
				}
				in = append(in, h.OfInt64(v))
			}
			r.Shuffle(len(in), func(a, b int) { in[a], in[b] = in[b], in[a] })
		}
		end := "EOI"
		if r.Intn(8) == 0 {
			end = "e1"
		}
		ops = append(ops, h.Op{"op": "agg", "f": f, "t": t, "in": in, "end": end})
	}
	return
}

func main() {
	h.Main(&h.Prop{Name: "C07", Gen: gen, Exec: exec})
}
