// Driver for ranges.
package main

import (
	gomath "math"
	"math/big"
	"math/rand"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/math"
	"verif/harness/h"
)

func num(q *big.Rat) h.Op { return h.Op{"k": "num", "q": h.OfRat(q)} }

// dec makes a value of a number
func dec[T constraint.IntegerAndFloat](v any) T {
	m := h.M(v)
	switch h.S(m["k"]) {
	case "nan":
		f := gomath.NaN()
		return T(f)
	case "+inf":
		f := gomath.Inf(1)
		return T(f)
	case "-inf":
		f := gomath.Inf(-1)
		return T(f)
	}
	q := h.RatArg(m["q"])
	if q.IsInt() {
		if q.Num().IsInt64() {
			return T(q.Num().Int64())
		}
		if q.Num().IsUint64() {
			return T(q.Num().Uint64())
		}
	}
	f, _ := q.Float64()
	return T(f)
}

func enc[T constraint.IntegerAndFloat](v T) h.Op {
	switch x := any(v).(type) {
	case float32:
		return encf(float64(x))
	case float64:
		return encf(x)
	}
	if v < 0 {
		return num(new(big.Rat).SetInt64(int64(v)))
	}
	return num(new(big.Rat).SetInt(new(big.Int).SetUint64(uint64(v))))
}

func encf(f float64) h.Op {
	zero := h.OfRat(new(big.Rat))
	switch {
	case gomath.IsNaN(f):
		return h.Op{"k": "nan", "q": zero}
	case gomath.IsInf(f, 1):
		return h.Op{"k": "+inf", "q": zero}
	case gomath.IsInf(f, -1):
		return h.Op{"k": "-inf", "q": zero}
	}
	return num(new(big.Rat).SetFloat64(f))
}

func run[T constraint.IntegerAndFloat](ops []h.Op) {
	var r math.Range[T]
	for _, op := range ops {
		op := op
		panicked := h.Do(op, func() {
			switch h.S(op["op"]) {
			case "new":
				nr := math.OfRange(dec[T](op["min"]), math.RangeMode(h.B(op["minc"])), dec[T](op["max"]), math.RangeMode(h.B(op["maxc"])), dec[T](op["val"]))
				r = nr
				op["res"] = "ok"
			case "set":
				op["res"] = "ok"
				if err := r.SetValue(dec[T](op["val"])); err != nil {
					op["res"] = "err"
				}
			case "get":
				min, minc := r.GetMin()
				max, maxc := r.GetMax()
				op["res"] = h.Op{"min": enc(min), "minc": bool(minc), "max": enc(max), "maxc": bool(maxc), "val": enc(r.GetValue())}
			}
		})
		if panicked {
			switch h.S(op["op"]) {
			case "get":
				nan := encf(gomath.NaN())
				op["res"] = h.Op{"min": nan, "minc": false, "max": nan, "maxc": false, "val": nan}
			default:
				op["res"] = "panic"
			}
		}
	}
}

func exec(ops []h.Op) {
	switch h.S(ops[0]["t"]) {
	case "int":
		run[int](ops)
	case "int8":
		run[int8](ops)
	case "int16":
		run[int16](ops)
	case "int32":
		run[int32](ops)
	case "int64":
		run[int64](ops)
	case "uint":
		run[uint](ops)
	case "uint8":
		run[uint8](ops)
	case "uint16":
		run[uint16](ops)
	case "uint32":
		run[uint32](ops)
	case "uint64":
		run[uint64](ops)
	case "float32":
		run[float32](ops)
	case "float64":
		run[float64](ops)
	default:
		h.Fail("type")
	}
}

var types = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "float32", "float64"}

func lim(t string) (lo, hi *big.Int) {
	bits := map[string]uint{"int8": 8, "uint8": 8, "int16": 16, "uint16": 16, "int32": 32, "uint32": 32}[t]
	if bits == 0 {
		bits = 64
	}
	lo, hi = big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), bits)
	if t[0] == 'i' {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	hi.Sub(hi, big.NewInt(1))
	return
}

func gen(r *rand.Rand, i int, tier string) []h.Op {
	t := types[r.Intn(len(types))]
	var pool []h.Op
	val := func() h.Op {
		if len(pool) > 0 && r.Intn(3) == 0 {
			return pool[r.Intn(len(pool))]
		}
		var v h.Op
		if t[0] == 'f' {
			var f float64
			switch r.Intn(8) {
			case 0:
				f = []float64{gomath.NaN(), gomath.Inf(1), gomath.Inf(-1)}[r.Intn(3)]
			case 1:
				f = []float64{gomath.MaxFloat32, -gomath.MaxFloat32, gomath.SmallestNonzeroFloat32, 0}[r.Intn(4)]
			default:
				f = float64(r.Intn(40)-20) / 4
			}
			if len(pool) > 0 && r.Intn(4) == 0 { // next to a known one
				o := pool[r.Intn(len(pool))]
				if o["k"] == "num" {
					q, _ := h.RatArg(o["q"]).Float64()
					f = gomath.Nextafter(q, gomath.Inf(r.Intn(2)*2-1))
					if t == "float32" {
						f = float64(gomath.Nextafter32(float32(q), float32(gomath.Inf(r.Intn(2)*2-1))))
					}
				}
			}
			v = encf(f)
		} else {
			lo, hi := lim(t)
			var b *big.Int
			switch r.Intn(6) {
			case 0:
				b = new(big.Int).Add(lo, big.NewInt(int64(r.Intn(3))))
			case 1:
				b = new(big.Int).Sub(hi, big.NewInt(int64(r.Intn(3))))
			case 2:
				if len(pool) > 0 {
					b = new(big.Int).Add(h.RatArg(pool[r.Intn(len(pool))]["q"]).Num(), big.NewInt(int64(r.Intn(3)-1)))
					break
				}
				fallthrough
			default:
				b = big.NewInt(int64(r.Intn(40) - 20))
			}
			if b.Cmp(lo) < 0 {
				b = lo
			}
			if b.Cmp(hi) > 0 {
				b = hi
			}
			v = num(new(big.Rat).SetInt(b))
		}
		pool = append(pool, v)
		return v
	}
	min, max := val(), val()
	x := val()
	// mostly a range that can be made
	for k := 0; k < 10 && r.Intn(8) > 0; k++ {
		if min["k"] == "num" && max["k"] == "num" && x["k"] == "num" {
			a, b, c := h.RatArg(min["q"]), h.RatArg(max["q"]), h.RatArg(x["q"])
			if a.Cmp(b) < 0 && a.Cmp(c) <= 0 && c.Cmp(b) <= 0 {
				break
			}
		}
		min, max, x = val(), val(), val()
	}
	ops := []h.Op{{"op": "new", "t": t, "min": min, "minc": r.Intn(2) == 0, "max": max, "maxc": r.Intn(2) == 0, "val": x}}
	// whether the range exists is known by making it
	c := []h.Op{h.Op{}}
	for k, v := range ops[0] {
		c[0][k] = v
	}
	exec(c)
	if c[0]["res"] != "ok" {
		return ops
	}
	for k := r.Intn(8); k >= 0; k-- {
		if r.Intn(3) == 0 {
			ops = append(ops, h.Op{"op": "get"})
		} else {
			ops = append(ops, h.Op{"op": "set", "val": val()})
		}
	}
	return append(ops, h.Op{"op": "get"})
}

func main() {
	h.Main(&h.Prop{Name: "c17range", Gen: gen, Exec: exec})
}
