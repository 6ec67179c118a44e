// Driver for decimals.
package main

import (
	"math/big"
	"math/rand"
	"strings"

	"github.com/bantling/micro/math"
	"verif/harness/h"
)

func errName(err error) string {
	switch {
	case err == nil:
		return ""
	case strings.HasSuffix(err.Error(), "overflowed"):
		return "over"
	case strings.HasSuffix(err.Error(), "underflowed"):
		return "under"
	}
	return "err"
}

// show is what there is to see of a decimal. v is its coefficient, as its text tells
func show(d math.Decimal, e string) h.Op {
	str := d.String()
	v, ok := new(big.Int).SetString(strings.Replace(str, ".", "", 1), 10)
	if !ok {
		v = new(big.Int)
	}
	return h.Op{"e": e, "str": h.OfString(str), "scale": int(d.Scale()), "norm": d.Normalized(), "v": h.OfBig(v)}
}

func none(e string) h.Op {
	return h.Op{"e": e, "str": []int{}, "scale": 0, "norm": false, "v": []int{}}
}

func exec(ops []h.Op) {
	var reg [5]math.Decimal
	for _, op := range ops {
		op := op
		R := func(f string) *math.Decimal { return &reg[h.I(op[f])] }
		must := h.Half(op)
		set := func(d math.Decimal, err error) {
			if err != nil {
				op["res"] = none(errName(err))
				return
			}
			*R("r") = d
			op["res"] = show(d, "")
		}
		if h.Do(op, func() {
			switch h.S(op["op"]) {
			case "make":
				v := h.BigArg(op["v"])
				if must {
					var d math.Decimal
					err := h.Caught(func() { d = math.MustDecimal(v.Int64(), uint(h.I(op["s"])), h.B(op["n"])) })
					set(d, err)
					return
				}
				d, err := math.OfDecimal(v.Int64(), uint(h.I(op["s"])), h.B(op["n"]))
				set(d, err)
			case "parse":
				text := string(h.Bytes(op["text"]))
				if must {
					var d math.Decimal
					err := h.Caught(func() { d = math.MustStringToDecimal(text) })
					set(d, err)
					return
				}
				d, err := math.StringToDecimal(text)
				set(d, err)
			case "show":
				d := *R("r")
				res := show(d, "")
				res["precision"], res["sign"], res["less1"] = d.Precision(), d.Sign(), d.MagnitudeLessThanOne()
				op["res"] = res
			case "cmp":
				op["res"] = R("a").Cmp(*R("b"))
			case "format":
				s, t := math.AdjustDecimalFormat(*R("a"), *R("b"))
				op["res"] = [][]int{h.OfString(s), h.OfString(t)}
			case "adjust":
				var err error
				if must {
					err = h.Caught(func() { math.MustAdjustDecimalScale(R("a"), R("b")) })
				} else {
					err = math.AdjustDecimalScale(R("a"), R("b"))
				}
				op["res"] = h.Op{"e": errName(err), "a": show(*R("a"), ""), "b": show(*R("b"), "")}
			case "negate":
				set(R("a").Negate(), nil)
			case "normalize":
				R("r").Normalize()
				op["res"] = show(*R("r"), "")
			case "calc":
				var f func(math.Decimal) (math.Decimal, error)
				var m func(math.Decimal) math.Decimal
				switch h.S(op["f"]) {
				case "add":
					f, m = R("a").Add, R("a").MustAdd
				case "sub":
					f, m = R("a").Sub, R("a").MustSub
				case "mul":
					f, m = R("a").Mul, R("a").MustMul
				case "div":
					f, m = R("a").Div, R("a").MustDiv
				}
				if must {
					var d math.Decimal
					err := h.Caught(func() { d = m(*R("b")) })
					set(d, err)
					return
				}
				d, err := f(*R("b"))
				set(d, err)
			case "quorem":
				var (
					q, r math.Decimal
					err  error
				)
				if o := uint(h.BigArg(op["o"]).Uint64()); must {
					err = h.Caught(func() { q, r = R("a").MustDivIntQuoRem(o) })
				} else {
					q, r, err = R("a").DivIntQuoRem(o)
				}
				res := h.Op{"e": errName(err), "q": none(""), "r": none("")}
				if err == nil {
					res["q"], res["r"] = show(q, ""), show(r, "")
					*R("q"), *R("r") = q, r
				}
				op["res"] = res
			case "divadd":
				var (
					ps  []math.Decimal
					err error
				)
				if o := uint(h.I(op["o"])); must {
					err = h.Caught(func() { ps = R("a").MustDivIntAdd(o) })
				} else {
					ps, err = R("a").DivIntAdd(o)
				}
				parts := []any{}
				for _, p := range ps {
					parts = append(parts, show(p, ""))
				}
				if err == nil && len(ps) > 0 {
					*R("r") = ps[0]
				}
				op["res"] = h.Op{"e": errName(err), "parts": parts}
			}
		}) {
			switch h.S(op["op"]) {
			case "cmp":
				op["res"] = 99
			case "format":
				op["res"] = [][]int{{}, {}}
			case "adjust":
				op["res"] = h.Op{"e": "panic", "a": none(""), "b": none("")}
			case "quorem":
				op["res"] = h.Op{"e": "panic", "q": none(""), "r": none("")}
			case "divadd":
				op["res"] = h.Op{"e": "panic", "parts": []any{}}
			case "show":
				res := none("panic")
				res["precision"], res["sign"], res["less1"] = 0, 0, false
				op["res"] = res
			default:
				op["res"] = none("panic")
			}
		}
	}
}

func coef(r *rand.Rand) *big.Int {
	v := new(big.Int)
	ten := big.NewInt(10)
	pow := func(n int) *big.Int { return new(big.Int).Exp(ten, big.NewInt(int64(n)), nil) }
	switch r.Intn(8) {
	case 0:
		v.SetInt64(int64(r.Intn(30)))
	case 1: // next to a power of ten
		v.Add(pow(r.Intn(19)), big.NewInt(int64(r.Intn(9)-5)))
	case 2: // next to half a power of ten
		v.Mul(pow(r.Intn(18)), big.NewInt(5))
		v.Add(v, big.NewInt(int64(r.Intn(3)-1)))
	case 3: // with zeros at the end
		n := r.Intn(18)
		v.Mul(pow(n), big.NewInt(r.Int63n(pow(18-n).Int64())))
	case 4: // the same digit
		d := int64(r.Intn(9) + 1)
		for n := r.Intn(18) + 1; n > 0; n-- {
			v.Mul(v, ten).Add(v, big.NewInt(d))
		}
	default: // any number of digits
		v.Rand(r, pow(r.Intn(18)+1))
	}
	if max := new(big.Int).Sub(pow(18), big.NewInt(1)); v.Cmp(max) > 0 && r.Intn(4) > 0 {
		v = max
	}
	if r.Intn(3) == 0 {
		v.Neg(v)
	}
	return v
}

func gen(r *rand.Rand, i int, tier string) []h.Op {
	ops := []h.Op{}
	reg := func() int { return r.Intn(4) + 1 }
	scale := func() int {
		switch r.Intn(4) {
		case 0:
			return 0
		case 1:
			return r.Intn(4)
		}
		if r.Intn(60) == 0 {
			return 19 + r.Intn(3)
		}
		return r.Intn(19)
	}
	mk := func(to int) {
		if r.Intn(4) == 0 {
			var s strings.Builder
			if r.Intn(3) == 0 {
				s.WriteByte('-')
			}
			digits := func(n int) {
				for ; n > 0; n-- {
					s.WriteByte("0123456789005"[r.Intn(13)])
				}
			}
			n := r.Intn(19)
			k := r.Intn(n + 1)
			digits(k)
			if r.Intn(4) > 0 {
				s.WriteByte('.')
				digits(n - k)
			}
			t := []byte(s.String())
			if r.Intn(6) == 0 && len(t) > 0 { // damaged
				p := r.Intn(len(t))
				t = append(t[:p:p], append([]byte{"-.x 5\n+e"[r.Intn(8)]}, t[p:]...)...)
			}
			ops = append(ops, h.Op{"op": "parse", "r": to, "text": h.OfBytes(t)})
			return
		}
		ops = append(ops, h.Op{"op": "make", "r": to, "v": h.OfBig(coef(r)), "s": scale(), "n": r.Intn(3) > 0})
	}
	for k := 1; k <= 4; k++ {
		mk(k)
	}
	for k := r.Intn(10) + 4; k > 0; k-- {
		switch r.Intn(14) {
		case 0:
			mk(reg())
		case 1:
			ops = append(ops, h.Op{"op": "show", "r": reg()})
		case 2:
			ops = append(ops, h.Op{"op": "cmp", "a": reg(), "b": reg()})
		case 3:
			ops = append(ops, h.Op{"op": "format", "a": reg(), "b": reg()})
		case 4:
			a := reg()
			ops = append(ops, h.Op{"op": "adjust", "a": a, "b": a%4 + 1})
		case 5:
			ops = append(ops, h.Op{"op": []string{"negate", "normalize"}[r.Intn(2)], "r": reg(), "a": reg()})
		case 6:
			o := big.NewInt(int64(r.Intn(200)))
			if r.Intn(3) == 0 {
				o = new(big.Int).Abs(coef(r))
			}
			if r.Intn(20) == 0 {
				o.SetUint64(1<<63 + uint64(r.Intn(5)))
			}
			a := reg()
			ops = append(ops, h.Op{"op": "quorem", "q": a, "r": a%4 + 1, "a": reg(), "o": h.OfBig(o)})
		case 7:
			ops = append(ops, h.Op{"op": "divadd", "r": reg(), "a": reg(), "o": r.Intn(25)})
		default:
			ops = append(ops, h.Op{"op": "calc", "f": []string{"add", "sub", "mul", "div"}[r.Intn(4)], "r": reg(), "a": reg(), "b": reg()})
		}
	}
	return append(ops, h.Op{"op": "show", "r": reg()})
}

func main() {
	h.Main(&h.Prop{Name: "c18decimal", Gen: gen, Exec: exec})
}
