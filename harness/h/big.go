package h

import (
	"math/big"
)

var base = big.NewInt(10000)

// OfBig encodes an integer: empty for zero, else its sign followed by its digits in base 10000, least significant first
func OfBig(b *big.Int) []int {
	r := []int{}
	if b.Sign() == 0 {
		return r
	}
	r = append(r, b.Sign())
	m, d := new(big.Int).Abs(b), new(big.Int)
	for m.Sign() != 0 {
		m.QuoRem(m, base, d)
		r = append(r, int(d.Int64()))
	}
	return r
}

// OfInt64 encodes
func OfInt64(i int64) []int { return OfBig(big.NewInt(i)) }

// OfUint64 encodes
func OfUint64(i uint64) []int { return OfBig(new(big.Int).SetUint64(i)) }

// OfRat encodes numerator and denominator
func OfRat(r *big.Rat) [][]int { return [][]int{OfBig(r.Num()), OfBig(r.Denom())} }

// BigArg decodes an integer
func BigArg(v any) *big.Int {
	d := Is(v)
	r := new(big.Int)
	if len(d) == 0 {
		return r
	}
	for i := len(d) - 1; i > 0; i-- {
		r.Mul(r, base)
		r.Add(r, big.NewInt(int64(d[i])))
	}
	if d[0] < 0 {
		r.Neg(r)
	}
	return r
}

// RatArg decodes a rational
func RatArg(v any) *big.Rat {
	switch t := v.(type) {
	case [][]int:
		return new(big.Rat).SetFrac(BigArg(t[0]), BigArg(t[1]))
	case []any:
		return new(big.Rat).SetFrac(BigArg(t[0]), BigArg(t[1]))
	}
	Fail("not a rational: %T", v)
	return nil
}
