// Driver for JSON values: made from Go values, taken apart, searched by paths.
package main

import (
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"unicode/utf8"

	"github.com/bantling/micro/encoding/json"
	"verif/harness/h"
	"verif/harness/jsonlib"
)

type (
	myString string
	myInt    int
	myBool   bool
	myMap    map[string]any
)

func bad(kind string) any {
	i := 1
	switch kind {
	case "struct":
		return struct{ A int }{1}
	case "ints":
		return []int{1}
	case "intmap":
		return map[string]int{"a": 1}
	case "ptr":
		return &i
	case "complex":
		return complex(1, 0)
	case "func":
		return func() {}
	case "uintptr":
		return uintptr(1)
	case "bytes":
		return []byte("1")
	case "value":
		return json.TrueValue
	case "intarray":
		return [1]int{1}
	case "mybool":
		return myBool(true)
	case "mymap":
		return myMap{"a": 1}
	case "mapintkey":
		return map[int]any{1: 1}
	}
	h.Fail("bad %v", kind)
	return nil
}

func notnum(kind string) any {
	switch kind {
	case "nan":
		return math.NaN()
	case "inf":
		return math.Inf(1)
	case "-inf":
		return math.Inf(-1)
	case "nan32":
		return float32(math.NaN())
	case "inf32":
		return float32(math.Inf(1))
	case "-inf32":
		return float32(math.Inf(-1))
	case "infbig":
		return new(big.Float).SetInf(false)
	case "-infbig":
		return new(big.Float).SetInf(true)
	}
	h.Fail("notnum %v", kind)
	return nil
}

func goValue(n h.Op) any {
	I := func() int64 { return h.BigArg(n["n"]).Int64() }
	U := func() uint64 { return h.BigArg(n["n"]).Uint64() }
	switch g := h.S(n["g"]); g {
	case "int":
		return int(I())
	case "int8":
		return int8(I())
	case "int16":
		return int16(I())
	case "int32":
		return int32(I())
	case "int64":
		return I()
	case "myint":
		return myInt(I())
	case "uint":
		return uint(U())
	case "uint8":
		return uint8(U())
	case "uint16":
		return uint16(U())
	case "uint32":
		return uint32(U())
	case "uint64":
		return U()
	case "bigint":
		return h.BigArg(n["n"])
	case "float32":
		f, exact := h.RatArg(n["n"]).Float32()
		if !exact {
			h.Fail("not a float32: %v", n["n"])
		}
		return f
	case "float64":
		f, exact := h.RatArg(n["n"]).Float64()
		if !exact {
			h.Fail("not a float64: %v", n["n"])
		}
		return f
	case "bigfloat":
		f := new(big.Float).SetPrec(uint(h.I(n["prec"])))
		f.SetRat(h.RatArg(n["n"]))
		if f.Acc() != big.Exact {
			h.Fail("not a big.Float: %v", n["n"])
		}
		return f
	case "bigrat":
		return h.RatArg(n["n"])
	case "numstr":
		return json.NumberString(h.Runes(h.Is(n["s"])))
	case "string":
		return h.Runes(h.Is(n["s"]))
	case "mystring":
		return myString(h.Runes(h.Is(n["s"])))
	case "bool":
		return h.B(n["b"])
	case "nil":
		switch h.S(n["kind"]) {
		case "bigint":
			return (*big.Int)(nil)
		case "bigfloat":
			return (*big.Float)(nil)
		case "bigrat":
			return (*big.Rat)(nil)
		}
		return nil
	case "notnum":
		return notnum(h.S(n["kind"]))
	case "bad":
		return bad(h.S(n["kind"]))
	case "slice", "valueslice":
		s, vs := []any{}, []json.Value{}
		for _, e := range h.As(n["vals"]) {
			v := goValue(e.(h.Op))
			s = append(s, v)
			if g == "valueslice" {
				vs = append(vs, value(v))
			}
		}
		if g == "valueslice" {
			return vs
		}
		return s
	case "map", "valuemap":
		m, vm := map[string]any{}, map[string]json.Value{}
		keys := h.As(n["keys"])
		for i, e := range h.As(n["vals"]) {
			k, v := h.Runes(h.Is(keys[i])), goValue(e.(h.Op))
			m[k] = v
			if g == "valuemap" {
				vm[k] = value(v)
			}
		}
		if g == "valuemap" {
			return vm
		}
		return m
	}
	h.Fail("node %v", n)
	return nil
}

func value(v any) json.Value {
	s, err := json.SliceToValue([]any{v})
	if err != nil {
		panic(err)
	}
	return s.AsSlice()[0]
}

// toValue calls the typed functions with the static type of the value
func toValue(v any, must bool) (json.Value, error) {
	switch t := v.(type) {
	case int:
		return to(t, must)
	case int8:
		return to(t, must)
	case int16:
		return to(t, must)
	case int32:
		return to(t, must)
	case int64:
		return to(t, must)
	case uint:
		return to(t, must)
	case uint8:
		return to(t, must)
	case uint16:
		return to(t, must)
	case uint32:
		return to(t, must)
	case uint64:
		return to(t, must)
	case float32:
		return to(t, must)
	case float64:
		return to(t, must)
	case *big.Int:
		return to(t, must)
	case *big.Float:
		return to(t, must)
	case *big.Rat:
		return to(t, must)
	case json.NumberString:
		return to(t, must)
	case string:
		return to(t, must)
	case bool:
		return to(t, must)
	case []any:
		return to(t, must)
	case []json.Value:
		return to(t, must)
	case map[string]any:
		return to(t, must)
	case map[string]json.Value:
		return to(t, must)
	}
	h.Fail("no ToValue for %T", v)
	return json.Value{}, nil
}

func to[T map[string]any | map[string]json.Value | []any | []json.Value | string | json.NumberString | int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | float32 | float64 | *big.Int | *big.Float | *big.Rat | bool](v T, must bool) (json.Value, error) {
	if must {
		return mustOf(func() json.Value { return json.MustToValue(v) })
	}
	return json.ToValue(v)
}

func num[T json.NumberString | int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | float32 | float64 | *big.Int | *big.Float | *big.Rat](v T, must bool) (json.Value, error) {
	if must {
		return mustOf(func() json.Value { return json.MustNumberToValue(v) })
	}
	return json.NumberToValue(v)
}

func numToValue(v any, must bool) (json.Value, error) {
	switch t := v.(type) {
	case int:
		return num(t, must)
	case int8:
		return num(t, must)
	case int16:
		return num(t, must)
	case int32:
		return num(t, must)
	case int64:
		return num(t, must)
	case uint:
		return num(t, must)
	case uint8:
		return num(t, must)
	case uint16:
		return num(t, must)
	case uint32:
		return num(t, must)
	case uint64:
		return num(t, must)
	case float32:
		return num(t, must)
	case float64:
		return num(t, must)
	case *big.Int:
		return num(t, must)
	case *big.Float:
		return num(t, must)
	case *big.Rat:
		return num(t, must)
	case json.NumberString:
		return num(t, must)
	}
	h.Fail("no NumberToValue for %T", v)
	return json.Value{}, nil
}

// mustOf turns a panic with an error into that error
func mustOf(f func() json.Value) (v json.Value, err error) {
	defer func() {
		if e := recover(); e != nil {
			isit := false
			if err, isit = e.(error); !isit {
				panic(e)
			}
			if _, isit = e.(interface{ RuntimeError() }); isit {
				panic(e)
			}
		}
	}()
	v = f()
	return
}

// anyEnc encodes the result of ToAny as a value is encoded
func anyEnc(v any) []int {
	text := func(tag int, s string) []int {
		rs := h.OfRunes(s)
		if !utf8.ValidString(s) {
			rs = []int{-1}
		}
		return append([]int{tag, len(rs)}, rs...)
	}
	switch t := v.(type) {
	case nil:
		return []int{0}
	case bool:
		if t {
			return []int{2}
		}
		return []int{1}
	case json.NumberString:
		return text(3, string(t))
	case string:
		return text(4, t)
	case []any:
		r := []int{5, len(t)}
		for _, e := range t {
			r = append(r, anyEnc(e)...)
		}
		return r
	case map[string]any:
		r := []int{6, len(t)}
		keys := []string{}
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			r = append(append(r, text(0, k)[1:]...), anyEnc(t[k])...)
		}
		return r
	}
	return []int{-2}
}

func convert(fn string, v any) (json.Value, error) {
	switch fn {
	case "slice":
		s, err := json.SliceToValue([]any{v})
		if err != nil {
			return s, err
		}
		return s.AsSlice()[0], nil
	case "map":
		s, err := json.MapToValue(map[string]any{"": v})
		if err != nil {
			return s, err
		}
		return s.AsMap()[""], nil
	case "to", "mustto":
		return toValue(v, fn == "mustto")
	case "num", "mustnum":
		return numToValue(v, fn == "mustnum")
	case "scalar":
		switch t := v.(type) {
		case string:
			return json.StringToValue(t), nil
		case bool:
			return json.BoolToValue(t), nil
		case []any:
			return mustOf(func() json.Value { return json.MustSliceToValue(t) })
		case []json.Value:
			return json.SliceToValue(t)
		case map[string]any:
			return mustOf(func() json.Value { return json.MustMapToValue(t) })
		case map[string]json.Value:
			return json.MapToValue(t)
		}
	}
	h.Fail("fn %v of %T", fn, v)
	return json.Value{}, nil
}

func catch(f func() []int) (r []int) {
	defer func() {
		if recover() != nil {
			r = []int{-9}
		}
	}()
	return f()
}

func apart(v json.Value) h.Op {
	return h.Op{
		"type": v.Type().String(),
		"map": catch(func() []int {
			return jsonlib.Encode(json.MustMapToValue(v.AsMap()))
		}),
		"tomap": catch(func() []int { return anyEnc(v.ToMap()) }),
		"slice": catch(func() []int {
			return jsonlib.Encode(json.MustSliceToValue(v.AsSlice()))
		}),
		"toslice": catch(func() []int { return anyEnc(v.ToSlice()) }),
		"string":  catch(func() []int { return h.OfRunes(v.AsString()) }),
		"number":  catch(func() []int { return h.OfRunes(string(v.AsNumber())) }),
		"bool":    catch(func() []int { return []int{h.I(v.AsBool())} }),
		"isnull":  v.IsNull(),
		"isdoc":   v.IsDocument(),
		"any":     anyEnc(v.ToAny()),
	}
}

func valueArg(v any) json.Value {
	e := h.Is(v)
	if len(e) == 1 && e[0] == -1 {
		return json.Value{}
	}
	j, _ := jsonlib.Decode(e, 0)
	return j
}

func exec(ops []h.Op) {
	var fn func(json.Value) (json.Value, error)
	for _, op := range ops {
		op := op
		name := h.S(op["op"])
		if h.Do(op, func() {
			switch name {
			case "tovalue":
				v, err := convert(h.S(op["fn"]), goValue(op["node"].(h.Op)))
				res := h.Op{"v": jsonlib.Encode(v), "any": []int{}, "e": ""}
				if err != nil {
					res["e"] = "err"
				} else {
					res["any"] = anyEnc(v.ToAny())
				}
				op["res"] = res
			case "apart":
				op["res"] = apart(valueArg(op["v"]))
			case "path":
				var err error
				fn, err = json.ParsePath(h.Runes(h.Is(op["p"])))
				op["res"] = ""
				if err != nil {
					op["res"] = "badpath"
				}
			case "lookup":
				v, err := fn(valueArg(op["v"]))
				res := h.Op{"v": jsonlib.Encode(v), "e": ""}
				if err != nil {
					res["e"] = "nopath"
				}
				op["res"] = res
			default:
				h.Fail("op %v", name)
			}
		}) {
			switch name {
			case "tovalue":
				op["res"] = h.Op{"v": []int{}, "any": []int{}, "e": "panic"}
			case "path":
				op["res"] = "panic"
			case "lookup":
				op["res"] = h.Op{"v": []int{}, "e": "panic"}
			case "apart":
				op["res"] = h.Op{"type": "panic"}
			}
		}
	}
}

// ---- random cases

func pick(r *rand.Rand, ss ...string) string { return ss[r.Intn(len(ss))] }

func bigInt(r *rand.Rand, bits int) *big.Int {
	v := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(bits))))
	if r.Intn(2) == 0 {
		v.Neg(v)
	}
	return v
}

func number(r *rand.Rand) h.Op {
	g := pick(r, "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "bigint", "float32", "float64", "bigfloat", "bigrat", "bigrat", "float64", "float32")
	bits := map[string]int{"int": 63, "int8": 7, "int16": 15, "int32": 31, "int64": 63, "uint": 64, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "bigint": 300}
	switch g {
	case "float64":
		f := math.Float64frombits(r.Uint64())
		if r.Intn(3) > 0 || math.IsNaN(f) || math.IsInf(f, 0) {
			f = float64(int64(r.Uint64())>>uint(r.Intn(63))) * math.Pow(2, float64(r.Intn(60)-40))
		}
		return h.Op{"g": g, "n": h.OfRat(new(big.Rat).SetFloat64(f))}
	case "float32":
		f := math.Float32frombits(r.Uint32())
		if r.Intn(3) > 0 || f != f || math.IsInf(float64(f), 0) {
			f = float32(int32(r.Uint32())>>uint(r.Intn(31))) / float32(int(1)<<r.Intn(20))
		}
		return h.Op{"g": g, "n": h.OfRat(new(big.Rat).SetFloat64(float64(f)))}
	case "bigfloat":
		prec := []int{1, 10, 24, 53, 64, 100, 200}[r.Intn(7)]
		f := new(big.Float).SetPrec(uint(prec)).SetInt(bigInt(r, 200))
		f.SetMantExp(f, r.Intn(200)-150)
		q, _ := f.Rat(nil)
		return h.Op{"g": g, "n": h.OfRat(q), "prec": prec}
	case "bigrat":
		d := bigInt(r, 80)
		switch r.Intn(3) {
		case 0:
			d = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(r.Intn(40))), nil)
		case 1:
			d = new(big.Int).Mul(new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(r.Intn(20))), nil), new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(30))))
		}
		if d.Sign() == 0 {
			d.SetInt64(1)
		}
		return h.Op{"g": g, "n": h.OfRat(new(big.Rat).SetFrac(bigInt(r, 100), d))}
	}
	v := bigInt(r, bits[g])
	if g[0] == 'u' {
		v.Abs(v)
	}
	return h.Op{"g": g, "n": h.OfBig(v)}
}

func node(r *rand.Rand, depth int, good bool) h.Op {
	k := r.Intn(20)
	if depth <= 0 && k >= 13 {
		k = r.Intn(13)
	}
	switch {
	case k < 6:
		return number(r)
	case k < 7:
		s := []byte(jsonlib.Number(r))
		if !good && r.Intn(2) == 0 {
			at := r.Intn(len(s) + 1)
			s = append(s[:at:at], append([]byte(pick(r, "0", "-", ".", "e", "+", " ", "\n", "x", "_", "0x")), s[at:]...)...)
		}
		return h.Op{"g": "numstr", "s": h.OfRunes(string(s))}
	case k < 9:
		return h.Op{"g": "string", "s": jsonlib.Text(r, 1+h.N(r, 6))}
	case k < 10:
		return h.Op{"g": "mystring", "s": jsonlib.Text(r, 6)}
	case k < 11:
		return h.Op{"g": "bool", "b": r.Intn(2) == 0}
	case k < 12:
		return h.Op{"g": "nil", "kind": pick(r, "nil", "bigint", "bigfloat", "bigrat")}
	case k < 13:
		if good || r.Intn(2) > 0 {
			return number(r)
		}
		if r.Intn(2) == 0 {
			return h.Op{"g": "notnum", "kind": pick(r, "nan", "inf", "-inf", "nan32", "inf32", "-inf32", "infbig", "-infbig")}
		}
		return h.Op{"g": "bad", "kind": pick(r, "struct", "ints", "intmap", "ptr", "complex", "func", "uintptr", "bytes", "value", "intarray", "mybool", "mymap", "mapintkey")}
	}
	n, g := r.Intn(5), pick(r, "slice", "slice", "map", "map", "valueslice", "valuemap")
	good = good || g[0] == 'v'
	vals := []any{}
	if g == "slice" || g == "valueslice" {
		for ; n > 0; n-- {
			vals = append(vals, node(r, depth-1, good))
		}
		return h.Op{"g": g, "vals": vals}
	}
	ks := map[string]bool{}
	for ; n > 0; n-- {
		ks[h.Runes(jsonlib.Text(r, 2))] = true
	}
	var sorted []string
	for k := range ks {
		sorted = append(sorted, k)
	}
	sort.Strings(sorted)
	keys := []any{}
	for _, k := range sorted {
		keys = append(keys, h.OfRunes(k))
		vals = append(vals, node(r, depth-1, good))
	}
	return h.Op{"g": g, "keys": keys, "vals": vals}
}

func fnOf(r *rand.Rand, g string) string {
	switch g {
	case "bad", "mystring", "nil":
		return pick(r, "slice", "map")
	case "string", "bool", "slice", "map", "valueslice", "valuemap":
		return pick(r, "slice", "map", "to", "mustto", "scalar")
	}
	return pick(r, "slice", "map", "to", "mustto", "num", "mustnum")
}

// some path into an encoded value, perhaps not there, perhaps no path
func path(r *rand.Rand, e []int) string {
	s := ""
	var v any = valueArg(e).ToAny()
	for n := r.Intn(5); n >= 0; n-- {
		switch t := v.(type) {
		case []any:
			if i := r.Intn(len(t) + 1); i < len(t) && r.Intn(8) > 0 {
				v = t[i]
				s += "[" + pick(r, "", "", "0", "00") + strconv.Itoa(i) + "]"
				continue
			}
		case map[string]any:
			found := false
			keys := []string{}
			for k := range t {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				if ok := len(k) > 0; ok && r.Intn(8) > 0 {
					for _, c := range k {
						ok = ok && c != '.' && c != '[' && c != ']'
					}
					if ok {
						s, v, found = s+"."+k, t[k], true
						break
					}
				}
			}
			if found {
				continue
			}
		}
		if r.Intn(2) == 0 {
			break
		}
		s += pick(r, ".a", "[0]", "[1]", ".", "]", "[", "[x]", "a", ".a b", "[9999999999999999999]", "[-1]", "[ 1]", ".[", "[18446744073709551616]", "[10]")
		v = nil
	}
	if r.Intn(4) == 0 { // a part where none can be, a character lost or doubled
		rs := []rune(s)
		at := r.Intn(len(rs) + 1)
		switch r.Intn(3) {
		case 0:
			s = string(rs[:at]) + pick(r, "[0]", ".a", "[1]", "[10]", ".b c") + string(rs[at:])
		case 1:
			if at < len(rs) {
				s = string(rs[:at]) + string(rs[at+1:])
			}
		default:
			if at < len(rs) {
				s = string(rs[:at+1]) + string(rs[at:])
			}
		}
	}
	return s
}

func gen(r *rand.Rand, i int, tier string) (ops []h.Op) {
	switch r.Intn(5) {
	case 0, 1, 2:
		n := node(r, 3, false)
		return []h.Op{{"op": "tovalue", "fn": fnOf(r, h.S(n["g"])), "node": n}}
	case 3:
		v := jsonlib.Value(r, 3)
		if r.Intn(20) == 0 {
			v = []int{-1}
		}
		return []h.Op{{"op": "apart", "v": v}}
	}
	var vs [][]int
	for n := 1 + r.Intn(3); n > 0; n-- {
		v := jsonlib.Value(r, 4)
		for t := 0; t < 5 && v[0] < 5; t++ {
			v = jsonlib.Value(r, 4)
		}
		vs = append(vs, v)
	}
	p := path(r, vs[0])
	ops = append(ops, h.Op{"op": "path", "p": h.OfRunes(p)})
	if _, err := json.ParsePath(p); err == nil {
		for _, v := range vs {
			ops = append(ops, h.Op{"op": "lookup", "v": v})
		}
	}
	return
}

func main() { h.Main(&h.Prop{Name: "value", Gen: gen, Exec: exec}) }
