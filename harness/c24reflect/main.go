// Driver for types and values through reflection.
package main

import (
	"math/big"
	"math/rand"
	"reflect"

	mreflect "github.com/bantling/micro/reflect"
	"verif/harness/h"
)

type (
	myint        int
	myint8       int8
	myint16      int16
	myint32      int32
	myint64      int64
	myuint       uint
	myuint8      uint8
	myuint16     uint16
	myuint32     uint32
	myuint64     uint64
	myfloat32    float32
	myfloat64    float64
	mybool       bool
	mystring     string
	mycomplex64  complex64
	mycomplex128 complex128
	mybigint     big.Int
	mybigfloat   big.Float
	mybigrat     big.Rat
	myany        any
	myslice      []int
	mymap        map[string]int
	myfunc       func() int
	mychan       chan int
	mystruct     struct{ A int }
	myarray      [2]int
	myuintptr    uintptr
)

type base struct{ plain, named reflect.Type }

func of[T, U any]() base {
	return base{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem()}
}

var bases = map[string]base{
	"int": of[int, myint](), "int8": of[int8, myint8](), "int16": of[int16, myint16](), "int32": of[int32, myint32](), "int64": of[int64, myint64](),
	"uint": of[uint, myuint](), "uint8": of[uint8, myuint8](), "uint16": of[uint16, myuint16](), "uint32": of[uint32, myuint32](), "uint64": of[uint64, myuint64](),
	"float32": of[float32, myfloat32](), "float64": of[float64, myfloat64](), "bool": of[bool, mybool](), "string": of[string, mystring](),
	"complex64": of[complex64, mycomplex64](), "complex128": of[complex128, mycomplex128](),
	"big.Int": of[big.Int, mybigint](), "big.Float": of[big.Float, mybigfloat](), "big.Rat": of[big.Rat, mybigrat](),
	"any": of[any, myany](), "slice": of[[]int, myslice](), "map": of[map[string]int, mymap](), "func": of[func() int, myfunc](), "chan": of[chan int, mychan](),
	"struct": of[struct{ A int }, mystruct](), "array": of[[2]int, myarray](), "uintptr": of[uintptr, myuintptr](),
}

var names []string

type named struct {
	b string
	n bool
}

var byType = map[reflect.Type]named{}

func init() {
	for _, b := range []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool", "string", "complex64", "complex128",
		"big.Int", "big.Float", "big.Rat", "any", "slice", "map", "func", "chan", "struct", "array", "uintptr"} {
		names = append(names, b)
		byType[bases[b].plain] = named{b, false}
		byType[bases[b].named] = named{b, true}
	}
}

func elemType(v any) reflect.Type {
	m := h.M(v)
	b := bases[h.S(m["b"])]
	if h.B(m["n"]) {
		return b.named
	}
	return b.plain
}

func mkType(v any) reflect.Type {
	typ := elemType(v)
	for p := h.I(h.M(v)["p"]); p > 0; p-- {
		typ = reflect.PtrTo(typ)
	}
	return typ
}

func showType(typ reflect.Type) h.Op {
	p := 0
	for typ.Kind() == reflect.Pointer {
		typ = typ.Elem()
		p++
	}
	n, isa := byType[typ]
	if !isa {
		return h.Op{"b": "?" + typ.String(), "n": false, "p": p}
	}
	return h.Op{"b": n.b, "n": n.n, "p": p}
}

// content makes the content of the variable rv
func content(rv reflect.Value, b string, n int) {
	var x any
	switch b {
	case "bool":
		x = n != 0
	case "string":
		x = string(rune(n))
		if n == 0 {
			x = ""
		}
	case "complex64", "complex128":
		x = complex(float64(n), 0)
		rv.SetComplex(x.(complex128))
		return
	case "big.Int":
		x = *big.NewInt(int64(n))
	case "big.Float":
		x = *big.NewFloat(float64(n))
	case "big.Rat":
		x = *big.NewRat(int64(n), 1)
	case "any":
		if n == 0 {
			return
		}
		x = n
	case "slice":
		if n == 0 {
			return
		}
		x = []int{n}
	case "map":
		if n == 0 {
			return
		}
		x = map[string]int{"": n}
	case "func":
		if n == 0 {
			return
		}
		x = func() int { return n }
	case "chan":
		if n == 0 {
			return
		}
		x = make(chan int, n)
	case "struct":
		x = struct{ A int }{n}
	case "array":
		x = [2]int{0, n}
	default:
		x = n
	}
	rv.Set(reflect.ValueOf(x).Convert(rv.Type()))
}

func read(rv reflect.Value, b string) int {
	switch b {
	case "bool":
		if rv.Bool() {
			return 1
		}
		return 0
	case "string":
		if rv.String() == "" {
			return 0
		}
		return int([]rune(rv.String())[0])
	case "complex64", "complex128":
		return int(real(rv.Complex()))
	case "big.Int":
		x := rv.Convert(bases[b].plain).Interface().(big.Int)
		return int(x.Int64())
	case "big.Float":
		x := rv.Convert(bases[b].plain).Interface().(big.Float)
		n, _ := x.Int64()
		return int(n)
	case "big.Rat":
		x := rv.Convert(bases[b].plain).Interface().(big.Rat)
		return int(x.Num().Int64())
	case "any":
		if rv.IsNil() {
			return 0
		}
		if rv.Elem().Kind() != reflect.Int {
			return -1
		}
		return int(rv.Elem().Int())
	case "slice", "map", "func", "chan":
		if rv.IsNil() {
			return 0
		}
		switch b {
		case "slice":
			return int(rv.Index(0).Int())
		case "map":
			return int(rv.MapIndex(reflect.ValueOf("")).Int())
		case "func":
			return int(rv.Call(nil)[0].Int())
		}
		return rv.Cap()
	case "struct":
		return int(rv.Field(0).Int())
	case "array":
		return int(rv.Index(1).Int())
	case "uintptr":
		return int(rv.Uint())
	}
	switch rv.Kind() {
	case reflect.Float32, reflect.Float64:
		return int(rv.Float())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int(rv.Uint())
	}
	return int(rv.Int())
}

// value makes a value, and gets the variable that the pointers lead to, if they do
func value(x any) (rv, variable reflect.Value) {
	m := h.M(x)
	t := h.M(m["t"])
	b, p, nilat := h.S(t["b"]), h.I(t["p"]), h.I(m["nilat"])
	variable = reflect.New(elemType(t)).Elem()
	content(variable, b, h.I(m["v"]))
	if p == 0 {
		if b == "any" {
			// an interface value
			return variable, variable
		}
		return reflect.ValueOf(variable.Interface()), variable
	}
	rv = variable.Addr()
	if nilat == p {
		rv = reflect.Zero(rv.Type())
	}
	for l := p - 1; l >= 1; l-- {
		pv := reflect.New(rv.Type())
		pv.Elem().Set(rv)
		rv = pv
		if nilat == l {
			rv = reflect.Zero(rv.Type())
		}
	}
	return
}

// show shows a value: none, or one
func show(rv reflect.Value) []h.Op {
	if !rv.IsValid() {
		return []h.Op{}
	}
	t := showType(rv.Type())
	nilat, level := 0, 1
	for rv.Kind() == reflect.Pointer {
		if rv.IsNil() {
			nilat = level
			break
		}
		rv = rv.Elem()
		level++
	}
	v := 0
	if nilat == 0 {
		v = read(rv, t["b"].(string))
	}
	return []h.Op{{"t": t, "nilat": nilat, "v": v}}
}

func types(typ reflect.Type) []h.Op {
	if typ == nil {
		return []h.Op{}
	}
	return []h.Op{showType(typ)}
}

var structs = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(S1{}), reflect.TypeOf(S2{}), reflect.TypeOf(struct{}{}), reflect.TypeOf(S4{}),
	reflect.TypeOf(struct {
		S1
		A string
	}{}), reflect.TypeOf(S6{}), reflect.TypeOf(struct {
		D int
		*S4
	}{}), reflect.TypeOf(struct {
		*S6
		S4
		b []int
	}{}),
}

// The structs of the specification, by number
type (
	S1 struct{ A int }
	S2 struct {
		A int
		B string
		b bool
	}
	S4 struct {
		S1
		C int
	}
	S6 struct {
		*S1
		S2
	}
)

func exec(ops []h.Op) {
	for _, op := range ops {
		op := op
		var variable reflect.Value
		if h.Do(op, func() {
			switch h.S(op["op"]) {
			case "type":
				typ := mkType(op["t"])
				op["res"] = h.Op{"e": "", "deref": showType(mreflect.DerefType(typ)), "max": showType(mreflect.DerefTypeMaxOnePtr(typ)), "num": mreflect.NumPointers(typ),
					"big": mreflect.IsBigPtr(typ), "signed": mreflect.IsSignedInteger(typ), "unsigned": mreflect.IsUnsignedInteger(typ), "numeric": mreflect.IsNumeric(typ),
					"nillable": mreflect.IsNillable(typ), "prim": mreflect.IsPrimitive(typ), "base": types(mreflect.TypeToBaseType(typ))}
			case "value":
				rv, _ := value(op["x"])
				base := show(mreflect.ValueToBaseType(rv))
				res := h.Op{"e": "", "deref": show(mreflect.DerefValue(rv)), "max": show(mreflect.DerefValueMaxOnePtr(rv)), "resolved": show(mreflect.ResolveValueType(rv)),
					"base": h.Op{}, "isnil": mreflect.IsNil(rv), "nillable": mreflect.IsNillable(rv), "prim": mreflect.IsPrimitive(rv), "param": types(mreflect.ValueMaxOnePtrType(rv))}
				if len(base) == 1 {
					res["base"] = base[0]
				}
				op["res"] = res
			case "novalue":
				var rv reflect.Value
				op["res"] = h.Op{"e": "", "isnil": mreflect.IsNil(rv), "nillable": mreflect.IsNillable(rv) && mreflect.IsNillable(reflect.Type(nil)),
					"param": types(mreflect.ValueMaxOnePtrType(rv)), "resolved": show(mreflect.ResolveValueType(rv))}
			case "assert":
				var rv reflect.Value
				if l := h.As(op["x"]); len(l) == 1 {
					rv, _ = value(l[0])
				}
				if h.B(op["must"]) {
					mreflect.MustTypeAssert(rv, mkType(op["t"]), "here")
					op["res"] = h.Op{"e": ""}
				} else if err := mreflect.TypeAssert(rv, mkType(op["t"])); err != nil {
					op["res"] = h.Op{"e": "err"}
				} else {
					op["res"] = h.Op{"e": ""}
				}
			case "store":
				rv, v := value(op["x"])
				src, _ := value(op["src"])
				b := h.S(h.M(h.M(op["x"])["t"])["b"])
				if h.I(h.M(op["x"])["nilat"]) == 0 {
					variable = v
				}
				mreflect.SetPointerValue(rv, src)
				op["res"] = h.Op{"e": "", "v": read(v, b)}
			case "fields":
				typ := structs[h.I(op["s"])]
				fields := mreflect.FieldsByName(typ)
				res := h.Op{"e": "", "names": []string{}, "same": true, "isnil": fields == nil}
				l := []string{}
				for i := 0; i < 8; i++ {
					for n, f := range fields {
						if len(f.Index) == 1 && f.Index[0] == i {
							l = append(l, n)
							o := typ.Field(i)
							if o.Name != n || o.Type != f.Type || o.PkgPath != f.PkgPath || o.Anonymous != f.Anonymous {
								res["same"] = false
							}
						}
					}
				}
				res["names"] = l
				op["res"] = res
			case "field":
				f := mreflect.GetFieldByName(structs[h.I(op["s"])], h.S(op["name"]))
				e := ""
				if f.Name != op["name"] {
					e = "other field"
				}
				op["res"] = h.Op{"e": e, "path": f.Index}
			default:
				h.Fail("op %v", op["op"])
			}
		}) {
			res := h.Op{"e": "panic"}
			if op["op"] == "store" {
				res["v"] = 0
				if variable.IsValid() {
					res["v"] = read(variable, h.S(h.M(h.M(op["x"])["t"])["b"]))
				}
			}
			op["res"] = res
		}
	}
}

func gen(r *rand.Rand, i int, tier string) []h.Op {
	typ := func(p int) h.Op { return h.Op{"b": names[r.Intn(len(names))], "n": r.Intn(2) == 0, "p": p} }
	val := func(p int) h.Op {
		t := typ(p)
		z := 0
		if p > 0 && r.Intn(3) == 0 {
			z = 1 + r.Intn(p)
		}
		v := r.Intn(100)
		if t["b"] == "bool" || r.Intn(3) == 0 {
			v = r.Intn(2)
		}
		return h.Op{"t": t, "nilat": z, "v": v}
	}
	switch r.Intn(4) {
	case 0:
		return []h.Op{{"op": "type", "t": typ(r.Intn(6))}}
	case 1:
		return []h.Op{{"op": "value", "x": val(r.Intn(6))}}
	case 2:
		x := val(r.Intn(4))
		t := typ(r.Intn(4))
		if r.Intn(2) == 0 {
			t = x["t"].(h.Op)
		}
		return []h.Op{{"op": "assert", "x": []h.Op{x}, "t": t, "must": r.Intn(4) == 0}}
	}
	for {
		x, src := val(r.Intn(4)), val(0)
		src["v"] = r.Intn(2)
		if r.Intn(2) == 0 {
			src["t"].(h.Op)["b"] = x["t"].(h.Op)["b"]
		}
		b, s := x["t"].(h.Op)["b"].(string), src["t"].(h.Op)["b"].(string)
		// texts and arrays are made of other types, too, and interfaces of all types
		if b == s || (b != "any" && s != "any" && b != "string" && s != "string" && b != "array" && s != "array") {
			return []h.Op{{"op": "store", "x": x, "src": src}}
		}
	}
}

func main() { h.Main(&h.Prop{Name: "c24reflect", Gen: gen, Exec: exec}) }
