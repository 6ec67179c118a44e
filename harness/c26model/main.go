// Driver for the model of source code, and tuples.
package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"

	"github.com/bantling/micro/code"
	"github.com/bantling/micro/tuple"
	"github.com/bantling/micro/union"
	"verif/harness/h"
)

var scalars = map[string]code.ScalarType{
	"Bool": code.Bool, "Uint": code.Uint, "Uint8": code.Uint8, "Uint16": code.Uint16, "Uint32": code.Uint32, "Uint64": code.Uint64,
	"Int": code.Int, "Int8": code.Int8, "Int16": code.Int16, "Int32": code.Int32, "Int64": code.Int64, "Float": code.Float, "Double": code.Double,
	"String": code.String, "UUID": code.UUID, "Date": code.Date, "DateTimeSecs": code.DateTimeSecs, "DateTimeMillis": code.DateTimeMillis,
	"DurationDays": code.DurationDays, "DurationSecs": code.DurationSecs, "DurationMillis": code.DurationMillis,
}

var aggregates = map[string]code.AggregateType{
	"JSON": code.JSON, "Array": code.Array, "Enum": code.Enum, "List": code.List, "Map": code.Map, "Maybe": code.Maybe, "Object": code.Object, "Set": code.Set,
}

var levels = map[string]code.AccessLevel{"Private": code.Private, "Package": code.Package, "PackageSub": code.PackageSub, "Public": code.Public}

var unary = map[string]code.UnaryOperator{"Inc": code.Inc, "Dec": code.Dec, "Neg": code.Neg, "BitNot": code.BitNot}

var binary = map[string]code.BinaryOperator{
	"Add": code.Add, "Sub": code.Sub, "Mul": code.Mul, "Div": code.Div, "Concat": code.Concat, "BitAnd": code.BitAnd, "BitOr": code.BitOr, "BitXor": code.BitXor,
	"BitShiftLeft": code.BitShiftLeft, "BitShiftRight": code.BitShiftRight, "BitShiftRightArithmetic": code.BitShiftRightArithmetic,
}

var booleans = map[string]code.BooleanOperator{
	"Not": code.Not, "And": code.And, "Or": code.Or, "Lesser": code.Lesser, "LesserEquals": code.LesserEquals, "Equals": code.Equals,
	"GreaterEquals": code.GreaterEquals, "Greater": code.Greater, "Ternary": code.Ternary,
}

func typeOf(name string) code.Type {
	if t, is := scalars[name]; is {
		return code.Type(t)
	}
	if t, is := aggregates[name]; is {
		return code.Type(t)
	}
	h.Fail("type %s", name)
	return 0
}

func opOf(name string) code.Operator {
	if o, is := unary[name]; is {
		return code.Operator(o)
	}
	if o, is := binary[name]; is {
		return code.Operator(o)
	}
	if o, is := booleans[name]; is {
		return code.Operator(o)
	}
	h.Fail("operator %s", name)
	return 0
}

func names() (types, ops []string) {
	for n := range scalars {
		types = append(types, n)
	}
	for n := range aggregates {
		types = append(types, n)
	}
	for n := range unary {
		ops = append(ops, n)
	}
	for n := range binary {
		ops = append(ops, n)
	}
	for n := range booleans {
		ops = append(ops, n)
	}
	sort.Strings(types)
	sort.Strings(ops)
	return
}

var typeNames, opNames = names()

// isType lists the names a type has
func isType(t code.Type) []string {
	r := []string{}
	for _, n := range typeNames {
		if typeOf(n) == t {
			r = append(r, n)
		}
	}
	return r
}

func isOp(o code.Operator) []string {
	r := []string{}
	for _, n := range opNames {
		if opOf(n) == o {
			r = append(r, n)
		}
	}
	return r
}

func one(s []string) string {
	if len(s) == 1 {
		return s[0]
	}
	return fmt.Sprint(s)
}

func levelName(l code.AccessLevel) string {
	r := []string{}
	for n, v := range levels {
		if v == l {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return one(r)
}

// parts that others are made of
var types = []*code.TypeDef{nil, code.OfScalarType(code.Int), code.OfScalarType(code.String, code.Public), code.OfJSONType()}
var vals = []*code.Val{nil, {Kind: code.LitVal, Typ: types[1], Value: "1"}, {Kind: code.VarVal, Typ: types[1], Value: "1"}, {}}

func typeNo(m union.Maybe[*code.TypeDef]) int {
	if m.Empty() {
		return 0
	}
	return typeIdx(m.Get())
}

func typeIdx(t *code.TypeDef) int {
	for i, x := range types {
		if t == x {
			return i
		}
	}
	return -1
}

func valNo(v *code.Val) int {
	for i, x := range vals {
		if v == x {
			return i
		}
	}
	return -1
}

func maybeVal(m union.Maybe[*code.Val]) int {
	if m.Empty() {
		return 0
	}
	return valNo(m.Get())
}

func access(v any) []code.AccessLevel {
	r := []code.AccessLevel{}
	for _, s := range h.Ss(v) {
		r = append(r, levels[s])
	}
	if len(r) == 0 {
		return nil
	}
	return r
}

func strs(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func exec(ops []h.Op) {
	for _, op := range ops {
		op := op
		if h.Do(op, func() { op["res"] = do(op) }) {
			op["res"] = h.Op{"e": "panic"}
			delete(op, "note")
		}
	}
}

func do(op h.Op) h.Op {
	switch h.S(op["op"]) {
	case "sort":
		t := typeOf(h.S(op["typ"]))
		return h.Op{"e": "", "scalar": code.IsScalar(t), "aggregate": code.IsAggregate(t), "is": isType(t)}

	case "operator":
		o := opOf(h.S(op["o"]))
		return h.Op{"e": "", "unary": o.IsUnary(), "binary": o.IsBinary(), "boolean": o.IsBoolean(), "is": isOp(o)}

	case "type":
		x := h.M(op["x"])
		acc, elem, key := access(x["access"]), types[h.I(x["elem"])], types[h.I(x["key"])]
		name, ns := h.S(x["name"]), h.Ss(x["names"])
		var d *code.TypeDef
		switch typ := h.S(x["typ"]); typ {
		case "JSON":
			d = code.OfJSONType(acc...)
		case "Array":
			b := []uint{}
			for _, i := range h.Is(x["bounds"]) {
				b = append(b, uint(i))
			}
			d = code.OfArrayType(elem, b, acc...)
		case "Enum":
			d = code.OfEnumType(name, elem, ns, acc...)
		case "List":
			d = code.OfListType(elem, acc...)
		case "Map":
			d = code.OfMapType(key, elem, acc...)
		case "Maybe":
			d = code.OfMaybeType(elem, acc...)
		case "Object":
			d = code.OfObjectType(elem, name, ns, acc...)
		case "Set":
			d = code.OfSetType(elem, acc...)
		default:
			d = code.OfScalarType(scalars[typ], acc...)
		}
		bounds := []int{}
		for _, b := range d.ArrayBounds {
			bounds = append(bounds, int(b))
		}
		return h.Op{"e": "", "typ": one(isType(d.Typ)), "access": levelName(d.Access), "bounds": bounds, "name": d.Name, "names": strs(d.Names),
			"key": typeNo(d.KeyType), "elem": typeNo(d.ValueType)}

	case "value":
		x := h.M(op["x"])
		var v code.Val
		if h.S(x["sort"]) == "literal" {
			v = code.OfLitVal(types[h.I(x["of"])], h.S(x["s"]))
		} else {
			v = code.OfVarVal(h.B(x["const"]), types[h.I(x["of"])], h.S(x["s"]), access(x["access"])...)
		}
		acc := []string{}
		if v.Access.Present() {
			acc = append(acc, levelName(v.Access.Get()))
		}
		return h.Op{"e": "", "kind": map[code.ValKind]string{code.LitVal: "LitVal", code.VarVal: "VarVal", code.VarConst: "VarConst"}[v.Kind], "of": typeIdx(v.Typ), "s": v.Value, "access": acc}

	case "expr":
		o := h.S(op["o"])
		vs := []*code.Val{}
		for _, i := range h.Is(op["vals"]) {
			vs = append(vs, vals[i])
		}
		var e code.Expr
		if u, is := unary[o]; is {
			e = code.OfUnaryExpr(u, vs[0])
		} else if b, is := binary[o]; is {
			e = code.OfBinaryExpr(b, vs[0], vs[1])
		} else {
			e = code.OfBooleanExpr(booleans[o], vs[0], vs[1:]...)
		}
		return h.Op{"e": "", "is": isOp(e.Op), "vals": []int{valNo(e.Val1), maybeVal(e.Val2), maybeVal(e.Val3)}}

	case "tuple":
		return tuples(h.Ss(op["vals"]), h.B(op["same"]))
	}
	h.Fail("op %v", op["op"])
	return nil
}

func show(vs ...any) []string {
	r := []string{}
	for _, v := range vs {
		r = append(r, fmt.Sprint(v))
	}
	return r
}

func tup(s string, fields []string, values []string) h.Op {
	return h.Op{"e": "", "vals": values, "fields": fields, "s": s}
}

func tuples(v []string, same bool) h.Op {
	if same {
		n := make([]int, 4)
		for i, s := range v {
			fmt.Sscan(s, &n[i])
		}
		switch len(v) {
		case 2:
			t := tuple.Of2Same(n[0], n[1])
			a, b := t.Values()
			return tup(t.String(), show(t.T, t.U), show(a, b))
		case 3:
			t := tuple.Of3Same(n[0], n[1], n[2])
			a, b, c := t.Values()
			return tup(t.String(), show(t.T, t.U, t.V), show(a, b, c))
		default:
			t := tuple.Of4Same(n[0], n[1], n[2], n[3])
			a, b, c, d := t.Values()
			return tup(t.String(), show(t.T, t.U, t.V, t.W), show(a, b, c, d))
		}
	}
	var n int
	fmt.Sscan(v[0], &n)
	switch len(v) {
	case 2:
		t := tuple.Of2(n, v[1])
		a, b := t.Values()
		return tup(t.String(), show(t.T, t.U), show(a, b))
	case 3:
		t := tuple.Of3(n, v[1], v[2] == "true")
		a, b, c := t.Values()
		return tup(t.String(), show(t.T, t.U, t.V), show(a, b, c))
	default:
		var err error
		if v[3] != "<nil>" {
			err = errors.New(v[3])
		}
		t := tuple.Of4(n, v[1], v[2] == "true", err)
		a, b, c, d := t.Values()
		return tup(t.String(), show(t.T, t.U, t.V, t.W), show(a, b, c, d))
	}
}

func gen(r *rand.Rand, i int, tier string) []h.Op {
	word := func() string { return []string{"", "a", "b c", "x", "T: 1"}[r.Intn(5)] }
	list := func(n int) []string {
		l := []string{}
		for k := h.N(r, n+1); k > 0; k-- {
			l = append(l, word())
		}
		return l
	}
	acc := func() []string {
		l := []string{}
		for k := r.Intn(3); k > 0; k-- {
			l = append(l, []string{"Private", "Package", "PackageSub", "Public"}[r.Intn(4)])
		}
		return l
	}
	ops := []h.Op{}
	for k := 1 + r.Intn(10); k > 0; k-- {
		switch r.Intn(4) {
		case 0:
			b := []int{}
			for m := h.N(r, 5); m > 0; m-- {
				b = append(b, r.Intn(1000))
			}
			ops = append(ops, h.Op{"op": "type", "x": h.Op{"typ": typeNames[r.Intn(len(typeNames))], "access": acc(), "elem": r.Intn(4), "key": r.Intn(4), "name": word(), "names": list(6), "bounds": b}})
		case 1:
			ops = append(ops, h.Op{"op": "value", "x": h.Op{"sort": []string{"literal", "variable"}[r.Intn(2)], "of": r.Intn(4), "s": word(), "access": acc(), "const": r.Intn(2) == 0}})
		case 2:
			o := opNames[r.Intn(len(opNames))]
			n := 1
			if _, is := binary[o]; is {
				n = 2
			} else if _, is := booleans[o]; is {
				n = 1 + h.N(r, 5)
			}
			vs := []int{}
			for ; n > 0; n-- {
				v := r.Intn(4)
				if v == 0 {
					v = r.Intn(4)
				}
				vs = append(vs, v)
			}
			ops = append(ops, h.Op{"op": "expr", "o": o, "vals": vs})
		default:
			num := func() string { return fmt.Sprint(r.Int31() - 1<<30) }
			n := 2 + r.Intn(3)
			if r.Intn(2) == 0 {
				ops = append(ops, h.Op{"op": "tuple", "same": true, "vals": []string{num(), num(), num(), num()}[:n]})
			} else {
				ops = append(ops, h.Op{"op": "tuple", "same": false, "vals": []string{num(), word(), fmt.Sprint(r.Intn(2) == 0), []string{"<nil>", "e", "%v"}[r.Intn(3)]}[:n]})
			}
		}
	}
	return ops
}

func main() { h.Main(&h.Prop{Name: "c26model", Gen: gen, Exec: exec}) }
