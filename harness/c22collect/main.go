// Driver for the helpers for slices, maps, and sorted slices of pairs.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"sort"

	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/tuple"
	"verif/harness/h"
)

// codec makes values of a type of numbers
type codec[T any] struct {
	dec func(n int) T
	enc func(v T) int
}

var (
	cells = make([]int, 1000)
)

const offset = 100

var (
	ints = codec[int]{func(n int) int { return n }, func(v int) int { return v }}
	strs = codec[string]{
		func(n int) string { return fmt.Sprintf("%04d", n+offset) },
		func(v string) (n int) {
			fmt.Sscanf(v, "%d", &n)
			return n - offset
		},
	}
	ptrs = codec[*int]{
		func(n int) *int { return &cells[n+offset] },
		func(v *int) int {
			for i := range cells {
				if v == &cells[i] {
					return i - offset
				}
			}
			return -999
		},
	}
	bigints = codec[*big.Int]{func(n int) *big.Int { return big.NewInt(int64(n)) }, func(v *big.Int) int { return int(v.Int64()) }}
	anys    = codec[any]{
		func(n int) any {
			if n == 0 {
				return nil
			}
			return n
		},
		func(v any) int {
			if v == nil {
				return 0
			}
			return v.(int)
		},
	}
)

// spare is the capacity beyond the length of an argument, which is not to be touched
const spare = 3

func mk[T any](c codec[T], in []int, isNil bool) []T {
	if len(in) == 0 && isNil {
		return nil
	}
	s := make([]T, len(in), len(in)+spare)
	for i, v := range in {
		s[i] = c.dec(v)
	}
	for i := len(in); i < cap(s); i++ {
		s[:cap(s)][i] = c.dec(77)
	}
	return s
}

func un[T any](c codec[T], s []T) []int {
	out := []int{}
	for _, v := range s {
		out = append(out, c.enc(v))
	}
	return out
}

// untouched gets the content of an argument, with the spare capacity only if that was touched
func untouched[T any](c codec[T], s []T) []int {
	out := un(c, s)
	for _, v := range s[:cap(s)][len(s):] {
		if c.enc(v) != 77 {
			return append(out, un(c, s[:cap(s)][len(s):])...)
		}
	}
	return out
}

// shares is true if a change of a changes b
func shares[T any](c codec[T], a, b []T) bool {
	before := un(c, b)
	for i := range a {
		a[i] = c.dec(88)
	}
	return !reflect.DeepEqual(before, un(c, b))
}

func result[T any](c codec[T], in, out []T) h.Op {
	res := h.Op{"e": "", "out": un(c, out), "after": untouched(c, in), "isnil": out == nil}
	res["shared"] = shares(c, out, in)
	return res
}

func slice[T comparable](op h.Op, c codec[T], isNil bool) {
	in := mk(c, h.Is(op["in"]), isNil)
	switch h.S(op["f"]) {
	case "add":
		s := in
		funcs.SliceAdd(&s, c.dec(h.I(op["v"])))
		op["res"] = h.Op{"e": "", "out": un(c, s)}
	case "copy":
		op["res"] = result(c, in, funcs.SliceCopy(in))
	case "of":
		op["res"] = h.Op{"e": "", "out": un(c, funcs.SliceOf(in...))}
	case "index":
		var v T
		i := h.I(op["i"])
		if d := h.Is(op["default"]); len(d) > 0 {
			v = funcs.SliceIndex(in, i, c.dec(d[0]))
		} else {
			v = funcs.SliceIndex(in, i)
		}
		op["res"] = h.Op{"e": "", "v": c.enc(v), "after": untouched(c, in)}
	case "remove":
		v := c.dec(h.I(op["v"]))
		all := h.B(op["all"])
		if op["t"] == "uncomparable" {
			op["res"] = result(c, in, funcs.SliceRemoveUncomparable(in, v, all))
		} else if !all {
			op["res"] = result(c, in, funcs.SliceRemove(in, v))
		} else {
			op["res"] = result(c, in, funcs.SliceRemove(in, v, funcs.ALL))
		}
	case "reverse":
		op["res"] = result(c, in, funcs.SliceReverse(in))
	case "unique":
		op["res"] = result(c, in, funcs.SliceUniqueValues(in))
	case "tomap":
		res := h.Op{"e": "", "out": []int{}, "after": []int{}, "true": true, "isnil": false}
		out := []int{}
		if op["by"] == "by" {
			m := funcs.SliceToMapBy(in, func(v T) int { return mod3(c.enc(v)) })
			for k, v := range m {
				out = append(out, k)
				res["true"] = res["true"] == true && v
			}
			res["isnil"] = m == nil
		} else {
			m := funcs.SliceToMap(in)
			for k, v := range m {
				out = append(out, c.enc(k))
				res["true"] = res["true"] == true && v
			}
			res["isnil"] = m == nil
		}
		sort.Ints(out)
		res["out"], res["after"] = out, untouched(c, in)
		op["res"] = res
	default:
		h.Fail("f %v", op["f"])
	}
}

func mod3(n int) int { return ((n % 3) + 3) % 3 }

func sorting(op h.Op, isNil bool) {
	switch by := h.S(op["by"]); by {
	case "complex":
		in := []complex128{}
		for _, v := range h.As(op["in"]) {
			p := h.Is(v)
			in = append(in, complex(float64(p[0]), float64(p[1])))
		}
		out := funcs.SliceSortComplex(in)
		show := func(s []complex128) [][]int {
			r := [][]int{}
			for _, v := range s {
				r = append(r, []int{int(real(v)), int(imag(v))})
			}
			return r
		}
		op["res"] = h.Op{"e": "", "out": show(out), "after": show(in), "shared": len(in) > 0 && &in[0] == &out[0]}
	case "cmp":
		in := mk(bigints, h.Is(op["in"]), isNil)
		op["res"] = result(bigints, in, funcs.SliceSortCmp(in))
	case "by":
		in := mk(ptrs, h.Is(op["in"]), isNil)
		op["res"] = result(ptrs, in, funcs.SliceSortBy(in, func(a, b *int) bool { return mod3(ptrs.enc(a)) < mod3(ptrs.enc(b)) }))
	default:
		if op["t"] == "string" {
			in := mk(strs, h.Is(op["in"]), isNil)
			op["res"] = result(strs, in, funcs.SliceSortOrdered(in))
		} else {
			in := mk(ints, h.Is(op["in"]), isNil)
			op["res"] = result(ints, in, funcs.SliceSortOrdered(in))
		}
	}
}

type named []int

// nest makes a slice of a number of dimensions of an element type
func nest(v any, dims int, elem reflect.Type, leaf func(n int) reflect.Value) reflect.Value {
	if dims == 0 {
		return leaf(h.I(v))
	}
	typ := elem
	for i := 0; i < dims; i++ {
		typ = reflect.SliceOf(typ)
	}
	s := reflect.MakeSlice(typ, 0, 4)
	for _, x := range h.As(v) {
		s = reflect.Append(s, nest(x, dims-1, elem, leaf))
	}
	return s
}

func flatten(op h.Op) {
	switch h.S(op["what"]) {
	case "nil":
		out := funcs.SliceFlatten[int](nil)
		op["res"] = h.Op{"e": "", "out": out, "isnil": out == nil}
		return
	case "other":
		op["res"] = h.Op{"e": "", "out": funcs.SliceFlatten[int](5)}
		return
	case "type":
		op["res"] = h.Op{"e": "", "out": funcs.SliceFlatten[int]([][]string{{"a"}})}
		return
	}
	dims := h.I(op["dims"])
	switch h.S(op["t"]) {
	case "any":
		typ := reflect.TypeOf((*any)(nil)).Elem()
		v := nest(op["in"], dims, typ, func(n int) reflect.Value {
			x := anys.dec(n)
			return reflect.ValueOf(&x).Elem()
		})
		op["res"] = h.Op{"e": "", "out": un(anys, funcs.SliceFlatten[any](v.Interface())), "isnil": false}
	case "named":
		// the innermost dimension is of a named type
		v := nest(op["in"], dims, reflect.TypeOf(0), func(n int) reflect.Value { return reflect.ValueOf(n) })
		var x any
		switch s := v.Interface().(type) {
		case []int:
			x = named(s)
		case [][]int:
			l := []named{}
			for _, e := range s {
				l = append(l, named(e))
			}
			x = l
		case [][][]int:
			l := [][]named{}
			for _, e := range s {
				k := []named{}
				for _, f := range e {
					k = append(k, named(f))
				}
				l = append(l, k)
			}
			x = l
		}
		op["res"] = h.Op{"e": "", "out": un(ints, funcs.SliceFlatten[int](x)), "isnil": false}
	default:
		v := nest(op["in"], dims, reflect.TypeOf(0), func(n int) reflect.Value { return reflect.ValueOf(n) })
		op["res"] = h.Op{"e": "", "out": un(ints, funcs.SliceFlatten[int](v.Interface())), "isnil": false}
	}
}

// ==== maps

type state struct {
	kind string
	m    map[int]int
	m2   map[string]map[int]int
	ms   map[int][]string
	msu  map[int][]*int
	m2s  map[int]map[string][]int
	m2su map[int]map[string][]*int
	ts   []tuple.Two[int, []string]
	tsu  []tuple.Two[int, []*int]
}

// dump gets the entries, in the order of the keys (of maps) or as they are
func (s *state) dump(pointers bool) []any {
	l := []any{}
	put := func(v any, p ...int) { l = append(l, []any{p, v}) }
	switch s.kind {
	case "map":
		for k, v := range s.m {
			put(v, k)
		}
	case "map2":
		for k, m := range s.m2 {
			for k2, v := range m {
				put(v, strs.enc(k), k2)
			}
		}
	case "mapslice":
		if pointers {
			for k, v := range s.msu {
				put(un(ptrs, v), k)
			}
		} else {
			for k, v := range s.ms {
				put(un(strs, v), k)
			}
		}
	case "map2slice":
		if pointers {
			for k, m := range s.m2su {
				for k2, v := range m {
					put(un(ptrs, v), k, strs.enc(k2))
				}
			}
		} else {
			for k, m := range s.m2s {
				for k2, v := range m {
					put(un(ints, v), k, strs.enc(k2))
				}
			}
		}
	case "ordered":
		if pointers {
			for _, t := range s.tsu {
				put(un(ptrs, t.U), t.T)
			}
		} else {
			for _, t := range s.ts {
				put(un(strs, t.U), t.T)
			}
		}
		return l
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	return l
}

// both keeps maps of comparable and of other values in step: their entries have to agree
func (s *state) both() h.Op {
	d := s.dump(false)
	if s.kind == "mapslice" || s.kind == "map2slice" || s.kind == "ordered" {
		if u := s.dump(true); !reflect.DeepEqual(d, u) {
			return h.Op{"e": "differ", "dump": u, "kept": true}
		}
	}
	return h.Op{"e": "", "dump": d, "kept": true}
}

func (s *state) exec(op h.Op) {
	p := []int{0, 0}
	if op["p"] != nil {
		p = append(append([]int{}, h.Is(op["p"])...), 0)
	}
	v := 0
	if op["v"] != nil {
		v = h.I(op["v"])
	}
	switch h.S(op["op"]) {
	case "set":
		if s.kind == "map" {
			funcs.MapSet(&s.m, p[0], v)
		} else {
			funcs.Map2Set(&s.m2, strs.dec(p[0]), p[1], v)
		}
		op["res"] = s.both()
	case "unset":
		switch s.kind {
		case "map":
			funcs.MapUnset(s.m, p[0])
		case "map2":
			funcs.Map2Unset(s.m2, strs.dec(p[0]), p[1])
		case "ordered":
			funcs.OrderedTuple2SliceRemoveKey(&s.ts, p[0])
			funcs.OrderedTuple2SliceRemoveKey(&s.tsu, p[0])
		}
		op["res"] = s.both()
	case "test":
		if s.kind == "map" {
			op["res"] = h.Op{"b": funcs.MapTest(s.m, p[0])}
		} else {
			op["res"] = h.Op{"b": funcs.Map2Test(s.m2, strs.dec(p[0]), p[1])}
		}
	case "index":
		if d := h.Is(op["default"]); len(d) > 0 {
			op["res"] = h.Op{"v": funcs.MapIndex(s.m, p[0], d[0])}
		} else {
			op["res"] = h.Op{"v": funcs.MapIndex(s.m, p[0])}
		}
	case "keys":
		out := funcs.MapKeysToSlice(s.m)
		isNil := out == nil
		sort.Ints(out)
		op["res"] = h.Op{"out": append([]int{}, out...), "isnil": isNil}
	case "sorted":
		out := [][]int{}
		switch h.S(op["by"]) {
		case "by":
			for _, t := range funcs.MapSortBy(s.m, func(a, b int) bool { return mod3(a) < mod3(b) }) {
				out = append(out, []int{t.T, t.U})
			}
		case "cmp":
			m := map[*big.Int]int{}
			for k, v := range s.m {
				m[big.NewInt(int64(k))] = v
			}
			for _, t := range funcs.MapSortCmp(m) {
				out = append(out, []int{int(t.T.Int64()), t.U})
			}
		case "string":
			m := map[string]int{}
			for k, v := range s.m {
				m[strs.dec(k)] = v
			}
			for _, t := range funcs.MapSortOrdered(m) {
				out = append(out, []int{strs.enc(t.T), t.U})
			}
		case "size": // keys are sorted by their size
			m := map[complex128]int{}
			for k, v := range s.m {
				m[complex(0, float64(k))] = v
			}
			for _, t := range funcs.MapSortComplex(m) {
				out = append(out, []int{int(imag(t.T)), t.U})
			}
		default:
			for _, t := range funcs.MapSortOrdered(s.m) {
				out = append(out, []int{t.T, t.U})
			}
		}
		op["res"] = h.Op{"out": out}
	case "add":
		switch s.kind {
		case "mapslice":
			funcs.MapSliceAdd(&s.ms, p[0], strs.dec(v))
			funcs.MapSliceAdd(&s.msu, p[0], ptrs.dec(v))
		case "map2slice":
			funcs.Map2SliceAdd(&s.m2s, p[0], strs.dec(p[1]), v)
			funcs.Map2SliceAdd(&s.m2su, p[0], strs.dec(p[1]), ptrs.dec(v))
		case "ordered":
			funcs.OrderedTuple2SliceAdd(&s.ts, p[0], strs.dec(v))
			funcs.OrderedTuple2SliceAdd(&s.tsu, p[0], ptrs.dec(v))
		}
		op["res"] = s.both()
	case "remove":
		var (
			all  []bool
			kept = true
		)
		if h.B(op["all"]) {
			all = []bool{true}
		} else if v%2 == 0 {
			all = []bool{false}
		}
		switch s.kind {
		case "mapslice":
			a, b := s.ms[p[0]], s.msu[p[0]]
			ua, ub := un(strs, a), un(ptrs, b)
			funcs.MapSliceRemove(s.ms, p[0], strs.dec(v), all...)
			funcs.MapSliceRemoveUncomparable(s.msu, p[0], ptrs.dec(v), all...)
			kept = reflect.DeepEqual(ua, un(strs, a)) && reflect.DeepEqual(ub, un(ptrs, b))
		case "map2slice":
			a, b := s.m2s[p[0]][strs.dec(p[1])], s.m2su[p[0]][strs.dec(p[1])]
			ua, ub := un(ints, a), un(ptrs, b)
			funcs.Map2SliceRemove(s.m2s, p[0], strs.dec(p[1]), v, all...)
			funcs.Map2SliceRemoveUncomparable(s.m2su, p[0], strs.dec(p[1]), ptrs.dec(v), all...)
			kept = reflect.DeepEqual(ua, un(ints, a)) && reflect.DeepEqual(ub, un(ptrs, b))
		case "ordered":
			var (
				a  []string
				b  []*int
				at = -1
			)
			for i, t := range s.ts {
				if t.T == p[0] && i < len(s.tsu) {
					at, a, b = i, t.U, s.tsu[i].U
				}
			}
			ua, ub := un(strs, a), un(ptrs, b)
			funcs.OrderedTuple2SliceRemoveValue(&s.ts, p[0], strs.dec(v), all...)
			funcs.OrderedTuple2SliceRemoveUncomparable(&s.tsu, p[0], ptrs.dec(v), all...)
			kept = at < 0 || reflect.DeepEqual(ua, un(strs, a)) && reflect.DeepEqual(ub, un(ptrs, b))
		}
		op["res"] = s.both()
		op["res"].(h.Op)["kept"] = kept
	case "search":
		i, found := funcs.OrderedTuple2Search(s.ts, h.I(op["k"]))
		op["res"] = h.Op{"at": i, "found": found}
	default:
		h.Fail("op %v", op["op"])
	}
}

func exec(ops []h.Op) {
	var s *state
	for i, op := range ops {
		op := op
		if h.Do(op, func() {
			switch h.S(op["op"]) {
			case "open":
				s = &state{kind: h.S(op["kind"])}
				if !h.B(op["nil"]) {
					s.m, s.m2, s.ms, s.msu = map[int]int{}, map[string]map[int]int{}, map[int][]string{}, map[int][]*int{}
					s.m2s, s.m2su = map[int]map[string][]int{}, map[int]map[string][]*int{}
					s.ts, s.tsu = []tuple.Two[int, []string]{}, []tuple.Two[int, []*int]{}
				}
				op["res"] = h.Op{}
			case "slice":
				isNil := i%2 == 0
				switch {
				case op["f"] == "flatten":
					flatten(op)
				case op["f"] == "sort":
					sorting(op, isNil)
				case op["t"] == "string":
					slice(op, strs, isNil)
				case op["t"] == "ptr" || op["t"] == "uncomparable":
					slice(op, ptrs, isNil)
				default:
					slice(op, ints, isNil)
				}
			default:
				s.exec(op)
			}
		}) {
			op["res"] = h.Op{"e": "panic", "out": []int{}, "after": []int{}, "shared": false, "isnil": false, "true": false, "v": -999, "b": "panic", "dump": []any{}, "kept": false, "at": -999, "found": "panic"}
		}
	}
}

func gen(r *rand.Rand, i int, tier string) []h.Op {
	vals := []int{2, 3, 6, 20, 500}[r.Intn(5)]
	v := func() int { return r.Intn(vals) - r.Intn(2)*r.Intn(3) }
	if r.Intn(2) == 0 {
		ops := []h.Op{}
		for k := r.Intn(4); k >= 0; k-- {
			in := []int{}
			for l := h.N(r, 2+r.Intn(14)); l > 0; l-- {
				in = append(in, v())
			}
			t := []string{"int", "string", "ptr"}[r.Intn(3)]
			op := h.Op{"op": "slice", "t": t, "in": in}
			switch f := []string{"add", "copy", "of", "index", "remove", "remove", "remove", "reverse", "sort", "sort", "unique", "tomap", "flatten", "flatten"}[r.Intn(14)]; f {
			case "add":
				op["v"] = v()
				op["f"] = f
			case "index":
				op["t"] = "int"
				op["i"] = r.Intn(2*len(in)+4) - len(in) - 2
				op["default"] = []int{}
				if r.Intn(2) == 0 {
					op["default"] = []int{v()}
				}
				op["f"] = f
			case "remove":
				op["f"], op["v"], op["all"] = f, v(), r.Intn(2) == 0
				if len(in) > 0 && r.Intn(2) == 0 {
					op["v"] = in[r.Intn(len(in))]
				}
				if r.Intn(3) == 0 {
					op["t"] = "uncomparable"
				}
			case "sort":
				op["f"] = f
				op["by"] = []string{"ordered", "by", "cmp", "complex"}[r.Intn(4)]
				if op["by"] == "complex" {
					in := [][]int{}
					for l := r.Intn(2 + r.Intn(14)); l > 0; l-- {
						in = append(in, []int{v(), v()})
					}
					op["in"] = in
				}
			case "tomap":
				op["f"], op["by"] = f, []string{"ordered", "by"}[r.Intn(2)]
			case "flatten":
				op["f"], op["what"], op["t"] = f, "ok", []string{"int", "any", "named"}[r.Intn(3)]
				dims := 1 + r.Intn(4)
				if op["t"] == "named" && dims == 4 {
					dims = 3
				}
				var mkn func(d int) any
				mkn = func(d int) any {
					if d == 0 {
						return v()
					}
					l := []any{}
					for k := r.Intn(4); k > 0; k-- {
						l = append(l, mkn(d-1))
					}
					return l
				}
				op["dims"], op["in"] = dims, mkn(dims)
				if r.Intn(10) == 0 {
					op["what"], op["t"] = []string{"nil", "other", "type"}[r.Intn(3)], "int"
				}
			default:
				op["f"] = f
			}
			ops = append(ops, op)
		}
		return ops
	}
	kind := []string{"map", "map2", "mapslice", "map2slice", "ordered", "ordered"}[r.Intn(6)]
	ops := []h.Op{{"op": "open", "kind": kind, "nil": r.Intn(2) == 0}}
	keys := []int{2, 4, 15, 15, 200}[r.Intn(5)]
	key := func() []int {
		k := []int{r.Intn(keys) - 2}
		if kind == "map2" || kind == "map2slice" {
			k = append(k, r.Intn(keys)-2)
		}
		return k
	}
	for k := 2 + h.N(r, 25); k > 0; k-- {
		switch kind {
		case "map", "map2":
			switch r.Intn(7) {
			case 0, 1, 2:
				ops = append(ops, h.Op{"op": "set", "p": key(), "v": v()})
			case 3:
				ops = append(ops, h.Op{"op": "unset", "p": key()})
			case 4:
				ops = append(ops, h.Op{"op": "test", "p": key()})
			default:
				if kind != "map" {
					break
				}
				switch r.Intn(3) {
				case 0:
					d := []int{}
					if r.Intn(2) == 0 {
						d = append(d, v())
					}
					ops = append(ops, h.Op{"op": "index", "p": key(), "default": d})
				case 1:
					ops = append(ops, h.Op{"op": "keys"})
				default:
					ops = append(ops, h.Op{"op": "sorted", "by": []string{"ordered", "by", "cmp", "string", "size"}[r.Intn(5)]})
				}
			}
		default:
			switch n := r.Intn(8); {
			case n < 4:
				ops = append(ops, h.Op{"op": "add", "p": key(), "v": v()})
			case n < 6:
				ops = append(ops, h.Op{"op": "remove", "p": key(), "v": v(), "all": r.Intn(2) == 0})
			case kind == "ordered" && n == 6:
				ops = append(ops, h.Op{"op": "unset", "p": key()})
			case kind == "ordered":
				ops = append(ops, h.Op{"op": "search", "k": key()[0]})
			}
		}
	}
	return ops
}

func main() { h.Main(&h.Prop{Name: "c22collect", Gen: gen, Exec: exec}) }
