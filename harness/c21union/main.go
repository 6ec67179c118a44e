// Driver for unions, values that may be missing, and results.
package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/bantling/micro/union"
	ureflect "github.com/bantling/micro/union/reflect"
	"verif/harness/h"
)

// codec makes values of a type of numbers; 0 is the zero value
type codec[T any] struct {
	dec func(n int) T
	enc func(v T) int
}

const top = 6

var (
	cells  = make([]int, top+1)
	slices = make([][]int, top+1)
	maps   = make([]map[string]int, top+1)
	funcs  = make([]func() int, top+1)
	chans  = make([]chan int, top+1)
	errs   = make([]error, top+1)
)

type structure struct {
	A int
	B []int // not comparable
}

func init() {
	for i := 1; i <= top; i++ {
		i := i
		// the first is empty but not nil
		slices[i] = make([]int, i-1)
		maps[i] = map[string]int{}
		for k := 1; k < i; k++ {
			maps[i][fmt.Sprint(k)] = k
		}
		funcs[i] = func() int { return i }
		chans[i] = make(chan int, i)
		errs[i] = fmt.Errorf("e%d", i)
	}
}

var (
	ints = codec[int]{func(n int) int { return n }, func(v int) int { return v }}
	strs = codec[string]{
		func(n int) string {
			if n == 0 {
				return ""
			}
			return fmt.Sprint("s", n)
		},
		func(v string) int {
			if v == "" {
				return 0
			}
			n := -1
			fmt.Sscanf(v, "s%d", &n)
			return n
		},
	}
	ptrs = codec[*int]{
		func(n int) *int {
			if n == 0 {
				return nil
			}
			return &cells[n]
		},
		func(v *int) int {
			if v == nil {
				return 0
			}
			for i := range cells {
				if i > 0 && v == &cells[i] {
					return i
				}
			}
			return -1
		},
	}
	slcs = codec[[]int]{func(n int) []int { return slices[n] }, func(v []int) int {
		if v == nil {
			return 0
		}
		return len(v) + 1
	}}
	mps = codec[map[string]int]{func(n int) map[string]int { return maps[n] }, func(v map[string]int) int {
		if v == nil {
			return 0
		}
		return len(v) + 1
	}}
	fns = codec[func() int]{func(n int) func() int { return funcs[n] }, func(v func() int) int {
		if v == nil {
			return 0
		}
		return v()
	}}
	chs = codec[chan int]{func(n int) chan int { return chans[n] }, func(v chan int) int { return cap(v) }}
	// the first is not nil, but holds a zero
	anys = codec[any]{
		func(n int) any {
			switch n {
			case 0:
				return nil
			case 1:
				return 0
			case 2:
				return ""
			case 3:
				return &cells[3]
			}
			return n
		},
		func(v any) int {
			switch x := v.(type) {
			case nil:
				return 0
			case int:
				if x == 0 {
					return 1
				}
				return x
			case string:
				return 2
			case *int:
				return 3
			}
			return -1
		},
	}
	ers = codec[error]{func(n int) error { return errs[n] }, encErr}
	sts = codec[structure]{func(n int) structure { return structure{A: n} }, func(v structure) int { return v.A }}
)

func encErr(v error) int {
	if v == nil {
		return 0
	}
	for i, e := range errs {
		if e == v {
			return i
		}
	}
	return -1
}

var why = func(e any) h.Op {
	s := fmt.Sprint(e)
	if err, isa := e.(error); isa {
		s = err.Error()
	}
	if strings.Contains(s, "both") {
		s = "both"
	} else if strings.Contains(s, "nil error") {
		s = "nil"
	}
	return h.Op{"e": "panic", "why": s}
}

// each executes ops, a panic is a result
func each(ops []h.Op, f func(op h.Op)) {
	for _, op := range ops {
		op := op
		var caught any
		if h.Do(op, func() {
			defer func() {
				if caught = recover(); caught != nil {
					panic(caught)
				}
			}()
			f(op)
		}) {
			op["res"] = why(caught)
			delete(op, "note")
		}
	}
}

func at(op h.Op) int { return h.I(op["at"]) - 1 }

var ok = h.Op{"e": ""}

func val(n int) h.Op { return h.Op{"e": "", "v": n} }

func which(w union.Which) h.Op { return h.Op{"e": "", "w": int(w) + 1, "s": w.String()} }

func runTwo(ops []h.Op, n int) {
	reg := make([]union.Two[int, string], n)
	each(ops, func(op h.Op) {
		i := at(op)
		r := &reg[i]
		switch h.S(op["op"]) {
		case "copy":
			*r = reg[h.I(op["from"])-1]
			op["res"] = ok
		case "make":
			v := h.I(op["v"])
			switch fmt.Sprintf("%v%v", op["set"], op["w"]) {
			case "false1":
				*r = union.Of2T[int, string](ints.dec(v))
			case "false2":
				*r = union.Of2U[int, string](strs.dec(v))
			case "true1":
				r.SetT(ints.dec(v))
			case "true2":
				r.SetU(strs.dec(v))
			}
			op["res"] = ok
		case "which":
			op["res"] = which(r.Which())
		case "member":
			switch h.I(op["w"]) {
			case 1:
				op["res"] = val(ints.enc(r.T()))
			case 2:
				op["res"] = val(strs.enc(r.U()))
			}
		case "string":
			op["res"] = h.Op{"e": "", "s": r.String(), "empty": false}
		}
	})
}

func runThree(ops []h.Op, n int) {
	reg := make([]union.Three[int, string, *int], n)
	each(ops, func(op h.Op) {
		i := at(op)
		r := &reg[i]
		switch h.S(op["op"]) {
		case "copy":
			*r = reg[h.I(op["from"])-1]
			op["res"] = ok
		case "make":
			v := h.I(op["v"])
			switch fmt.Sprintf("%v%v", op["set"], op["w"]) {
			case "false1":
				*r = union.Of3T[int, string, *int](ints.dec(v))
			case "false2":
				*r = union.Of3U[int, string, *int](strs.dec(v))
			case "false3":
				*r = union.Of3V[int, string, *int](ptrs.dec(v))
			case "true1":
				r.SetT(ints.dec(v))
			case "true2":
				r.SetU(strs.dec(v))
			case "true3":
				r.SetV(ptrs.dec(v))
			}
			op["res"] = ok
		case "which":
			op["res"] = which(r.Which())
		case "member":
			switch h.I(op["w"]) {
			case 1:
				op["res"] = val(ints.enc(r.T()))
			case 2:
				op["res"] = val(strs.enc(r.U()))
			case 3:
				op["res"] = val(ptrs.enc(r.V()))
			}
		case "string":
			op["res"] = h.Op{"e": "", "s": r.String(), "empty": false}
		}
	})
}

func runFour(ops []h.Op, n int) {
	reg := make([]union.Four[int, string, *int, any], n)
	each(ops, func(op h.Op) {
		i := at(op)
		r := &reg[i]
		switch h.S(op["op"]) {
		case "copy":
			*r = reg[h.I(op["from"])-1]
			op["res"] = ok
		case "make":
			v := h.I(op["v"])
			switch fmt.Sprintf("%v%v", op["set"], op["w"]) {
			case "false1":
				*r = union.Of4T[int, string, *int, any](ints.dec(v))
			case "false2":
				*r = union.Of4U[int, string, *int, any](strs.dec(v))
			case "false3":
				*r = union.Of4V[int, string, *int, any](ptrs.dec(v))
			case "false4":
				*r = union.Of4W[int, string, *int, any](anys.dec(v))
			case "true1":
				r.SetT(ints.dec(v))
			case "true2":
				r.SetU(strs.dec(v))
			case "true3":
				r.SetV(ptrs.dec(v))
			case "true4":
				r.SetW(anys.dec(v))
			}
			op["res"] = ok
		case "which":
			op["res"] = which(r.Which())
		case "member":
			switch h.I(op["w"]) {
			case 1:
				op["res"] = val(ints.enc(r.T()))
			case 2:
				op["res"] = val(strs.enc(r.U()))
			case 3:
				op["res"] = val(ptrs.enc(r.V()))
			case 4:
				op["res"] = val(anys.enc(r.W()))
			}
		case "string":
			op["res"] = h.Op{"e": "", "s": r.String(), "empty": false}
		}
	})
}

// way gets the variable by a way
func way[T any](m *union.Maybe[T], v any) reflect.Value {
	p := h.M(v)
	ptrs, nilat := h.I(p["ptrs"]), h.I(p["nilat"])
	if ptrs == 0 {
		if h.B(p["addr"]) {
			return reflect.ValueOf(m).Elem()
		}
		return reflect.ValueOf(*m)
	}
	// levels are counted from the outside: the innermost pointer is level ptrs
	rv := reflect.ValueOf(m)
	if nilat == ptrs {
		rv = reflect.Zero(rv.Type())
	}
	for l := ptrs - 1; l >= 1; l-- {
		pv := reflect.New(rv.Type())
		pv.Elem().Set(rv)
		rv = pv
		if nilat == l {
			rv = reflect.Zero(rv.Type())
		}
	}
	return rv
}

func errRes(err error) h.Op {
	if err != nil {
		return h.Op{"e": "err"}
	}
	return ok
}

func runMaybe[T any](ops []h.Op, n int, c codec[T]) {
	reg := make([]union.Maybe[T], n)
	each(ops, func(op h.Op) {
		i := at(op)
		r := &reg[i]
		switch h.S(op["op"]) {
		case "copy":
			*r = reg[h.I(op["from"])-1]
			op["res"] = ok
		case "of":
			if v := c.dec(h.I(op["v"])); h.B(op["set"]) {
				r.Set(v)
			} else {
				*r = union.Of(v)
			}
			op["res"] = ok
		case "empty":
			if h.B(op["set"]) {
				r.SetEmpty()
			} else {
				*r = union.Empty[T]()
			}
			op["res"] = ok
		case "present":
			x := union.Present(c.dec(h.I(op["v"])))
			*r = x
			op["res"] = ok
		case "first":
			var vs []T
			for _, v := range h.Is(op["vs"]) {
				vs = append(vs, c.dec(v))
			}
			*r = union.First(vs)
			op["res"] = ok
		case "setorerror":
			op["res"] = ok
			if err := r.SetOrError(c.dec(h.I(op["v"]))); err != nil {
				op["res"] = h.Op{"e": "present"}
			}
		case "has":
			op["res"] = h.Op{"e": "", "b": r.Present(), "n": r.Empty()}
		case "get":
			op["res"] = val(c.enc(r.Get()))
		case "orelse":
			op["res"] = val(c.enc(r.OrElse(c.dec(h.I(op["v"])))))
		case "orerror":
			v, err := r.OrError(errs[h.I(op["err"])])
			op["res"] = h.Op{"e": "", "v": c.enc(v), "err": encErr(err)}
		case "string":
			s := r.String()
			op["res"] = h.Op{"e": "", "s": s, "empty": strings.HasPrefix(s, "Empty")}
		case "rpresent":
			op["res"] = h.Op{"e": "", "b": ureflect.MaybeValueIsPresent(way(r, op["way"]))}
		case "rget":
			rv := ureflect.GetMaybeValue(way(r, op["way"]))
			res := h.Op{"e": "", "valid": rv.IsValid(), "v": 0}
			if rv.IsValid() {
				x := rv.Interface().(T)
				res["v"] = c.enc(x)
			}
			op["res"] = res
		case "rtype":
			op["res"] = h.Op{"e": "", "b": ureflect.GetMaybeType(way(r, op["way"]).Type()) == reflect.TypeOf((*T)(nil)).Elem()}
		case "rset":
			var rv reflect.Value
			switch h.S(op["what"]) {
			case "ok":
				x := c.dec(h.I(op["v"]))
				rv = reflect.ValueOf(&x).Elem()
			case "wrong":
				rv = reflect.ValueOf(struct{ X uint8 }{3})
			}
			op["res"] = errRes(ureflect.SetMaybeValue(way(r, op["way"]), rv))
		case "rsetempty":
			op["res"] = errRes(ureflect.SetMaybeValueEmpty(way(r, op["way"])))
		case "rother":
			var rv reflect.Value
			typ := false
			switch x := 5; h.I(op["v"]) {
			case 0: // invalid
			case 1:
				rv = reflect.ValueOf(&x)
			case 2:
				rv = reflect.ValueOf(x)
			case 3:
				rv = reflect.ValueOf(&union.Result[int]{})
			case 4:
				rv = reflect.ValueOf(&[]union.Maybe[int]{union.Of(3)})
			default:
				var a any = union.Of(3)
				rv = reflect.ValueOf(&a)
			}
			if rv.IsValid() {
				typ = ureflect.GetMaybeType(rv.Type()) != nil
			}
			e := func(err error) string { return errRes(err)["e"].(string) }
			op["res"] = h.Op{"e": "", "typ": typ, "present": ureflect.MaybeValueIsPresent(rv), "valid": ureflect.GetMaybeValue(rv).IsValid(),
				"set": e(ureflect.SetMaybeValue(rv, reflect.ValueOf(3))), "empty": e(ureflect.SetMaybeValueEmpty(rv))}
		}
	})
}

func runResult[T any](ops []h.Op, n int, c codec[T]) {
	reg := make([]union.Result[T], n)
	each(ops, func(op h.Op) {
		i := at(op)
		r := &reg[i]
		switch h.S(op["op"]) {
		case "copy":
			*r = reg[h.I(op["from"])-1]
			op["res"] = ok
		case "ofresult":
			*r = union.OfResult(c.dec(h.I(op["v"])))
			op["res"] = ok
		case "oferror":
			x := union.OfError[T](errs[h.I(op["err"])])
			*r = x
			op["res"] = ok
		case "ofboth":
			x := union.OfResultError(c.dec(h.I(op["v"])), errs[h.I(op["err"])])
			*r = x
			op["res"] = ok
		case "result":
			op["res"] = h.Op{"e": "", "v": c.enc(r.Get()), "err": encErr(r.Error()), "has": r.HasResult(), "haserr": r.HasError()}
		case "string":
			op["res"] = h.Op{"e": "", "s": r.String(), "empty": false}
		}
	})
}

func exec(ops []h.Op) {
	kind, t, n := h.S(ops[0]["kind"]), h.S(ops[0]["t"]), h.I(ops[0]["n"])
	ops[0]["res"] = ok
	ops = ops[1:]
	switch kind {
	case "two":
		runTwo(ops, n)
	case "three":
		runThree(ops, n)
	case "four":
		runFour(ops, n)
	case "maybe", "result":
		switch t {
		case "int":
			run(kind, ops, n, ints)
		case "string":
			run(kind, ops, n, strs)
		case "ptr":
			run(kind, ops, n, ptrs)
		case "slice":
			run(kind, ops, n, slcs)
		case "map":
			run(kind, ops, n, mps)
		case "func":
			run(kind, ops, n, fns)
		case "chan":
			run(kind, ops, n, chs)
		case "any":
			run(kind, ops, n, anys)
		case "error":
			run(kind, ops, n, ers)
		case "struct":
			run(kind, ops, n, sts)
		default:
			h.Fail("type %s", t)
		}
	default:
		h.Fail("kind %s", kind)
	}
}

func run[T any](kind string, ops []h.Op, n int, c codec[T]) {
	if kind == "maybe" {
		runMaybe(ops, n, c)
	} else {
		runResult(ops, n, c)
	}
}

var types = []string{"int", "string", "ptr", "slice", "map", "func", "chan", "any", "error", "struct"}

func gen(r *rand.Rand, i int, tier string) []h.Op {
	kind := []string{"two", "three", "four", "maybe", "maybe", "maybe", "result"}[r.Intn(7)]
	t := types[r.Intn(len(types))]
	n := 1 + r.Intn(3)
	ops := []h.Op{{"op": "open", "kind": kind, "t": t, "n": n}}
	members := map[string]int{"two": 2, "three": 3, "four": 4}[kind]
	v := func() int {
		if r.Intn(4) == 0 {
			return 0
		}
		return 1 + r.Intn(top)
	}
	for k := 3 + h.N(r, 12); k > 0; k-- {
		reg := 1 + r.Intn(n)
		var op h.Op
		switch {
		case r.Intn(8) == 0:
			op = h.Op{"op": "copy", "from": 1 + r.Intn(n)}
		case r.Intn(10) == 0:
			op = h.Op{"op": "string"}
		case members > 0:
			switch r.Intn(4) {
			case 0:
				op = h.Op{"op": "make", "w": 1 + r.Intn(members), "v": v(), "set": r.Intn(3) > 0}
			case 1:
				op = h.Op{"op": "which"}
			default:
				op = h.Op{"op": "member", "w": 1 + r.Intn(members)}
			}
		case kind == "result":
			err := 0
			if r.Intn(3) > 0 {
				err = 1 + r.Intn(top)
			}
			switch r.Intn(6) {
			case 0:
				op = h.Op{"op": "ofresult", "v": v()}
			case 1:
				op = h.Op{"op": "oferror", "err": err}
			case 2, 3:
				op = h.Op{"op": "ofboth", "v": v() * r.Intn(2), "err": err}
			default:
				op = h.Op{"op": "result"}
			}
		default:
			ptrs := r.Intn(4)
			nilat := 0
			if ptrs > 0 && r.Intn(3) == 0 {
				nilat = 1 + r.Intn(ptrs)
			}
			p := h.Op{"ptrs": ptrs, "nilat": nilat, "addr": ptrs > 0 || r.Intn(2) == 0}
			what := "ok"
			if r.Intn(4) == 0 {
				what = []string{"wrong", "invalid"}[r.Intn(2)]
				if t == "any" {
					what = "invalid"
				}
			}
			switch r.Intn(16) {
			case 0, 1:
				op = h.Op{"op": "of", "v": v(), "set": r.Intn(3) > 0}
			case 2:
				op = h.Op{"op": "empty", "set": r.Intn(2) == 0}
			case 3:
				op = h.Op{"op": "present", "v": v()}
			case 4:
				vs := []int{}
				for x := r.Intn(3); x > 0; x-- {
					vs = append(vs, v())
				}
				op = h.Op{"op": "first", "vs": vs}
			case 5:
				op = h.Op{"op": "setorerror", "v": v()}
			case 6:
				op = h.Op{"op": "has"}
			case 7:
				op = h.Op{"op": "get"}
			case 8:
				op = h.Op{"op": "orelse", "v": v()}
			case 9:
				op = h.Op{"op": "orerror", "err": v()}
			case 10:
				op = h.Op{"op": "rpresent", "way": p}
			case 11:
				op = h.Op{"op": "rget", "way": p}
			case 12:
				op = h.Op{"op": "rtype", "way": p}
			case 13:
				op = h.Op{"op": "rset", "way": p, "what": what, "v": v()}
			case 14:
				op = h.Op{"op": "rsetempty", "way": p}
			default:
				op = h.Op{"op": "rother", "v": r.Intn(6)}
			}
		}
		op["at"] = reg
		ops = append(ops, op)
	}
	return ops
}

func main() { h.Main(&h.Prop{Name: "c21union", Gen: gen, Exec: exec}) }
