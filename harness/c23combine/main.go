// Driver for the helpers for functions and values.
package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/bantling/micro/funcs"
	"verif/harness/h"
)

type filter = func(int) bool

func mkFilter(v any, log *[]string) filter {
	f := h.As(v)
	n := func() int { return h.I(f[1]) }
	all := func() (l []filter) {
		for _, x := range h.As(f[1]) {
			l = append(l, mkFilter(x, log))
		}
		return
	}
	switch h.S(f[0]) {
	case "lt":
		return funcs.LessThan(n())
	case "le":
		return funcs.LessThanEqual(n())
	case "gt":
		return funcs.GreaterThan(n())
	case "ge":
		return funcs.GreaterThanEqual(n())
	case "eq":
		return funcs.Equal(n())
	case "in":
		return funcs.In(h.Is(f[1])...)
	case "neg":
		return funcs.IsNegative[int]()
	case "nonneg":
		return funcs.IsNonNegative[int]()
	case "pos":
		return funcs.IsPositive[int]()
	case "not":
		return funcs.Not(mkFilter(f[1], log))
	case "and":
		return funcs.And(all()...)
	case "or":
		return funcs.Or(all()...)
	case "probe":
		return func(int) bool {
			*log = append(*log, h.S(f[1]))
			return h.B(f[2])
		}
	}
	h.Fail("filter %v", f)
	return nil
}

type fn = func(int) int

func compose(l []fn) fn {
	switch len(l) {
	case 1:
		return funcs.Compose(l[0])
	case 2:
		return funcs.Compose2(l[0], l[1])
	case 3:
		return funcs.Compose3(l[0], l[1], l[2])
	case 4:
		return funcs.Compose4(l[0], l[1], l[2], l[3])
	case 5:
		return funcs.Compose5(l[0], l[1], l[2], l[3], l[4])
	case 6:
		return funcs.Compose6(l[0], l[1], l[2], l[3], l[4], l[5])
	case 7:
		return funcs.Compose7(l[0], l[1], l[2], l[3], l[4], l[5], l[6])
	case 8:
		return funcs.Compose8(l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7])
	case 9:
		return funcs.Compose9(l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8])
	case 10:
		return funcs.Compose10(l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9])
	}
	h.Fail("compose %d", len(l))
	return nil
}

type thePanic string

func tryTo(op h.Op) h.Op {
	var (
		log     = []string{}
		end     = ""
		closers []func()
		act     = func(name, how string) {
			switch how {
			case "panic":
				panic(thePanic(name))
			case "exit":
				runtime.Goexit()
			}
		}
		done = make(chan bool)
	)
	for i, how := range h.As(op["closers"]) {
		how, name := h.S(how), fmt.Sprint("c", i+1)
		c := func() {
			log = append(log, name)
			act(name, how)
		}
		if i%2 == 0 {
			closers = append(closers, c)
		} else {
			closers = append(closers, funcs.IgnoreResult(func() error { c(); return nil }))
		}
	}
	go func() {
		ended := false
		defer func() {
			if e := recover(); e != nil {
				end = fmt.Sprint(e)
			} else if !ended {
				end = "exit"
			}
			close(done)
		}()
		funcs.TryTo(
			func() {
				log = append(log, "try")
				act("try", h.S(op["try"]))
			},
			func(e any) {
				log = append(log, fmt.Sprint("handle ", e))
				if op["handler"] == "panic" {
					panic(thePanic("handler"))
				}
			},
			closers...,
		)
		ended = true
	}()
	<-done
	return h.Op{"e": end, "log": log}
}

// value makes a value of any type
func value(v any) any {
	l := h.As(v)
	switch h.S(l[0]) {
	case "nil":
		return nil
	case "int":
		return h.I(l[1])
	case "string":
		return fmt.Sprint("s", h.I(l[1]))
	case "list":
		r := []any{}
		for _, x := range h.As(l[1]) {
			r = append(r, value(x))
		}
		return r
	case "map":
		r := map[int]any{}
		for _, x := range h.As(l[1]) {
			r[h.I(h.As(x)[0])] = value(h.As(x)[1])
		}
		return r
	}
	h.Fail("value %v", v)
	return nil
}

func number(v any) int {
	switch x := v.(type) {
	case int:
		return x
	case string:
		n := 0
		fmt.Sscanf(x, "s%d", &n)
		return n
	}
	h.Fail("number %T", v)
	return 0
}

func convert[T any](op h.Op) h.Op {
	v := value(op["v"])
	must := h.B(op["must"])
	switch h.S(op["op"]) {
	case "assert":
		if must {
			return h.Op{"e": "", "v": number(funcs.MustAssertType[T]("m", v))}
		}
		x, err := funcs.AssertType[T]("m", v)
		return h.Op{"e": errText(err), "v": number(x)}
	case "toslice":
		var (
			l   []T
			err error
		)
		if must {
			l = funcs.MustConvertToSlice[T]("m", v)
		} else {
			l, err = funcs.ConvertToSlice[T]("m", v)
		}
		return h.Op{"e": errText(err), "out": nums(l)}
	case "toslice2":
		var (
			l   [][]T
			err error
		)
		if must {
			l = funcs.MustConvertToSlice2[T]("m", v)
		} else {
			l, err = funcs.ConvertToSlice2[T]("m", v)
		}
		out := [][]int{}
		for _, x := range l {
			out = append(out, nums(x))
		}
		return h.Op{"e": errText(err), "out": out}
	default:
		var (
			m   map[int]T
			err error
		)
		if must {
			m = funcs.MustConvertToMap[int, T]("m", v)
		} else {
			m, err = funcs.ConvertToMap[int, T]("m", v)
		}
		out := [][]int{}
		for k, x := range m {
			out = append(out, []int{k, number(x)})
		}
		sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
		return h.Op{"e": errText(err), "out": out}
	}
}

func nums[T any](l []T) []int {
	r := []int{}
	for _, x := range l {
		r = append(r, number(x))
	}
	return r
}

func errText(err error) string {
	if err != nil {
		return "err"
	}
	return ""
}

var (
	cell = [10]int{}
	errs = []error{nil, fmt.Errorf("e1"), fmt.Errorf("e2"), fmt.Errorf("e3")}
)

type structure struct {
	A int
	B []int
}

func nils[T any](f string, v T) h.Op {
	same := func(x T) bool {
		a, b := reflect.ValueOf(x), reflect.ValueOf(v)
		switch a.Kind() {
		case reflect.Func, reflect.Slice, reflect.Map, reflect.Chan, reflect.Pointer:
			return a.Pointer() == b.Pointer()
		}
		return reflect.DeepEqual(x, v)
	}
	typ := reflect.TypeOf((*T)(nil)).Elem()
	switch f {
	case "nillable":
		p := true
		func() {
			defer func() { p = recover() == nil }()
			funcs.MustBeNillable(typ)
		}()
		if b := funcs.Nillable(typ); b != p {
			return h.Op{"e": "differ", "b": b}
		}
		return h.Op{"e": "", "b": funcs.Nillable(typ)}
	case "isnil":
		return h.Op{"e": "", "b": funcs.IsNil[T]()(v)}
	case "isnonnil":
		return h.Op{"e": "", "b": funcs.IsNonNil[T]()(v)}
	case "isnilvalue":
		return h.Op{"e": "", "b": funcs.IsNilValue(v)}
	case "mustnonnil":
		return h.Op{"e": "", "b": same(funcs.MustNonNilValue(v))}
	case "mustnonzero":
		return h.Op{"e": "", "b": same(funcs.MustNonZero(v))}
	}
	h.Fail("f %s", f)
	return nil
}

func nilCall(op h.Op) h.Op {
	f, v := h.S(op["f"]), h.I(op["v"])
	switch h.S(op["t"]) {
	case "int":
		return nils(f, v)
	case "string":
		if v == 0 {
			return nils(f, "")
		}
		return nils(f, "x")
	case "struct":
		return nils(f, structure{A: v})
	case "ptr":
		if v == 0 {
			return nils[*int](f, nil)
		}
		return nils(f, &cell[v])
	case "slice":
		var s []int
		if v > 0 {
			s = make([]int, v-1)
		}
		if f == "mustnonempty" {
			return h.Op{"e": "", "b": len(funcs.MustNonEmptySlice(s)) == len(s)}
		}
		return nils(f, s)
	case "map":
		if v == 0 {
			return nils[map[int]int](f, nil)
		}
		return nils(f, map[int]int{})
	case "func":
		if v == 0 {
			return nils[func()](f, nil)
		}
		return nils(f, func() {})
	case "chan":
		if v == 0 {
			return nils[chan int](f, nil)
		}
		return nils(f, make(chan int))
	case "any":
		if v == 0 {
			return nils[any](f, nil)
		}
		return nils[any](f, 0)
	case "error":
		return nils(f, errs[v%len(errs)])
	}
	h.Fail("t %v", op["t"])
	return nil
}

func chars(v any) string {
	r := []rune{}
	for _, c := range h.Is(v) {
		r = append(r, rune(c))
	}
	return string(r)
}

func ofChars(s string) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

// supply calls a supplier of a type from several threads
func supply[T any](op h.Op, of func(int) T, num func(T) int) h.Op {
	var (
		calls, threads = h.I(op["calls"]), h.I(op["threads"])
		first          = h.I(op["v"])
		mu             sync.Mutex
		used           = 0
		s              = funcs.SupplierCached(func() T {
			mu.Lock()
			defer mu.Unlock()
			used++
			return of(first + used - 1)
		})
		out = make([][]int, threads)
		wg  sync.WaitGroup
	)
	if h.B(op["of"]) {
		s = funcs.SupplierOf(of(first))
		if calls > 0 {
			used = 1
		}
	}
	start := make(chan bool)
	for t := 0; t < threads; t++ {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < calls; k++ {
				out[t] = append(out[t], num(s()))
			}
		}()
	}
	close(start)
	wg.Wait()
	all := []int{}
	for _, o := range out {
		all = append(all, o...)
	}
	return h.Op{"e": "", "used": used, "out": all}
}

func exec(ops []h.Op) {
	for _, op := range ops {
		op := op
		var caught any
		if h.Do(op, func() {
			defer func() {
				if caught = recover(); caught != nil {
					panic(caught)
				}
			}()
			switch h.S(op["op"]) {
			case "filter":
				var log []string
				f := mkFilter(op["filter"], &log)
				out := []h.Op{}
				for _, x := range h.Is(op["xs"]) {
					log = []string{}
					b := f(x)
					out = append(out, h.Op{"b": b, "log": log})
				}
				op["res"] = h.Op{"e": "", "out": out}
			case "compose":
				var (
					log = []int{}
					l   []fn
				)
				for i, x := range h.As(op["fs"]) {
					i, p := i, h.Is(x)
					l = append(l, func(x int) int {
						log = append(log, i+1)
						return p[0]*x + p[1]
					})
				}
				var f fn
				if h.B(op["many"]) {
					f = funcs.Compose(l[0], l[1:]...)
				} else {
					f = compose(l)
				}
				v := f(h.I(op["x"]))
				first := log
				log = []int{}
				if v2 := f(h.I(op["x"])); v2 != v || !reflect.DeepEqual(first, log) {
					op["res"] = h.Op{"e": "differ", "v": v2, "log": log}
				} else {
					op["res"] = h.Op{"e": "", "v": v, "log": log}
				}
			case "ternary":
				b, t, f := h.B(op["b"]), h.I(op["t"]), h.I(op["f"])
				log := []int{}
				if !h.B(op["call"]) {
					op["res"] = h.Op{"e": "", "v": funcs.Ternary(b, t, f), "log": log}
					break
				}
				mk := func(n int) func() int {
					if n == 0 {
						return nil
					}
					return func() int {
						log = append(log, n)
						return n
					}
				}
				v := funcs.TernaryResult(b, mk(t), mk(f))
				op["res"] = h.Op{"e": "", "v": v, "log": log}
			case "supplier":
				switch h.S(op["t"]) {
				case "int":
					op["res"] = supply(op, func(i int) int { return i }, func(i int) int { return i })
				case "string":
					op["res"] = supply(op, func(i int) string { return strings.Repeat("x", i) }, func(s string) int { return len(s) })
				case "ptr":
					op["res"] = supply(op, func(i int) *int {
						if i == 0 {
							return nil
						}
						return &i
					}, func(p *int) int {
						if p == nil {
							return 0
						}
						return *p
					})
				default:
					op["res"] = supply(op, func(i int) any {
						if i == 0 {
							return nil
						}
						return i
					}, func(a any) int {
						if a == nil {
							return 0
						}
						return a.(int)
					})
				}
			case "try":
				op["res"] = tryTo(op)
			case "assert", "toslice", "toslice2", "tomap":
				if op["t"] == "int" {
					op["res"] = convert[int](op)
				} else {
					op["res"] = convert[string](op)
				}
			case "nil":
				op["res"] = nilCall(op)
			case "must":
				n, err := h.I(op["n"]), errs[h.I(op["err"])]
				out := []int{1, 2, 3}[:n]
				switch n {
				case 0:
					funcs.Must(err)
				case 1:
					out[0] = funcs.MustValue(1, err)
				case 2:
					out[0], out[1] = funcs.MustValue2(1, 2, err)
				case 3:
					out[0], out[1], out[2] = funcs.MustValue3(1, 2, 3, err)
				}
				op["res"] = h.Op{"e": "", "out": out}
			case "pick":
				v := 0
				switch fmt.Sprintf("%v%v", op["i"], op["n"]) {
				case "12":
					v = funcs.FirstValue2(1, 2)
				case "13":
					v = funcs.FirstValue3(1, 2, 3)
				case "22":
					v = funcs.SecondValue2(1, 2)
				case "23":
					v = funcs.SecondValue3(1, 2, 3)
				case "33":
					v = funcs.ThirdValue3(1, 2, 3)
				}
				op["res"] = h.Op{"e": "", "v": v}
			case "camel":
				op["res"] = h.Op{"e": "", "s": ofChars(funcs.SnakeToCamelCase(chars(op["s"])))}
			case "snake":
				op["res"] = h.Op{"e": "", "s": ofChars(funcs.CamelCaseToSnakeCase(chars(op["s"])))}
			default:
				h.Fail("op %v", op["op"])
			}
		}) {
			switch h.S(op["op"]) {
			case "must":
				n := -1
				for i, e := range errs {
					if i > 0 && caught == any(e) {
						n = i
					}
				}
				op["res"] = h.Op{"e": "panic", "out": []int{n}}
			case "assert", "pick":
				op["res"] = h.Op{"e": "panic", "v": 0}
			case "nil":
				op["res"] = h.Op{"e": "panic", "b": false}
			case "camel", "snake":
				op["res"] = h.Op{"e": "panic", "s": []int{}}
			case "ternary", "compose":
				op["res"] = h.Op{"e": "panic", "v": 0, "log": []int{}}
			default:
				op["res"] = h.Op{"e": "panic", "out": []int{}, "used": -1, "log": []string{}}
			}
		}
	}
}

func gen(r *rand.Rand, i int, tier string) []h.Op {
	num := func() int { return r.Intn(9) - 4 }
	probes := 0
	var mkf func(d int) []any
	mkf = func(d int) []any {
		k := r.Intn(14)
		if d == 0 && k >= 10 {
			k = r.Intn(10)
		}
		switch {
		case k < 5:
			return []any{[]string{"lt", "le", "gt", "ge", "eq"}[k], num()}
		case k == 5:
			vs := []int{}
			for n := h.N(r, 4); n > 0; n-- {
				vs = append(vs, num())
			}
			return []any{"in", vs}
		case k == 6:
			return []any{[]string{"neg", "nonneg", "pos"}[r.Intn(3)]}
		case k < 10:
			probes++
			return []any{"probe", fmt.Sprint("p", probes), r.Intn(2) == 0}
		case k == 10:
			return []any{"not", mkf(d - 1)}
		}
		fs := []any{}
		for n := r.Intn(5); n > 0; n-- {
			fs = append(fs, mkf(d-1))
		}
		return []any{[]string{"and", "or"}[k%2], fs}
	}
	var mkv func(d int) []any
	mkv = func(d int) []any {
		k := r.Intn(12)
		if d == 0 && k >= 8 {
			k = r.Intn(8)
		}
		switch {
		case k == 0:
			return []any{"nil"}
		case k < 5:
			return []any{"int", num()}
		case k < 8:
			return []any{"string", num()}
		case k < 10:
			l := []any{}
			for n := r.Intn(4); n > 0; n-- {
				l = append(l, mkv(d-1))
			}
			return []any{"list", l}
		}
		l := []any{}
		for n := 0; n < r.Intn(4); n++ {
			l = append(l, []any{n, mkv(d - 1)})
		}
		return []any{"map", l}
	}
	t := []string{"int", "string"}[r.Intn(2)]
	leafv := func() []any {
		if r.Intn(9) == 0 {
			return mkv(1)
		}
		return []any{t, num()}
	}
	list := func(f func() []any) []any {
		l := []any{}
		for n := h.N(r, 4); n > 0; n-- {
			l = append(l, f())
		}
		return []any{"list", l}
	}
	switch n := r.Intn(12); {
	case n < 3:
		xs := []int{}
		for k := 1 + r.Intn(4); k > 0; k-- {
			xs = append(xs, num())
		}
		return []h.Op{{"op": "filter", "filter": mkf(3), "xs": xs}}
	case n < 5:
		fs := [][]int{}
		for k := 1 + r.Intn(10); k > 0; k-- {
			fs = append(fs, []int{1 + r.Intn(3), num()})
		}
		return []h.Op{{"op": "compose", "fs": fs, "x": num(), "many": r.Intn(2) == 0}}
	case n == 5:
		return []h.Op{{"op": "supplier", "calls": r.Intn(5), "threads": 1 + r.Intn(6)*r.Intn(2), "of": r.Intn(6) == 0, "v": r.Intn(3), "t": []string{"int", "string", "ptr", "any"}[r.Intn(4)]}}
	case n < 8:
		hows := []string{"", "", "panic"}
		cs := []any{}
		for k := h.N(r, 6); k > 0; k-- {
			cs = append(cs, hows[r.Intn(3)])
		}
		return []h.Op{{"op": "try", "try": []string{"", "panic", "panic", "exit"}[r.Intn(4)], "closers": cs, "handler": hows[r.Intn(3)]}}
	case n == 8:
		s := []int{}
		for k := h.N(r, 12); k > 0; k-- {
			s = append(s, []int{95, 97, 98, 122, 65, 90, 48, 57, 233, 99}[r.Intn(10)])
		}
		return []h.Op{{"op": "camel", "s": s}}
	case n == 9:
		s := []int{}
		for k := h.N(r, 12); k > 0; k-- {
			if len(s) == 0 {
				s = append(s, []int{97, 98, 122, 65, 90, 48, 95, 233}[r.Intn(8)])
			} else {
				s = append(s, []int{97, 98, 122, 65, 66, 90, 48, 57, 95, 233}[r.Intn(10)])
			}
		}
		return []h.Op{{"op": "snake", "s": s}}
	}
	op := h.Op{"t": t, "must": r.Intn(3) == 0}
	switch r.Intn(5) {
	case 0:
		op["op"], op["v"] = "assert", mkv(1)
	case 1:
		op["op"], op["v"] = "toslice", list(leafv)
	case 2:
		op["op"], op["v"] = "toslice2", list(func() []any { return list(leafv) })
	case 3:
		l := []any{}
		for n := 0; n < r.Intn(5); n++ {
			l = append(l, []any{n, leafv()})
		}
		op["op"], op["v"] = "tomap", []any{"map", l}
	default:
		op["op"], op["v"] = []string{"toslice", "toslice2", "tomap"}[r.Intn(3)], mkv(3)
	}
	return []h.Op{op}
}

func main() { h.Main(&h.Prop{Name: "c23combine", Gen: gen, Exec: exec}) }
