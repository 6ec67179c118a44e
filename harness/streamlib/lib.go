// Package streamlib is the driver for streams: compositions of transforms, applied to scripted sources.
package streamlib

import (
	"errors"
	"math"
	"math/rand"
	"sort"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"
	"verif/harness/h"
)

// Pair is a pair of ints
type Pair = tuple.Two[int, int]
type pair = Pair

var errs = map[string]error{"EOI": iter.EOI, "e1": errors.New("e1"), "e2": errors.New("e2"), "bad": errors.New("bad")}

// Err returns the error of a name, and ErrName the other way around
func Err(name string) error { return errs[name] }

// ErrName returns the name of an error
func ErrName(e error) string { return errName(e) }

// Encode encodes a value
func Encode(v any) []int { return encode(v) }

func errName(e error) string {
	if e == nil {
		return ""
	}
	for n, x := range errs {
		if e == x {
			return n
		}
	}
	return "?" + e.Error()
}

func mod(x, m int) int { return ((x % m) + m) % m }

func encode(v any) []int {
	switch t := v.(type) {
	case int:
		return []int{t}
	case bool:
		if t {
			return []int{1}
		}
		return []int{0}
	case []int:
		return append([]int{}, t...)
	case pair:
		return []int{t.T, t.U}
	case map[int]int:
		ks := []int{}
		for k := range t {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		r := []int{}
		for _, k := range ks {
			r = append(r, k, t[k])
		}
		return r
	}
	h.Fail("encode %T", v)
	return nil
}

// next calls Next on an iterator of any of the types
func next(it any) (any, error) {
	switch t := it.(type) {
	case iter.Iter[int]:
		return t.Next()
	case iter.Iter[bool]:
		return t.Next()
	case iter.Iter[[]int]:
		return t.Next()
	case iter.Iter[pair]:
		return t.Next()
	case iter.Iter[map[int]int]:
		return t.Next()
	}
	h.Fail("next %T", it)
	return nil, nil
}

func of[T, U any](f func(iter.Iter[T]) iter.Iter[U]) func(any) any {
	return func(it any) any { return f(it.(iter.Iter[T])) }
}

type run struct {
	mute bool
	log  []int
	fns  []func(any) any
	its  []any
	srcs []*source
	slc  []int
}

type source struct {
	script []h.Op
	calls  int
}

func (s *source) fn() (int, error) {
	h.Yield()
	s.calls++
	if s.calls <= len(s.script) {
		x := s.script[s.calls-1]
		if n := h.S(x["e"]); n != "" {
			return 0, errs[n]
		}
		return h.I(x["v"]), nil
	}
	return 0, iter.EOI
}

func (r *run) called(i int, v any) {
	h.Yield()
	if r.mute {
		return
	}
	r.log = append(r.log, i)
	r.log = append(r.log, encode(v)...)
}

// stage makes the i-th transform
func (r *run) stage(i int, k string, p []int) func(any) any {
	hit := func(x int) bool { r.called(i, x); return mod(x, p[0]) == p[1] }
	switch k {
	case "map":
		return of(stream.Map(func(x int) int { r.called(i, x); return p[0]*x + p[1] }))
	case "maperr":
		return of(stream.MapError(func(x int) (int, error) {
			r.called(i, x)
			if x == p[0] {
				return 99, errs["bad"]
			}
			return x + p[1], nil
		}))
	case "maperrs":
		return of(stream.MapError(func(x int) (int, error) {
			if hit(x) {
				return 98, errs[[]string{"bad", "e1", "e2"}[mod(x, 3)]]
			}
			return x, nil
		}))
	case "mapslice":
		return of(stream.Map(func(x int) []int {
			r.called(i, x)
			var s []int
			if mod(x, 2) == 0 {
				s = []int{}
			}
			for j := 1; j <= mod(x, p[0]); j++ {
				s = append(s, x+j)
			}
			return s
		}))
	case "mappair":
		return of(stream.Map(func(x int) pair { r.called(i, x); return tuple.Of2(mod(x, p[0]), x) }))
	case "onemap":
		return of(stream.Map(func(x pair) map[int]int {
			r.called(i, x)
			if x.T == 0 {
				if mod(x.U, 4) == 0 {
					return nil
				}
				return map[int]int{}
			}
			return map[int]int{x.T: x.U}
		}))
	case "unpair":
		return of(stream.Map(func(x pair) int { r.called(i, x); return 10*x.T + x.U }))
	case "maplen":
		return of(stream.Map(func(x []int) int { r.called(i, x); return len(x) }))
	case "maplenmap":
		return of(stream.Map(func(x map[int]int) int { r.called(i, x); return len(x) }))
	case "mapbool":
		return of(stream.Map(func(x bool) int {
			r.called(i, x)
			if x {
				return 1
			}
			return 0
		}))
	case "abs":
		return of(stream.Abs[int])
	case "filter":
		return of(stream.Filter(hit))
	case "all":
		return of(stream.AllMatch(hit))
	case "any":
		return of(stream.AnyMatch(hit))
	case "none":
		return of(stream.NoneMatch(hit))
	case "tobool":
		return of(stream.ReduceToBool(hit, p[2] == 1, p[3] == 1))
	case "reduce":
		return of(stream.Reduce(func(a, b int) int { r.called(i, b); return mod(2*a-b, 10007) }, p...))
	case "reduceto":
		f := func(a int64, b int) int64 { r.called(i, b); return int64(mod(int(a)*2+b, 10007)) }
		var g func(iter.Iter[int]) iter.Iter[int64]
		if len(p) > 0 {
			g = stream.ReduceTo(f, int64(p[0]))
		} else {
			g = stream.ReduceTo(f)
		}
		back := stream.Map(func(x int64) int { return int(x) })
		return of(func(it iter.Iter[int]) iter.Iter[int] { return back(g(it)) })
	case "foldslice":
		f := func(a []int, b int) []int { r.called(i, b); return append(append([]int{}, a...), b) }
		if len(p) > 0 {
			return of(stream.ReduceTo(f, p))
		}
		return of(stream.ReduceTo(f))
	case "toslice":
		return of(stream.ReduceToSlice[int])
	case "intoslice":
		r.slc = make([]int, p[0])
		return of(stream.ReduceIntoSlice(r.slc))
	case "expand":
		return of(stream.ExpandSlices[int])
	case "tomap":
		return of(stream.ReduceToMap[int, int])
	case "expandmap":
		return of(stream.ExpandMaps[int, int])
	case "skip":
		return of(stream.Skip[int](count(p[0])))
	case "limit":
		return of(stream.Limit[int](count(p[0])))
	case "peek":
		return of(stream.Peek(func(x int) { r.called(i, x) }))
	case "gen":
		return of(stream.Generator(func() func(iter.Iter[int]) iter.Iter[int] {
			n := 0
			return stream.Map(func(x int) int { r.called(i, x); n++; return x + 100*n })
		}))
	case "distinct":
		return of(stream.Distinct[int])
	case "duplicate":
		return of(stream.Duplicate[int])
	case "reverse":
		return of(stream.Reverse[int])
	case "sort":
		return of(stream.SortOrdered[int])
	case "sortby":
		return of(stream.SortBy(func(a, b int) bool { return a > b }))
	case "min":
		return of(stream.Min[int])
	case "max":
		return of(stream.Max[int])
	case "sum":
		return of(stream.Sum[int])
	case "count":
		return of(stream.Count[int])
	}
	h.Fail("stage %s", k)
	return nil
}

// Compose makes the transforms of the stages, without a log of the calls, and the name of the type of their results
func Compose(stages []any) (fns []func(any) any, out string) {
	r := &run{mute: true}
	out = "int"
	for i, s := range stages {
		m := h.M(s)
		k := h.S(m["k"])
		fns = append(fns, r.stage(i+1, k, h.Is(m["p"])))
		for _, x := range kinds {
			if x.k == k {
				out = x.out
			}
		}
	}
	return
}

// Exec executes a case
func Exec(ops []h.Op) {
	r := &run{}
	for _, op := range ops {
		op := op
		r.log = []int{}
		calls := func() int { return 0 }
		ok := !h.Do(op, func() {
			switch h.S(op["op"]) {
			case "compose":
				for i, s := range h.As(op["stages"]) {
					m := h.M(s)
					r.fns = append(r.fns, r.stage(i+1, h.S(m["k"]), h.Is(m["p"])))
				}
				op["res"] = h.Op{"v": []int{}, "e": ""}
			case "apply":
				s := &source{}
				for _, x := range h.As(op["src"]) {
					s.script = append(s.script, h.M(x))
				}
				calls = func() int { return s.calls }
				r.srcs = append(r.srcs, s)
				r.its = append(r.its, nil)
				var it any = iter.OfIter(s.fn)
				for _, f := range r.fns {
					it = f(it)
				}
				r.its[len(r.its)-1] = it
				op["res"] = h.Op{"v": []int{}, "e": ""}
			case "next":
				i := h.I(op["i"]) - 1
				calls = func() int { return r.srcs[i].calls }
				v, err := next(r.its[i])
				if err == nil {
					op["res"] = h.Op{"v": encode(v), "e": ""}
				} else {
					op["res"] = h.Op{"v": []int{}, "e": errName(err)}
				}
			case "contents":
				op["res"] = h.Op{"v": encode(r.slc), "e": ""}
			default:
				h.Fail("op %v", op["op"])
			}
		})
		if !ok {
			op["res"] = h.Op{"v": []int{}, "e": "panic"}
		}
		op["eff"] = h.Op{"c": calls(), "cb": append([]int{}, r.log...)}
		if !ok && op["op"] == "apply" {
			// there is no iterator to go on with: drop the rest of the case by repeating the failure
			for _, o := range ops {
				if o["res"] == nil {
					o["res"], o["eff"] = h.Op{"v": []int{}, "e": "panic"}, h.Op{"c": 0, "cb": []int{}}
				}
			}
			return
		}
	}
}

type kind struct {
	k, in, out string
	p          func(r *rand.Rand) []int
}

func none(*rand.Rand) []int { return []int{} }
func maybe(r *rand.Rand) []int {
	if r.Intn(2) == 0 {
		return []int{}
	}
	return []int{r.Intn(9) - 4}
}
func small(r *rand.Rand) []int {
	if r.Intn(12) == 0 {
		return []int{huge}
	}
	return []int{r.Intn(6)}
}

// huge stands for the largest count there is
const huge = 2000000000

func count(n int) uint {
	if n == huge {
		return math.MaxUint
	}
	return uint(n)
}

func modulus(r *rand.Rand) []int {
	m := 1 + r.Intn(4)
	return []int{m, r.Intn(m)}
}

var kinds = []kind{
	{"map", "int", "int", func(r *rand.Rand) []int { return []int{r.Intn(3) - 1, r.Intn(5) - 2} }},
	{"maperr", "int", "int", func(r *rand.Rand) []int { return []int{r.Intn(12), r.Intn(4)} }},
	{"maperrs", "int", "int", func(r *rand.Rand) []int { m := 2 + r.Intn(8); return []int{m, r.Intn(m)} }},
	{"filter", "int", "int", modulus},
	{"filter", "int", "int", modulus},
	{"reduce", "int", "int", maybe},
	{"reduceto", "int", "int", maybe},
	{"skip", "int", "int", small},
	{"skip", "int", "int", small},
	{"limit", "int", "int", small},
	{"limit", "int", "int", small},
	{"peek", "int", "int", none},
	{"distinct", "int", "int", none},
	{"duplicate", "int", "int", none},
	{"gen", "int", "int", none},
	{"reverse", "int", "int", none},
	{"sort", "int", "int", none},
	{"sortby", "int", "int", none},
	{"min", "int", "int", none},
	{"max", "int", "int", none},
	{"sum", "int", "int", none},
	{"count", "int", "int", none},
	{"abs", "int", "int", none},
	{"all", "int", "bool", modulus},
	{"any", "int", "bool", modulus},
	{"none", "int", "bool", modulus},
	{"tobool", "int", "bool", func(r *rand.Rand) []int { return append(modulus(r), r.Intn(2), r.Intn(2)) }},
	{"toslice", "int", "slice", none},
	{"foldslice", "int", "slice", maybe},
	{"mapslice", "int", "slice", func(r *rand.Rand) []int { return []int{1 + r.Intn(4)} }},
	{"mapslice", "int", "slice", func(r *rand.Rand) []int { return []int{1 + r.Intn(4)} }},
	{"expand", "slice", "int", none},
	{"expand", "slice", "int", none},
	{"maplen", "slice", "int", none},
	{"mapbool", "bool", "int", none},
	{"mappair", "int", "pair", func(r *rand.Rand) []int { return []int{1 + r.Intn(4)} }},
	{"tomap", "pair", "map", none},
	{"onemap", "pair", "map", none},
	{"unpair", "pair", "int", none},
	{"expandmap", "map", "pair", none},
	{"maplenmap", "map", "int", none},
}

// GenStages generates a composition of up to ns stages, and the type of its results
func GenStages(r *rand.Rand, ns int) ([]h.Op, string) {
	stages := []h.Op{}
	typ, many := "int", false // many: a map of several entries is being expanded, which has to come last
	for len(stages) < ns && !many {
		k := kinds[r.Intn(len(kinds))]
		if k.in != typ {
			continue
		}
		if k.k == "expandmap" && stages[len(stages)-1]["k"] == "tomap" {
			many = true
		}
		stages = append(stages, h.Op{"k": k.k, "p": k.p(r)})
		typ = k.out
	}
	return stages, typ
}

// genLong generates a case of one stage that reads several hundred elements, most of them different,
// the first of which come again at the end
func genLong(r *rand.Rand) []h.Op {
	stages, _ := GenStages(r, 1)
	if r.Intn(3) == 0 {
		stages = []h.Op{{"k": "distinct", "p": []int{}}}
	}
	src, d := []h.Op{}, 200+r.Intn(150)
	for j := 0; j < d; j++ {
		src = append(src, h.Op{"v": (j*7)%d - 2, "e": ""})
	}
	for j := r.Intn(60); j >= 0; j-- {
		src = append(src, h.Op{"v": r.Intn(d) - 2, "e": ""})
	}
	ops := []h.Op{{"op": "compose", "stages": stages}, {"op": "apply", "src": src}}
	for j := len(src) + 2; j > 0; j-- {
		ops = append(ops, h.Op{"op": "next", "i": 1})
	}
	return ops
}

// Gen generates a case
func Gen(r *rand.Rand, i int, tier string) (ops []h.Op) {
	if r.Intn(300) == 0 {
		return genLong(r)
	}
	ns := 1 + r.Intn(4)
	if r.Intn(12) == 0 {
		ns = 0
	}
	stages, typ := GenStages(r, ns)
	into := typ == "int" && r.Intn(12) == 0
	if into {
		stages = append(stages, h.Op{"k": "intoslice", "p": []int{r.Intn(9)}})
	}
	ops = append(ops, h.Op{"op": "compose", "stages": stages})
	n, more := 1+r.Intn(3), 0
	script := func() []h.Op {
		s := []h.Op{}
		num, vals := h.N(r, 13), 11
		if num > 120 {
			num = 120
		}
		if num > 13 {
			vals, more = 11+r.Intn(2)*200, more+num
		}
		for j := num; j > 0; j-- {
			s = append(s, h.Op{"v": r.Intn(vals) - 2, "e": ""})
		}
		switch r.Intn(6) {
		case 0:
			s = append(s, h.Op{"v": 0, "e": "e1"}, h.Op{"v": 5, "e": ""})
		case 1:
			s = append(s, h.Op{"v": 0, "e": "EOI"}, h.Op{"v": 5, "e": ""})
		}
		return s
	}
	for j := 0; j < n; j++ {
		ops = append(ops, h.Op{"op": "apply", "src": script()})
		if r.Intn(2) == 0 {
			for m := r.Intn(4); m > 0; m-- {
				ops = append(ops, h.Op{"op": "next", "i": 1 + r.Intn(j+1)})
			}
		}
	}
	for m := 4 + r.Intn(8*n+2*more); m > 0; m-- {
		ops = append(ops, h.Op{"op": "next", "i": 1 + r.Intn(n)})
		if into && r.Intn(3) == 0 {
			ops = append(ops, h.Op{"op": "contents"})
		}
	}
	return ops
}
