// Driver for parallel streams. Schedules of the specification are enforced by holding every thread before an element until
// the elements scheduled before it have been processed.
package main

import (
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"verif/harness/h"
	"verif/harness/streamlib"
)

// gate makes threads follow a schedule. If they do not (there may be fewer threads than the schedule needs), they proceed
// after a while: the schedule is a way to find wrong results, not something that can be violated.
type gate struct {
	mu   sync.Mutex
	cond *sync.Cond
	pos  map[int]int
	next int
	dead bool
}

var late atomic.Int64

func newGate(sched []int) *gate {
	g := &gate{pos: map[int]int{}}
	g.cond = sync.NewCond(&g.mu)
	for i, x := range sched {
		g.pos[x] = i
	}
	return g
}

func (g *gate) wait(x int) {
	i, ok := g.pos[x]
	if !ok {
		return
	}
	d := 2 * time.Second
	if late.Load() > 2 {
		d = 2 * time.Millisecond
	}
	t := time.AfterFunc(d, func() {
		g.mu.Lock()
		if !g.dead && g.next < i {
			g.dead = true
			late.Add(1)
		}
		g.mu.Unlock()
		g.cond.Broadcast()
	})
	g.mu.Lock()
	for g.next < i && !g.dead {
		g.cond.Wait()
	}
	g.next = i + 1
	g.mu.Unlock()
	g.cond.Broadcast()
	t.Stop()
}

func info(op h.Op) []stream.PInfo {
	switch h.S(op["unit"]) {
	case "threads":
		return []stream.PInfo{{N: h.I(op["n"]), PUnit: stream.Threads}}
	case "items":
		return []stream.PInfo{{N: h.I(op["n"]), PUnit: stream.Items}}
	}
	return nil
}

func typed[U any](tr func(any) any) func(iter.Iter[int]) iter.Iter[U] {
	return func(it iter.Iter[int]) iter.Iter[U] { return tr(it).(iter.Iter[U]) }
}

func run[U any](op h.Op, tr func(iter.Iter[int]) iter.Iter[U], src iter.Iter[int]) {
	it := stream.Parallel(tr, info(op)...)(src)
	vs := [][]int{}
	for {
		v, err := it.Next()
		if err != nil {
			if _, err2 := it.Next(); err2 != err {
				op["res"] = h.Op{"vs": vs, "e": "unstable"}
				return
			}
			op["res"] = h.Op{"vs": vs, "e": streamlib.ErrName(err)}
			return
		}
		var e any = v
		if e == nil {
			vs = append(vs, []int{-999})
		} else {
			vs = append(vs, streamlib.Encode(e))
		}
		if len(vs) > 5000 {
			op["res"] = h.Op{"vs": [][]int{}, "e": "endless"}
			return
		}
	}
}

func exec(ops []h.Op) {
	for _, op := range ops {
		op := op
		if h.Do(op, func() {
			fns, out := streamlib.Compose(h.As(op["stages"]))
			items := h.Is(op["items"])
			src := iter.OfSlice(append([]int{}, items...))
			if h.S(op["end"]) != "EOI" {
				src = iter.SetError(src, streamlib.Err(h.S(op["end"])))
			}
			hold := func(x int) int { return x }
			if sched, has := op["sched"]; has {
				g := newGate(h.Is(sched))
				hold = func(x int) int { g.wait(x); return x }
			} else if n := h.I(op["jitter"]); n > 0 {
				var c atomic.Int64
				hold = func(x int) int {
					for j := (c.Add(1) * int64(n)) % 7; j > 0; j-- {
						runtime.Gosched()
					}
					return x
				}
			}
			first := stream.Map(hold)
			tr := func(it any) any {
				it = any(first(it.(iter.Iter[int])))
				for _, f := range fns {
					it = f(it)
				}
				return it
			}
			switch {
			case h.B(op["any"]):
				run(op, func(it iter.Iter[int]) iter.Iter[any] {
					return stream.Map(func(x int) any {
						if x%3 == 0 {
							return nil
						}
						return x
					})(tr(it).(iter.Iter[int]))
				}, src)
			case out == "int":
				run(op, typed[int](tr), src)
			case out == "bool":
				run(op, typed[bool](tr), src)
			case out == "slice":
				run(op, typed[[]int](tr), src)
			case out == "pair":
				run(op, typed[streamlib.Pair](tr), src)
			case out == "map":
				run(op, typed[map[int]int](tr), src)
			}
		}) {
			op["res"] = h.Op{"vs": []any{}, "e": "panic"}
		}
	}
}

func gen(r *rand.Rand, i int, tier string) (ops []h.Op) {
	for n := 3; n > 0; n-- {
		var stages []h.Op
		var out string
		for {
			stages, out = streamlib.GenStages(r, r.Intn(4))
			ok := true
			for j, s := range stages {
				// not for use by several threads; or of no determined order
				if s["k"] == "gen" || (s["k"] == "expandmap" && stages[j-1]["k"] != "onemap") {
					ok = false
				}
			}
			if ok {
				break
			}
		}
		ln := h.N(r, 8)
		switch r.Intn(5) {
		case 0:
			ln = h.N(r, 22)
		case 1:
			ln = r.Intn(3)
		}
		items := []int{}
		for j := 0; j < ln; j++ {
			items = append(items, r.Intn(14)-2)
		}
		end := "EOI"
		if r.Intn(12) == 0 {
			end = "e1"
		}
		ops = append(ops, h.Op{"op": "parallel", "stages": stages, "unit": []string{"none", "threads", "items"}[r.Intn(3)], "n": h.N(r, 9) - 1,
			"items": items, "end": end, "any": out == "int" && r.Intn(4) == 0, "jitter": r.Intn(4)})
	}
	return
}

func main() {
	h.Main(&h.Prop{Name: "C08", Gen: gen, Exec: exec})
}
