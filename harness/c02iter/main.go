// Driver for the iterator protocol: Next, Unread, Concat, SetError and Maybe over scripted iterating functions.
package main

import (
	"errors"
	"math/rand"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/union"
	"verif/harness/h"
)

var (
	errs = map[string]error{"EOI": iter.EOI, "e1": errors.New("e1"), "e2": errors.New("e2"), "e3": errors.New("e3")}
)

func errName(e error) string {
	if e == nil {
		return ""
	}
	for n, x := range errs {
		if e == x {
			return n
		}
	}
	return "?" + e.Error()
}

type part struct {
	script []h.Op
	calls  int
	it     iter.Iter[int]
}

func (p *part) fn() (int, error) {
	h.Yield()
	p.calls++
	if p.calls <= len(p.script) {
		s := p.script[p.calls-1]
		if n := h.S(s["e"]); n != "" {
			return h.I(s["v"]), errs[n]
		}
		return h.I(s["v"]), nil
	}
	return 0, iter.EOI
}

func exec(ops []h.Op) {
	var (
		parts []*part
		it    iter.Iter[int]
		turn  int
	)
	res := func(op h.Op, v int, err error) {
		c := []int{}
		for _, p := range parts {
			c = append(c, p.calls)
		}
		op["res"] = h.Op{"v": v, "e": errName(err), "c": c}
	}
	next := func(it iter.Iter[int]) (int, error) {
		turn++
		if turn%3 == 0 {
			// Maybe is the same as Next
			var r union.Result[int] = iter.Maybe(it)
			if r.HasResult() {
				return r.Get(), nil
			}
			return 0, r.Error()
		}
		return it.Next()
	}
	for _, op := range ops {
		op := op
		if h.Do(op, func() {
			switch h.S(op["op"]) {
			case "new":
				var its []iter.Iter[int]
				for _, q := range h.As(op["parts"]) {
					m := h.M(q)
					p := &part{}
					if !h.B(m["nil"]) {
						for _, s := range h.As(m["script"]) {
							p.script = append(p.script, h.M(s))
						}
						p.it = iter.OfIter(p.fn)
					}
					parts = append(parts, p)
					its = append(its, p.it)
				}
				if h.S(op["shape"]) == "of" {
					it = parts[0].it
				} else {
					it = iter.Concat(its...)
				}
				if e := h.S(op["seterr"]); e != "" {
					it = iter.SetError(it, errs[e])
				}
				res(op, 0, nil)
			case "next":
				v, err := next(it)
				res(op, v, err)
			case "unread":
				it.Unread(h.I(op["v"]))
				res(op, 0, nil)
			case "unreadpart":
				parts[h.I(op["i"])-1].it.Unread(h.I(op["v"]))
				res(op, 0, nil)
			case "nextpart":
				v, err := next(parts[h.I(op["i"])-1].it)
				res(op, v, err)
			default:
				h.Fail("op %v", op["op"])
			}
		}) {
			op["res"] = h.Op{"v": -1, "e": "panic", "c": []int{}}
		}
	}
}

func gen(r *rand.Rand, i int, tier string) (ops []h.Op) {
	script := func() (s []h.Op) {
		s = []h.Op{}
		n := h.N(r, 6)
		if r.Intn(4) == 0 {
			n = 0
		}
		for j := 0; j < n; j++ {
			e := ""
			if r.Intn(7) == 0 {
				e = []string{"EOI", "e1", "e3"}[r.Intn(3)]
			}
			s = append(s, h.Op{"v": r.Intn(5), "e": e})
		}
		return
	}
	shape := []string{"of", "concat", "concat"}[r.Intn(3)]
	np := 1
	if shape == "concat" {
		np = r.Intn(6)
	}
	parts := []h.Op{}
	live := []int{}
	for j := 0; j < np; j++ {
		isnil := shape == "concat" && r.Intn(8) == 0
		s := []h.Op{}
		if !isnil {
			s = script()
			live = append(live, j+1)
		}
		parts = append(parts, h.Op{"script": s, "nil": isnil})
	}
	se := []string{"", "", "e2", "EOI"}[r.Intn(4)]
	ops = append(ops, h.Op{"op": "new", "shape": shape, "parts": parts, "seterr": se})
	unread := r.Intn(3) // how often
	inner := r.Intn(3)
	n, many := 5+h.N(r, 45), false
	for len(ops) < n {
		switch x := r.Intn(10); {
		case x < unread && !many && r.Intn(40) == 0:
			many = true
			for m := h.N(r, 40); m > 0; m-- {
				ops = append(ops, h.Op{"op": "unread", "v": 10 + len(ops)})
			}
			n += r.Intn(len(ops))
		case x < unread:
			ops = append(ops, h.Op{"op": "unread", "v": 10 + len(ops)})
		case x < unread+inner && shape == "concat" && len(live) > 0 && r.Intn(2) == 0:
			p := live[r.Intn(len(live))]
			if r.Intn(2) == 0 {
				ops = append(ops, h.Op{"op": "unreadpart", "i": p, "v": 10 + len(ops)})
			} else {
				ops = append(ops, h.Op{"op": "nextpart", "i": p})
			}
		default:
			ops = append(ops, h.Op{"op": "next"})
		}
	}
	return
}

func main() { h.Main(&h.Prop{Name: "iter", Gen: gen, Exec: exec}) }
