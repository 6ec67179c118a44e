// Driver for the event registry.
package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/event"
	"verif/harness/h"
)

// state has what the receivers do while they process an event: the calls to make within each call of a receiver
type state struct{ during func() }

func (st *state) called(s, n string) string {
	h.Yield()
	if st.during != nil {
		st.during()
	}
	return s + n + ","
}

type ptrRcvr struct {
	n  string
	st *state
}

func (p *ptrRcvr) Process(s string) string { return p.st.called(s, p.n) }

type valRcvr struct {
	n    string
	pad  []int // makes the type uncomparable
	flag bool
	st   *state
}

func (p valRcvr) Process(s string) string { return p.st.called(s, p.n) }

type chooser interface {
	register(id int, r event.Receiver[string])
	remove(id int, r event.Receiver[string], all ...bool)
	removeID(id int)
	send(s string) string
}

type reg[I constraint.Ordered] struct {
	r  event.Registry[I, string]
	id func(int) I
}

func (r *reg[I]) register(id int, rc event.Receiver[string]) { r.r.Register(r.id(id), rc) }
func (r *reg[I]) remove(id int, rc event.Receiver[string], all ...bool) {
	r.r.Remove(r.id(id), rc, all...)
}
func (r *reg[I]) removeID(id int)      { r.r.RemoveId(r.id(id)) }
func (r *reg[I]) send(s string) string { return r.r.Send(s) }

func receivers(st *state) map[string]event.Receiver[string] {
	m := map[string]event.Receiver[string]{}
	for _, n := range []string{"a", "b", "c"} {
		m[n] = &ptrRcvr{n, st}
	}
	m["d"] = valRcvr{n: "d", st: st}
	m["e"] = valRcvr{n: "e", pad: []int{1}, st: st}
	m["f"] = event.ReceiverFunc[string](func(s string) string { return st.called(s, "f") })
	m["g"] = event.ReceiverFunc[string](func(s string) string { return st.called(s, "g") })
	// two functions made by one literal
	for _, n := range []string{"p", "q"} {
		n := n
		m[n] = event.ReceiverFunc[string](func(s string) string { return st.called(s, n) })
	}
	return m
}

func split(s string) []string {
	if s == "" {
		return []string{}
	}
	return strings.Split(strings.TrimSuffix(s, ","), ",")
}

func call(st *state, c chooser, rs map[string]event.Receiver[string], op h.Op) {
	op["res"] = []string{}
	switch h.S(op["op"]) {
	case "register":
		c.register(h.I(op["id"]), rs[h.S(op["r"])])
	case "remove":
		if h.B(op["all"]) {
			c.remove(h.I(op["id"]), rs[h.S(op["r"])], true)
		} else if h.I(op["id"])%2 == 0 {
			c.remove(h.I(op["id"]), rs[h.S(op["r"])])
		} else {
			c.remove(h.I(op["id"]), rs[h.S(op["r"])], false)
		}
	case "removeid":
		c.removeID(h.I(op["id"]))
	case "send":
		op["res"] = split(c.send(""))
	case "sendin":
		acts := op["acts"].([]any)
		for _, a := range acts {
			h.O(a)["done"] = false
			h.O(a)["res"] = []string{}
		}
		n := 0
		var hook func()
		hook = func() {
			n++
			st.during = nil
			for _, a := range acts {
				if a := h.O(a); h.I(a["at"]) == n {
					call(st, c, rs, a)
					a["done"] = true
				}
			}
			st.during = hook
		}
		st.during = hook
		defer func() { st.during = nil }()
		op["res"] = split(c.send(""))
	default:
		h.Fail("op %v", op["op"])
	}
}

func exec(ops []h.Op) {
	st := &state{}
	rs := receivers(st)
	var c chooser = &reg[int]{id: func(i int) int { return i }}
	for _, op := range ops {
		op := op
		h.Do(op, func() {
			if h.S(op["op"]) != "kind" {
				call(st, c, rs, op)
				return
			}
			op["res"] = []string{}
			switch h.S(op["key"]) {
			case "string":
				c = &reg[string]{id: func(i int) string { return fmt.Sprintf("%03d", i+500) }}
			case "float":
				c = &reg[float64]{id: func(i int) float64 { return float64(i) / 4 }}
			case "uint8":
				c = &reg[uint8]{id: func(i int) uint8 { return uint8(i + 128) }}
			}
		})
		if _, isit := op["res"].(map[string]any); isit {
			op["res"] = []string{"PANIC"}
		}
	}
}

func gen(r *rand.Rand, i int, tier string) (ops []h.Op) {
	names := []string{"a", "b", "c", "d", "e", "f", "g", "p"}[:1+r.Intn(8)]
	nid := 1 + h.NC(r, 12, 40)
	id := func() int { return r.Intn(nid) - nid/2 }
	ops = append(ops, h.Op{"op": "kind", "key": []string{"int", "string", "float", "uint8"}[r.Intn(4)]})
	n := 3 + h.NC(r, 40, 150)
	for len(ops) < n {
		name := names[r.Intn(len(names))]
		switch x := r.Intn(20); {
		case x < 9:
			ops = append(ops, h.Op{"op": "register", "id": id(), "r": name})
		case x < 12:
			ops = append(ops, h.Op{"op": "remove", "id": id(), "r": name, "all": r.Intn(3) == 0})
		case x < 14:
			ops = append(ops, h.Op{"op": "removeid", "id": id()})
		case x < 16:
			acts := []any{}
			for n := 1 + r.Intn(4); n > 0; n-- {
				a := h.Op{"op": []string{"register", "remove", "removeid", "send"}[r.Intn(4)], "id": id(), "r": names[r.Intn(len(names))], "all": r.Intn(3) == 0, "at": 1 + r.Intn(4)}
				acts = append(acts, a)
			}
			sort.SliceStable(acts, func(i, j int) bool { return acts[i].(h.Op)["at"].(int) < acts[j].(h.Op)["at"].(int) })
			ops = append(ops, h.Op{"op": "sendin", "acts": acts})
		default:
			ops = append(ops, h.Op{"op": "send"})
		}
	}
	ops = append(ops, h.Op{"op": "send"})
	return
}

func main() { h.Main(&h.Prop{Name: "event", Gen: gen, Exec: exec}) }
