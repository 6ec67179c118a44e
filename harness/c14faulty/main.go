// Driver for the reader and writer that fail after a number of bytes.
package main

import (
	"errors"
	goio "io"
	"math/rand"

	"github.com/bantling/micro/io"
	"verif/harness/h"
)

var errFaulty = errors.New("error")

func name(e, want error) string {
	switch e {
	case nil:
		return ""
	case want:
		return "err"
	}
	return "other"
}

func exec(ops []h.Op) {
	var (
		rd   *io.ErrorReader
		wr   *io.ErrorWriter
		want = errFaulty
	)
	if len(ops)%2 == 0 {
		want = goio.EOF
	}
	for _, op := range ops {
		op := op
		kind := h.S(op["op"])
		if h.Do(op, func() {
			switch kind {
			case "reader":
				rd = io.NewErrorReader(h.Bytes(h.Is(op["data"])), want)
			case "writer":
				wr = io.NewErrorWriter(h.I(op["count"]), want)
			case "read":
				p := make([]byte, h.I(op["n"]))
				n, err := rd.Read(p)
				op["res"] = h.Op{"n": n, "e": name(err, want), "data": h.OfBytes(p[:n])}
			case "write":
				d := h.Bytes(h.Is(op["data"]))
				n, err := wr.Write(d)
				for i := range d { // the writer must not keep the slice
					d[i] = 255
				}
				op["res"] = h.Op{"n": n, "e": name(err, want)}
			case "output":
				op["res"] = h.OfBytes(wr.Output())
			default:
				h.Fail("op %v", kind)
			}
		}) {
			if kind == "output" {
				op["res"] = []int{-1}
			} else {
				op["res"] = h.Op{"n": 0, "e": "panic", "data": []int{}}
			}
		}
	}
}

func bytes(r *rand.Rand, n int) []int {
	b := []int{}
	for n = r.Intn(n + 1); n > 0; n-- {
		b = append(b, r.Intn(256))
	}
	return b
}

func gen(r *rand.Rand, i int, tier string) (ops []h.Op) {
	if r.Intn(2) == 0 {
		ops = append(ops, h.Op{"op": "reader", "data": bytes(r, 1+h.N(r, 30))})
		for n := r.Intn(12); n >= 0; n-- {
			ops = append(ops, h.Op{"op": "read", "n": r.Intn(h.N(r, 30) + 2)})
		}
		return
	}
	ops = append(ops, h.Op{"op": "writer", "count": h.N(r, 32) - 2})
	for n := r.Intn(12); n >= 0; n-- {
		if r.Intn(4) == 0 {
			ops = append(ops, h.Op{"op": "output"})
		}
		ops = append(ops, h.Op{"op": "write", "data": bytes(r, h.N(r, 20))})
	}
	return append(ops, h.Op{"op": "output"})
}

func main() { h.Main(&h.Prop{Name: "faulty", Gen: gen, Exec: exec}) }
