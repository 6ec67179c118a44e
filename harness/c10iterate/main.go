// Driver for iterating JSON documents.
package main

import (
	"math/rand"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/iter"
	"verif/harness/h"
	"verif/harness/jsonlib"
)

func exec(ops []h.Op) {
	var (
		rd *jsonlib.Reader
		it iter.Iter[json.Value]
	)
	for _, op := range ops {
		op := op
		if h.Do(op, func() {
			switch h.S(op["op"]) {
			case "iterate":
				it = nil
				rd = jsonlib.NewReader(op)
				it = parse.Iterate(rd)
				op["res"] = h.Op{"c": rd.Started, "v": []int{}, "e": ""}
			case "next":
				v, err := it.Next()
				enc := jsonlib.Encode(v)
				if err != nil && len(enc) == 1 && enc[0] == -1 {
					enc = []int{}
				}
				op["res"] = h.Op{"c": rd.Started, "v": enc, "e": jsonlib.Name(err)}
			default:
				h.Fail("op %v", op["op"])
			}
		}) {
			op["res"] = h.Op{"c": 0, "v": []int{}, "e": "panic"}
		}
	}
}

func gen(r *rand.Rand, i int, tier string) (ops []h.Op) {
	ops = append(ops, jsonlib.Source(r, h.Op{"op": "iterate"}))
	for j := 0; j < 7; j++ {
		ops = append(ops, h.Op{"op": "next"})
	}
	return
}

func main() { h.Main(&h.Prop{Name: "iterate", Gen: gen, Exec: exec}) }
