// Driver for parsing JSON documents.
package main

import (
	"math/rand"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"verif/harness/h"
	"verif/harness/jsonlib"
)

func exec(ops []h.Op) {
	for _, op := range ops {
		if h.Do(op, func() {
			var (
				v   json.Value
				err error
			)
			if h.Half(op) {
				err = h.Caught(func() { v = parse.MustParse(jsonlib.NewReader(op)) })
			} else {
				v, err = parse.Parse(jsonlib.NewReader(op))
			}
			if err != nil {
				enc := jsonlib.Encode(v)
				if len(enc) == 1 && enc[0] == -1 {
					enc = []int{} // the invalid value that goes with an error
				}
				op["res"] = h.Op{"v": enc, "e": jsonlib.Name(err)}
			} else {
				op["res"] = h.Op{"v": jsonlib.Encode(v), "e": ""}
			}
		}) {
			op["res"] = h.Op{"v": []int{}, "e": "panic"}
		}
	}
}

func gen(r *rand.Rand, i int, tier string) (ops []h.Op) {
	return []h.Op{jsonlib.Source(r, h.Op{"op": "parse"})}
}

func main() { h.Main(&h.Prop{Name: "parse", Gen: gen, Exec: exec}) }
