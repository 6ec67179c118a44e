// Driver for writing JSON values.
package main

import (
	"bytes"
	"errors"
	"math/rand"
	"unicode/utf8"

	"github.com/bantling/micro/encoding/json/write"
	"github.com/bantling/micro/io/writer"
	"verif/harness/h"
	"verif/harness/jsonlib"
)

var errWrite = errors.New("write error")

func exec(ops []h.Op) {
	for _, op := range ops {
		op := op
		half := h.Half(op)
		if h.Do(op, func() {
			var (
				v, _   = jsonlib.Decode(h.Is(op["v"]), 0)
				text   = []int{}
				budget = h.I(op["budget"])
				after  int
				failed bool
				buf    bytes.Buffer
				dst    = writer.NewWriter(func(c rune) error {
					h.Yield()
					if failed {
						after++
					}
					if len(text) == budget {
						failed = true
						return errWrite
					}
					text = append(text, int(c))
					return nil
				})
			)
			fn := h.S(op["fn"])
			if fn == "io" {
				dst = writer.OfIOWriterAsRunes(&buf)
			}
			var err error
			switch fn {
			case "any", "io":
				err = write.Write(v, dst)
			case "must":
				err = h.Caught(func() { write.MustWrite(v, dst) })
			case "object":
				if half {
					err = h.Caught(func() { write.MustWriteObject(v, dst) })
				} else {
					err = write.WriteObject(v, dst)
				}
			case "array":
				if half {
					err = h.Caught(func() { write.MustWriteArray(v, dst) })
				} else {
					err = write.WriteArray(v, dst)
				}
			default:
				h.Fail("fn %v", fn)
			}
			if fn == "io" {
				text = h.OfRunes(buf.String())
				if !utf8.Valid(buf.Bytes()) {
					text = []int{-1}
				}
			}
			e := ""
			if err == errWrite {
				e = "werr"
			} else if err != nil {
				e = "?" + err.Error()
			}
			op["res"] = h.Op{"text": text, "e": e, "after": after}
		}) {
			op["res"] = h.Op{"text": []int{}, "e": "panic", "after": 0}
		}
	}
}

func gen(r *rand.Rand, i int, tier string) (ops []h.Op) {
	v := jsonlib.Value(r, 3)
	fn, budget := []string{"any", "any", "any", "io", "must"}[r.Intn(5)], -1
	if v[0] == 5 && r.Intn(2) == 0 {
		fn = "array"
	}
	if v[0] == 6 && r.Intn(2) == 0 {
		fn = "object"
	}
	if fn != "io" && r.Intn(2) == 0 {
		budget = r.Intn(40)
	}
	return []h.Op{{"op": "write", "v": v, "budget": budget, "fn": fn}}
}

func main() { h.Main(&h.Prop{Name: "write", Gen: gen, Exec: exec}) }
