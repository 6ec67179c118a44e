// Driver for writers.
package main

import (
	"errors"
	"math/rand"
	"sort"

	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/tuple"
	"verif/harness/h"
	"verif/harness/jsonlib"
)

var errDst = errors.New("destination error")

// dst accepts and fails as its script says. It fails on a write of any number of units that do not fit any more.
type dst struct {
	script []any
	out    []any
}

// take decides how many of n units are accepted, and how the write ends
func (d *dst) take(n int) (int, string) {
	if len(d.script) == 0 {
		return n, ""
	}
	s := d.script[0].(h.Op)
	room := h.I(s["room"])
	if n <= room {
		d.script[0] = h.Op{"room": room - n, "how": s["how"]}
		return n, ""
	}
	d.script = d.script[1:]
	if s["how"] == "late" { // takes it all and reports an error
		return n, "err"
	}
	return room, h.S(s["how"])
}

func (d *dst) Write(p []byte) (int, error) {
	h.Yield()
	n, how := d.take(len(p))
	for _, b := range p[:n] {
		d.out = append(d.out, int(b))
	}
	if how == "err" {
		return n, errDst
	}
	return n, nil
}

func (d *dst) fn(v int) error {
	n, how := d.take(1)
	if n == 1 {
		d.out = append(d.out, v)
	}
	if how != "" {
		return errDst
	}
	return nil
}

func exec(ops []h.Op) {
	var (
		d     *dst
		kind  string
		ints  writer.Writer[int]
		pairs writer.Writer[tuple.Two[int, int]]
		bytes writer.Writer[byte]
		runes writer.Writer[rune]
		strs  writer.Writer[string]
		slc   []int
		m     map[int]int
	)
	for _, op := range ops {
		op := op
		name := h.S(op["op"])
		if h.Do(op, func() {
			switch name {
			case "open":
				kind = h.S(op["kind"])
				d = &dst{script: append([]any{}, h.As(op["script"])...), out: []any{}}
				switch kind {
				case "fn":
					ints = writer.NewWriter(d.fn)
				case "slice":
					slc = nil
					ints = writer.OfSliceWriter(&slc)
				case "map":
					m = map[int]int{}
					pairs = writer.OfMapWriter(m)
				case "bytes":
					bytes = writer.OfIOWriterAsBytes(d)
				case "runes":
					runes = writer.OfIOWriterAsRunes(d)
				case "strings":
					strs = writer.OfIOWriterAsStrings(d)
				case "lines":
					strs = writer.OfIOWriterAsLines(d)
				default:
					h.Fail("kind %v", kind)
				}
			case "write":
				var (
					err    error
					before = len(d.out)
					vals   = h.As(op["vals"])
					got    = []any{}
				)
				switch kind {
				case "fn":
					err = ints.Write(h.Is(vals)...)
					got = d.out[before:]
				case "slice":
					n := len(slc)
					err = ints.Write(h.Is(vals)...)
					for _, v := range slc[n:] {
						got = append(got, v)
					}
				case "map":
					ps := []tuple.Two[int, int]{}
					for _, p := range vals {
						ps = append(ps, tuple.Of2(h.Is(p)[0], h.Is(p)[1]))
					}
					err = pairs.Write(ps...)
					got = vals // what the map has is seen in its output
				case "bytes":
					bs := []byte{}
					for _, b := range h.Is(vals) {
						bs = append(bs, byte(b))
					}
					err = bytes.Write(bs...)
					got = d.out[before:]
				case "runes":
					err = runes.Write([]rune(h.Runes(h.Is(vals)))...)
					got = d.out[before:]
				case "strings", "lines":
					ss := []string{}
					for _, s := range vals {
						ss = append(ss, h.Runes(h.Is(s)))
					}
					err = strs.Write(ss...)
					got = d.out[before:]
				}
				e := ""
				if err == errDst {
					e = "err"
				} else if err != nil {
					e = "short"
				}
				op["res"] = h.Op{"e": e, "got": append([]any{}, got...)}
			case "output":
				switch kind {
				case "slice":
					op["res"] = append([]int{}, slc...)
				case "map":
					keys := []int{}
					for k := range m {
						keys = append(keys, k)
					}
					sort.Ints(keys)
					ps := [][]int{}
					for _, k := range keys {
						ps = append(ps, []int{k, m[k]})
					}
					op["res"] = ps
				default:
					op["res"] = d.out
				}
			case "clear":
				slc = nil
			default:
				h.Fail("op %v", name)
			}
		}) {
			if name == "output" {
				op["res"] = []any{-1}
			} else {
				op["res"] = h.Op{"e": "panic", "got": []any{}}
			}
		}
	}
}

func gen(r *rand.Rand, i int, tier string) []h.Op {
	kind := []string{"fn", "slice", "map", "bytes", "runes", "runes", "strings", "lines"}[r.Intn(8)]
	script := []any{}
	if kind != "slice" && kind != "map" {
		for n := r.Intn(4); n > 0; n-- {
			how := "err"
			if kind != "fn" && r.Intn(3) == 0 {
				how = "short"
			} else if r.Intn(3) == 0 {
				how = "late"
			}
			script = append(script, h.Op{"room": h.N(r, 14), "how": how})
		}
	}
	ops := []h.Op{{"op": "open", "kind": kind, "script": script}}
	for n := 1 + r.Intn(7); n > 0; n-- {
		vals := []any{}
		for m := h.N(r, 6); m > 0; m-- {
			switch kind {
			case "fn", "slice":
				vals = append(vals, r.Intn(5))
			case "map":
				vals = append(vals, []int{r.Intn(4), r.Intn(4)})
			case "bytes":
				vals = append(vals, r.Intn(256))
			case "runes":
				if t := jsonlib.Text(r, 1); len(t) > 0 {
					vals = append(vals, t[0])
				}
			default:
				vals = append(vals, jsonlib.Text(r, 1+h.N(r, 6)))
			}
		}
		ops = append(ops, h.Op{"op": "write", "vals": vals})
		if kind == "slice" && r.Intn(5) == 0 {
			ops = append(ops, h.Op{"op": "clear"})
		}
		if r.Intn(4) == 0 {
			ops = append(ops, h.Op{"op": "output"})
		}
	}
	return append(ops, h.Op{"op": "output"})
}

func main() { h.Main(&h.Prop{Name: "sink", Gen: gen, Exec: exec}) }
