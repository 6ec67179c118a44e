// Driver for the in-memory sources of iteration.
package main

import (
	"encoding/csv"
	"errors"
	goio "io"
	"math/rand"
	"strconv"
	"strings"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/tuple"
	"verif/harness/h"
)

var fields = []string{"", "a", "b c", "é漢", "x,y", "q\"q", "l1\nl2", " lead", "trail ", "12", "#", "\"", "''", ";", "\t", "longer text that goes on"}

var errRead = errors.New("e1")

// portions is a reader of a text in portions of n bytes
type portions struct {
	text []byte
	n    int
	end  error
}

func (p *portions) Read(b []byte) (int, error) {
	h.Yield()
	if len(p.text) == 0 {
		return 0, p.end
	}
	n := p.n
	if n > len(p.text) {
		n = len(p.text)
	}
	n = copy(b, p.text[:n])
	p.text = p.text[n:]
	return n, nil
}

func fieldID(s string) int {
	for i, f := range fields {
		if f == s {
			return i
		}
	}
	return -1
}

func ename(err error) string {
	switch {
	case err == nil:
		return ""
	case err == iter.EOI:
		return "EOI"
	case err != nil && strings.Contains(err.Error(), csv.ErrFieldCount.Error()):
		return "fields"
	case err == errRead:
		return "e1"
	}
	if pe := (*csv.ParseError)(nil); errors.As(err, &pe) {
		return "csv"
	}
	return "?" + err.Error()
}

func adapt[T any](fn func() (T, error), raw bool, conv func(T) []int, zero func(T) bool) func() ([]int, error) {
	next := fn
	if !raw {
		next = iter.OfIter(fn).Next
	}
	return wrap(next, conv, zero)
}

func wrap[T any](next func() (T, error), conv func(T) []int, zero func(T) bool) func() ([]int, error) {
	return func() ([]int, error) {
		v, err := next()
		if err != nil {
			if zero(v) {
				return []int{}, err
			}
			return []int{-1}, err
		}
		return conv(v), nil
	}
}

func one(i int) []int   { return []int{i} }
func isZero(i int) bool { return i == 0 }
func oneS(s string) []int {
	if s == "" {
		return []int{0}
	}
	i, _ := strconv.Atoi(s)
	return []int{i}
}

func exec(ops []h.Op) {
	var next func() ([]int, error)
	for _, op := range ops {
		op := op
		if h.Do(op, func() {
			raw, _ := op["raw"].(bool)
			switch h.S(op["op"]) {
			case "seq":
				items := h.Is(op["items"])
				switch h.S(op["kind"]) {
				case "slice":
					if len(items) == 0 {
						items = nil
					}
					if raw {
						next = adapt(iter.SliceIterGen(items), true, one, isZero)
					} else {
						next = wrap(iter.OfSlice(items).Next, one, isZero)
					}
				case "of":
					strs := []string{}
					for _, i := range items {
						if i == 0 {
							strs = append(strs, "")
						} else {
							strs = append(strs, strconv.Itoa(i))
						}
					}
					next = wrap(iter.Of(strs...).Next, oneS, func(s string) bool { return s == "" })
				case "one":
					if raw {
						next = adapt(iter.SingleValueIterGen(items[0]), true, one, isZero)
					} else {
						next = wrap(iter.OfOne(items[0]).Next, one, isZero)
					}
				case "empty":
					if raw {
						next = adapt(iter.NoValueIterGen[int](), true, one, isZero)
					} else {
						next = wrap(iter.OfEmpty[int]().Next, one, isZero)
					}
				case "runes":
					rs := []rune{}
					for _, i := range items {
						rs = append(rs, rune(i))
					}
					f := iter.OfStringAsRunes(string(rs)).Next
					if raw {
						f = iter.StringAsRunesIterGen(string(rs))
					}
					next = wrap(f, func(r rune) []int { return []int{int(r)} }, func(r rune) bool { return r == 0 })
				}
			case "map":
				pairs := h.As(op["pairs"])
				switch h.S(op["kind"]) {
				case "int":
					var m map[int]int
					if len(pairs) > 0 {
						m = map[int]int{}
					}
					for _, p := range pairs {
						m[h.Is(p)[0]] = h.Is(p)[1]
					}
					f := iter.OfMap(m).Next
					if raw {
						f = iter.MapIterGen(m)
					}
					next = wrap(f, func(t tuple.Two[int, int]) []int { return []int{t.T, t.U} }, func(t tuple.Two[int, int]) bool { return t == tuple.Two[int, int]{} })
				case "any":
					// 0 stands for nil, as key and as value
					m := map[any]any{}
					for _, p := range pairs {
						var k, v any
						if i := h.Is(p)[0]; i != 0 {
							k = i
						}
						if i := h.Is(p)[1]; i != 0 {
							v = i
						}
						m[k] = v
					}
					f := iter.OfMap(m).Next
					if raw {
						f = iter.MapIterGen(m)
					}
					un := func(a any) int {
						if a == nil {
							return 0
						}
						return a.(int)
					}
					next = wrap(f, func(t tuple.Two[any, any]) []int { return []int{un(t.T), un(t.U)} }, func(t tuple.Two[any, any]) bool { return t.T == nil && t.U == nil })
				}
			case "inf":
				f, in := h.Is(op["f"]), h.Is(op["init"])
				g := iter.InfiniteIterGen(func(x int) int { h.Yield(); return (f[0]*x + f[1]) % f[2] }, in...)
				next = adapt(g, raw, one, isZero)
			case "fib":
				next = adapt(iter.FibonnaciIterGen(), raw, one, isZero)
			case "csv":
				var sb strings.Builder
				quote := h.B(op["quote"])
				for _, r := range h.As(op["rows"]) {
					for j, id := range h.Is(r) {
						if j > 0 {
							sb.WriteByte(',')
						}
						f := fields[id]
						if quote || strings.ContainsAny(f, "\",\n") || f == "" {
							sb.WriteString(`"` + strings.ReplaceAll(f, `"`, `""`) + `"`)
						} else {
							sb.WriteString(f)
						}
					}
					sb.WriteByte('\n')
				}
				f := iter.OfCSV(strings.NewReader(sb.String())).Next
				if raw {
					f = iter.CSVIterGen(strings.NewReader(sb.String()))
				}
				next = wrap(f, func(r []string) []int {
					res := []int{}
					for _, s := range r {
						res = append(res, fieldID(s))
					}
					return res
				}, func(r []string) bool { return r == nil })
			case "csvtext":
				rd := &portions{h.Bytes(op["text"]), 1000000, goio.EOF}
				if h.B(op["one"]) {
					rd.n = 1
				}
				if h.S(op["end"]) == "e1" {
					rd.end = errRead
				}
				next = wrap(iter.OfCSV(rd).Next, func(r []string) []int {
					res := []int{}
					for i, s := range r {
						if i > 0 {
							res = append(res, -1)
						}
						res = append(res, h.OfString(s)...)
					}
					return res
				}, func(r []string) bool { return r == nil })
			case "next":
				v, err := next()
				op["res"] = h.Op{"v": v, "e": ename(err)}
				return
			default:
				h.Fail("op %v", op["op"])
			}
			op["res"] = h.Op{"v": []int{}, "e": ""}
		}) {
			op["res"] = h.Op{"v": []int{}, "e": "panic"}
			if h.S(op["op"]) != "next" {
				next = func() ([]int, error) { panic("not opened") }
			}
		}
	}
}

func gen(r *rand.Rand, i int, tier string) (ops []h.Op) {
	raw := r.Intn(2) == 0
	n := h.N(r, 12)
	count := n + 3
	items := make([]int, n)
	for j := range items {
		items[j] = r.Intn(20) * r.Intn(3)
	}
	switch r.Intn(9) {
	case 7, 8:
		text := []int{}
		for n := h.N(r, 40); n > 0; n-- {
			switch r.Intn(9) {
			case 0, 1:
				text = append(text, ',')
			case 2:
				text = append(text, '\n')
			case 3:
				text = append(text, '\r', '\n')
			case 4:
				text = append(text, '"')
			case 5:
				text = append(text, h.OfString([]string{"\"\"", "\"a,b\"", "\"x\ny\"", "\"\r\n\"", "\r", ",\"\"\"\",", "\"", "\n#,\n", "\\", "'"}[r.Intn(10)])...)
			default:
				text = append(text, h.OfString([]string{"a", " ", "#", "\t", "é", ";", "\x80", "\x00", "\ufeff", "//", "12"}[r.Intn(11)])...)
			}
		}
		if r.Intn(2) == 0 {
			// rows that are well-formed
			text = text[:0]
			w := 1 + r.Intn(3)
			for j := h.N(r, 5); j > 0; j-- {
				for x := 0; x < w; x++ {
					if x > 0 {
						text = append(text, ',')
					}
					text = append(text, h.OfString([]string{"a", " b", "c ", "\"\"", "\"x,y\"", "\"p\"\"q\"", "", "#", "\"l\nm\"", "\"l\r\nm\"", " "}[r.Intn(11)])...)
				}
				text = append(text, h.OfString([]string{"\n", "\r\n", "\n\n", "\r\n\r\n"}[r.Intn(4)])...)
			}
		}
		count = 3
		for _, x := range text {
			if x == '\n' {
				count++
			}
		}
		ops = append(ops, h.Op{"op": "csvtext", "raw": false, "one": r.Intn(2) == 0, "text": text, "end": []string{"EOI", "EOI", "e1"}[r.Intn(3)]})
	case 0, 1:
		kind := []string{"slice", "of", "one", "empty", "runes"}[r.Intn(5)]
		if kind == "one" {
			items = []int{r.Intn(3)}
		}
		if kind == "empty" {
			items = []int{}
		}
		if kind == "runes" {
			for j := range items {
				items[j] = []int{0, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x1f600}[r.Intn(13)]
			}
		}
		ops = append(ops, h.Op{"op": "seq", "kind": kind, "raw": raw, "items": items})
	case 2, 3:
		pairs := [][]int{}
		for _, k := range r.Perm(n) {
			pairs = append(pairs, []int{k, r.Intn(3)})
		}
		ops = append(ops, h.Op{"op": "map", "kind": []string{"int", "any"}[r.Intn(2)], "raw": raw, "pairs": pairs})
	case 4:
		ops = append(ops, h.Op{"op": "inf", "raw": raw, "f": []int{1 + r.Intn(5), r.Intn(5), 1000 + r.Intn(1000)}, "init": items[:min(n, 5+h.N(r, 2))]})
	case 5:
		ops = append(ops, h.Op{"op": "fib", "raw": raw})
		count = 42
	case 6:
		rows := [][]int{}
		w := 1 + h.N(r, 4)
		for j := 0; j < n; j++ {
			x := w
			if r.Intn(15) == 0 {
				x = 1 + r.Intn(5)
			}
			row := []int{}
			for len(row) < x {
				row = append(row, r.Intn(len(fields)))
			}
			rows = append(rows, row)
		}
		ops = append(ops, h.Op{"op": "csv", "raw": false, "quote": r.Intn(2) == 0, "rows": rows})
	}
	for j := 0; j < count; j++ {
		ops = append(ops, h.Op{"op": "next"})
	}
	return
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func main() { h.Main(&h.Prop{Name: "source", Gen: gen, Exec: exec}) }
