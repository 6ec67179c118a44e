// Driver for iterating an io.Reader as bytes, runes and lines.
package main

import (
	"errors"
	goio "io"
	"math/rand"
	"unicode/utf8"

	"github.com/bantling/micro/iter"
	"verif/harness/h"
)

var (
	e1       = errors.New("e1")
	closeErr = errors.New("close")
)

// reader is an io.Reader that serves its data in given portions, as every legal io.Reader may
type reader struct {
	data    []byte
	plan    []int
	n       int
	end     error
	eofData bool
	used    int
	closed  int
	zeros   int
}

func (r *reader) Read(p []byte) (int, error) {
	h.Yield()
	if r.used == len(r.data) {
		return 0, r.end
	}
	k := r.plan[r.n%len(r.plan)]
	r.n++
	if k == 0 && len(p) > 0 {
		r.zeros++
		return 0, nil
	}
	if k > len(p) {
		k = len(p)
	}
	if k > len(r.data)-r.used {
		k = len(r.data) - r.used
	}
	copy(p, r.data[r.used:r.used+k])
	r.used += k
	if r.eofData && r.used == len(r.data) {
		return k, r.end
	}
	return k, nil
}

type closer struct {
	*reader
	err error
}

func (c closer) Close() error {
	c.closed++
	return c.err
}

func ename(err error) string {
	switch err {
	case nil:
		return ""
	case iter.EOI:
		return "EOI"
	case e1:
		return "e1"
	case closeErr:
		return "close"
	case iter.InvalidUTF8EncodingError:
		return "utf8"
	}
	return "?" + err.Error()
}

func exec(ops []h.Op) {
	var (
		rd   *reader
		next func() ([]int, error)
		bad  = func() ([]int, error) { panic("not opened") }
	)
	for _, op := range ops {
		op := op
		if h.Do(op, func() {
			switch h.S(op["op"]) {
			case "open":
				next = bad
				rd = &reader{data: h.Bytes(op["data"]), plan: h.Is(op["plan"]), eofData: h.B(op["eofdata"]), end: goio.EOF}
				if h.S(op["end"]) == "e1" {
					rd.end = e1
				}
				var src goio.Reader = rd
				switch h.S(op["closer"]) {
				case "ok":
					src = closer{rd, nil}
				case "close":
					src = closer{rd, closeErr}
				}
				if n, isit := op["nilreader"].(bool); isit && n {
					src = nil
				}
				raw := h.B(op["raw"])
				switch h.S(op["kind"]) {
				case "bytes":
					f := iter.ReaderIterGen(src)
					if !raw {
						f = iter.OfReader(src).Next
					}
					next = func() ([]int, error) {
						b, err := f()
						if err != nil && b == 0 {
							return []int{}, err
						}
						return []int{int(b)}, err
					}
				case "runes":
					f := iter.ReaderAsRunesIterGen(src)
					if !raw {
						f = iter.OfReaderAsRunes(src).Next
					}
					if s, isit := op["str"].(bool); isit && s {
						f = iter.StringAsRunesIterGen(string(rd.data))
					}
					next = func() ([]int, error) {
						r, err := f()
						if err != nil && r == 0 {
							return []int{}, err
						}
						return []int{int(r)}, err
					}
				case "lines":
					f := iter.ReaderAsLinesIterGen(src)
					if !raw {
						f = iter.OfReaderAsLines(src).Next
					}
					if s, isit := op["str"].(bool); isit && s {
						f = iter.StringAsLinesIterGen(string(rd.data))
						if !raw {
							f = iter.OfStringAsLines(string(rd.data)).Next
						}
					}
					next = func() ([]int, error) {
						l, err := f()
						if !utf8.ValidString(l) {
							return []int{-1}, err
						}
						return h.OfRunes(l), err
					}
				}
				op["res"] = h.Op{"v": []int{}, "e": "", "used": 0, "closed": 0}
			case "next":
				v, err := next()
				used := rd.used
				if err != nil {
					used = 0
				}
				op["res"] = h.Op{"v": v, "e": ename(err), "used": used, "closed": rd.closed}
			default:
				h.Fail("op %v", op["op"])
			}
		}) {
			op["res"] = h.Op{"v": []int{}, "e": "panic", "used": 0, "closed": 0}
		}
	}
}

func gen(r *rand.Rand, i int, tier string) (ops []h.Op) {
	kind := []string{"bytes", "runes", "runes", "lines", "lines"}[r.Intn(5)]
	var data []byte
	n := h.N(r, 14)
	if r.Intn(1500) == 0 { // beyond the size of buffers
		n = 4090 + r.Intn(20)
	}
	for j := 0; j < n; j++ {
		switch kind {
		case "bytes":
			data = append(data, byte(r.Intn(256)*r.Intn(2)))
		case "runes":
			data = append(data, unit(r)...)
		case "lines":
			switch r.Intn(8) {
			case 0:
				data = append(data, '\r')
			case 1:
				data = append(data, '\n')
			case 2:
				data = append(data, "\r\n"...)
			case 3:
				data = append(data, "\n\r"...)
			case 4:
				if r.Intn(4) == 0 {
					data = append(data, unit(r)...)
				} else {
					data = append(data, "é漢😀"...)
				}
			default:
				data = append(data, byte('a'+r.Intn(3)))
			}
		}
	}
	plan := []int{1 + r.Intn(6)}
	if r.Intn(2) == 0 {
		plan = []int{r.Intn(4), 1 + r.Intn(3), r.Intn(5)}
	}
	end := []string{"EOI", "EOI", "e1"}[r.Intn(3)]
	cl := ""
	if kind == "bytes" {
		cl = []string{"", "ok", "close"}[r.Intn(3)]
	}
	op := h.Op{"op": "open", "kind": kind, "data": h.OfBytes(data), "plan": plan, "end": end, "eofdata": r.Intn(2) == 0, "closer": cl, "raw": r.Intn(2) == 0}
	op["str"] = false
	if kind != "bytes" && r.Intn(6) == 0 {
		op["str"], op["end"] = true, "EOI"
	}
	if r.Intn(40) == 0 {
		op["str"] = false
		op["nilreader"], op["data"], op["end"], op["closer"] = true, []int{}, "EOI", ""
	}
	ops = append(ops, op)
	for j := 0; j < len(data)+3 && (j < 60 || n >= 14); j++ {
		ops = append(ops, h.Op{"op": "next"})
	}
	return
}

// unit is a code point at some boundary, mostly valid
func unit(r *rand.Rand) []byte {
	bounds := []rune{0, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0x10ffff}
	if r.Intn(3) > 0 {
		return []byte(string(bounds[r.Intn(len(bounds))]))
	}
	if r.Intn(2) == 0 {
		for {
			if x := rune(r.Intn(0x110000)); x < 0xd800 || x > 0xdfff {
				return []byte(string(x))
			}
		}
	}
	// perhaps invalid
	b := []byte(string(bounds[r.Intn(len(bounds))]))
	switch r.Intn(4) {
	case 0:
		b[r.Intn(len(b))] = byte(r.Intn(256))
	case 1:
		b = b[:1+r.Intn(len(b))]
	case 2:
		x := 0xd800 + r.Intn(0x800) // a surrogate
		b = []byte{0xe0 | byte(x>>12), 0x80 | byte(x>>6)&0x3f, 0x80 | byte(x)&0x3f}
	case 3:
		x := r.Intn(0x800) // overlong
		b = []byte{0xe0 | byte(x>>12), 0x80 | byte(x>>6)&0x3f, 0x80 | byte(x)&0x3f}
	}
	return b
}

func main() { h.Main(&h.Prop{Name: "decode", Gen: gen, Exec: exec}) }
