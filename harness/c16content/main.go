// Driver for the content of requests.
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/csv"
	"errors"
	goio "io"
	"math/rand"
	"net/http"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/rest"
	"verif/harness/h"
	"verif/harness/jsonlib"
)

// chunked delivers its data in portions that depend on its length
type chunked struct{ data []byte }

func (c *chunked) Read(p []byte) (int, error) {
	h.Yield()
	if len(c.data) == 0 {
		return 0, goio.EOF
	}
	n := len(c.data)%5 + 1
	if n > len(c.data) {
		n = len(c.data)
	}
	n = copy(p, c.data[:n])
	c.data = c.data[n:]
	return n, nil
}

// req is a request with a body, compressed if so asked for
func req(op h.Op, plain []byte) *http.Request {
	r, _ := http.NewRequest("POST", "/", nil)
	body := plain
	switch gz := h.S(op["gz"]); gz {
	case "gzip", "gzip2":
		var buf bytes.Buffer
		parts := [][]byte{plain}
		if gz == "gzip2" { // two members
			parts = [][]byte{plain[:len(plain)/2], plain[len(plain)/2:]}
		}
		for _, p := range parts {
			w := gzip.NewWriter(&buf)
			w.Write(p)
			w.Close()
		}
		body = buf.Bytes()
		r.Header.Set("Accept-Encoding", "gzip")
	case "":
	default:
		r.Header.Set("Accept-Encoding", gz)
	}
	if t, have := op["ctype"]; have && h.S(t) != "" {
		r.Header.Set("Content-Type", h.S(t))
	}
	r.Body = goio.NopCloser(&chunked{body})
	return r
}

func exec(ops []h.Op) {
	var (
		rows iter.Iter[[]string]
		vals iter.Iter[json.Value]
	)
	for _, op := range ops {
		op := op
		name := h.S(op["op"])
		if h.Do(op, func() {
			switch name {
			case "body":
				data, err := goio.ReadAll(rest.AcceptGzip(req(op, h.Bytes(op["data"]))))
				e := ""
				if err != nil {
					e = err.Error()
				}
				op["res"] = h.Op{"data": h.OfBytes(data), "e": e}
			case "csv":
				r := req(op, h.Bytes(op["data"]))
				r.Body = goio.NopCloser(rest.AcceptGzip(r))
				rows, vals = rest.NegotiateCSVContent(r), nil
				op["res"] = "iter"
				if rows == nil {
					op["res"] = "nil"
				}
			case "json":
				r := req(op, h.Bytes(op["data"]))
				r.Body = goio.NopCloser(rest.AcceptGzip(r))
				rows, vals = nil, rest.NegotiateJSONContent(r)
				op["res"] = "iter"
				if vals == nil {
					op["res"] = "nil"
				}
			case "next":
				res := h.Op{"c": 0, "v": []int{}, "e": ""}
				op["res"] = res
				if rows != nil {
					row, err := rows.Next()
					res["e"] = jsonlib.Name(err)
					if pe := (*csv.ParseError)(nil); errors.As(err, &pe) {
						res["e"] = "csv"
						if pe.Err == csv.ErrFieldCount {
							res["e"] = "fields"
						}
					}
					v := [][]int{}
					for _, c := range row {
						v = append(v, h.OfString(c))
					}
					res["v"] = v
				} else {
					v, err := vals.Next()
					res["e"] = jsonlib.Name(err)
					if err == nil {
						res["v"] = jsonlib.Encode(v)
					}
				}
			default:
				h.Fail("op %v", name)
			}
		}) {
			switch name {
			case "body", "next":
				op["res"] = h.Op{"data": []int{}, "v": []int{}, "e": "panic", "c": 0}
			default:
				op["res"] = "panic"
			}
		}
	}
}

func pick(r *rand.Rand, ss ...string) string { return ss[r.Intn(len(ss))] }

func gen(r *rand.Rand, i int, tier string) (ops []h.Op) {
	gz := pick(r, "", "gzip", "gzip2", "deflate", "identity")
	ctype := pick(r, "text/csv", "application/json", "text/plain", "", "application/xml", "text/html", "text/xml", "text/css", "text/cs", "text/csvs", "xtext/csv",
		"application/jsonx", "application/jso", "application", "csv", "json", "text/json", "application/csv", "application/x-json")
	switch r.Intn(4) {
	case 0:
		d := make([]byte, h.N(r, 60))
		for i := range d {
			d[i] = byte(r.Intn(256))
			if r.Intn(2) == 0 {
				d[i] = 'a'
			}
		}
		return []h.Op{{"op": "body", "data": h.OfBytes(d), "gz": gz}}
	case 1, 2:
		if r.Intn(3) > 0 {
			ctype = "application/json"
		}
		ops = append(ops, h.Op{"op": "json", "ctype": ctype, "gz": gz, "data": h.OfBytes(jsonlib.Doc(r))})
		if ctype != "application/json" {
			return
		}
	default:
		if r.Intn(3) > 0 {
			ctype = "text/csv"
		}
		var text []byte
		if r.Intn(3) > 0 {
			var buf bytes.Buffer
			w := csv.NewWriter(&buf)
			w.UseCRLF = r.Intn(2) == 0
			cols := 1 + r.Intn(4)
			for n := h.N(r, 5); n > 0; n-- {
				row := []string{}
				for c := 0; c < cols; c++ {
					row = append(row, h.Runes(jsonlib.Text(r, 1+h.N(r, 4))))
				}
				w.Write(row)
			}
			w.Flush()
			text = buf.Bytes()
		} else {
			for n := h.N(r, 30); n > 0; n-- {
				text = append(text, pick(r, ",", "\n", "\r\n", "\"", "\"\"", "a", " ", "#", "\t", "é", "\x80", ";", "\"b,c\"", "\"\n\"", "\r", ", d", "\n e,f\n")...)
			}
		}
		ops = append(ops, h.Op{"op": "csv", "ctype": ctype, "gz": gz, "data": h.OfBytes(text)})
		if ctype != "text/csv" {
			return
		}
	}
	for n := 7; n > 0; n-- {
		ops = append(ops, h.Op{"op": "next"})
	}
	return
}

func main() { h.Main(&h.Prop{Name: "content", Gen: gen, Exec: exec}) }
