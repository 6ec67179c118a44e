// Package jsonlib has what the drivers of the JSON checks share.
package jsonlib

import (
	"errors"
	"io"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/iter"
	"verif/harness/h"
)

// ErrRead is the error of failing readers
var ErrRead = errors.New("read error")

// Reader delivers data in chunks, chunks[i] is the offset where the i-th one ends, and then ends with err
type Reader struct {
	data    []byte
	chunks  []int
	err     error
	eofData bool
	used    int
	cur     int // index of the chunk that is being delivered
	Started int // number of chunks that were started
}

// NewReader of a data, chunks and end of an op
func NewReader(op h.Op) *Reader {
	r := &Reader{data: h.Bytes(op["data"]), chunks: h.Is(op["chunks"]), err: io.EOF}
	if h.S(op["end"]) == "read" {
		r.err = ErrRead
	}
	if e, isit := op["eofdata"].(bool); isit {
		r.eofData = e
	}
	return r
}

func (r *Reader) Read(p []byte) (int, error) {
	h.Yield()
	if len(p) == 0 {
		return 0, nil
	}
	for r.cur < len(r.chunks) && r.used >= r.chunks[r.cur] {
		r.cur++
	}
	r.Started = r.cur + 1
	if r.used >= len(r.data) {
		r.Started = len(r.chunks) + 1
		return 0, r.err
	}
	n := copy(p, r.data[r.used:r.chunks[r.cur]])
	r.used += n
	if r.eofData && r.used == len(r.data) {
		return n, r.err
	}
	return n, nil
}

// Name of an error
func Name(err error) string {
	switch err {
	case nil:
		return ""
	case iter.EOI:
		return "EOI"
	case ErrRead:
		return "read"
	case iter.InvalidUTF8EncodingError:
		return "utf8"
	}
	return "err"
}

func str(s string) []int {
	if !utf8.ValidString(s) {
		return []int{1, -1}
	}
	rs := h.OfRunes(s)
	return append([]int{len(rs)}, rs...)
}

// Encode a value as the specification does
func Encode(v json.Value) []int {
	switch v.Type() {
	case json.Null:
		return []int{0}
	case json.Boolean:
		if v.AsBool() {
			return []int{2}
		}
		return []int{1}
	case json.Number:
		return append([]int{3}, str(string(v.AsNumber()))...)
	case json.String:
		return append([]int{4}, str(v.AsString())...)
	case json.Array:
		r := []int{5, len(v.AsSlice())}
		for _, e := range v.AsSlice() {
			r = append(r, Encode(e)...)
		}
		return r
	case json.Object:
		m := v.AsMap()
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		r := []int{6, len(m)}
		for _, k := range keys {
			r = append(r, str(k)...)
			r = append(r, Encode(m[k])...)
		}
		return r
	}
	return []int{-1}
}

// ---- random documents

func pick(r *rand.Rand, ss ...string) string { return ss[r.Intn(len(ss))] }

func ws(r *rand.Rand) string {
	if r.Intn(4) > 0 {
		return ""
	}
	return pick(r, " ", "\n", "\t", "\r", "  ", "\r\n", " \t")
}

// Number is the text of a number
func Number(r *rand.Rand) string {
	s := pick(r, "", "", "-")
	s += pick(r, "0", "0", "1", "7", "10", "42", "123456789012345678901234567890", "9007199254740993")
	if r.Intn(3) == 0 {
		s += "." + pick(r, "0", "5", "00", "25", "10", "000000000000000000001")
	}
	if r.Intn(4) == 0 {
		s += pick(r, "e", "E") + pick(r, "", "+", "-") + pick(r, "0", "1", "00", "12", "308", "400")
	}
	return s
}

var hexDigits = []string{"0123456789abcdef", "0123456789ABCDEF"}

func hex4(r *rand.Rand, v int) string {
	d := hexDigits[r.Intn(2)]
	return string([]byte{d[v>>12&15], d[v>>8&15], d[v>>4&15], d[v&15]})
}

func chars(r *rand.Rand) string {
	var sb strings.Builder
	for n := r.Intn(5); n > 0; n-- {
		switch r.Intn(9) {
		case 0, 1:
			sb.WriteString(pick(r, "a", "b", "k", "z", " ", "/", "'", "0", "{", "]", ",", ":"))
		case 2:
			sb.WriteString(pick(r, "é", "漢", "😀", "\u007f", "\u2028", "\ufffd", "\U0010ffff", "\u0080", "\ufeff"))
		case 3:
			sb.WriteString(`\` + pick(r, `"`, `\`, "/", "b", "f", "n", "r", "t"))
		case 4, 5:
			v := []int{0, 0x22, 0x5c, 0x1f, 0x41, 0xe9, 0xd7ff, 0xe000, 0xffff, r.Intn(0xd800)}[r.Intn(10)]
			sb.WriteString(`\u` + hex4(r, v))
		case 6:
			hi, lo := 0xd800+r.Intn(0x400), 0xdc00+r.Intn(0x400)
			if r.Intn(6) == 0 {
				hi, lo = lo, hi
			}
			sb.WriteString(`\u` + hex4(r, hi) + `\u` + hex4(r, lo))
		case 7:
			if r.Intn(8) == 0 { // invalid
				sb.WriteString(pick(r, `\ud800`, `\udc00x`, `\ud800\u0041`, `\u12`, `\ug000`, `\x`, "\x01", "\n", "\xff", "\xc3", "\xed\xa0\x80", `\`, `\ud800\`))
			}
		default:
			sb.WriteByte(byte('a' + r.Intn(3)))
		}
	}
	return sb.String()
}

func value(r *rand.Rand, depth int) string {
	k := r.Intn(9)
	if depth <= 0 && k >= 6 {
		k = r.Intn(6)
	}
	switch k {
	case 0, 1:
		if n := Number(r); r.Intn(12) > 0 {
			return n
		} else { // damaged
			at := r.Intn(len(n) + 1)
			return n[:at] + pick(r, "-", "+", ".", "e", "E", "0", "1", "x", "+-") + n[at:]
		}
	case 2, 3:
		return `"` + chars(r) + `"`
	case 4:
		if r.Intn(20) == 0 { // damaged
			return pick(r, "True", "tru", "truee", "fals", "falsee", "nul", "nulll", "nan", "Infinity", "nil", "t")
		}
		return pick(r, "true", "false")
	case 5:
		return "null"
	case 6, 7:
		return array(r, depth-1)
	}
	return object(r, depth-1)
}

func array(r *rand.Rand, depth int) string {
	s := "[" + ws(r)
	for i, n := 0, r.Intn(5); i < n; i++ {
		if i > 0 {
			s += "," + ws(r)
		}
		s += value(r, depth) + ws(r)
	}
	return s + "]"
}

func object(r *rand.Rand, depth int) string {
	s := "{" + ws(r)
	for i, n := 0, r.Intn(4); i < n; i++ {
		if i > 0 {
			s += "," + ws(r)
		}
		k := pick(r, "a", "b", "c", "aa", "é", "漢")
		switch r.Intn(8) {
		case 0, 1:
			k = chars(r)
		case 2:
			k = `\u` + hex4(r, 'a'+r.Intn(3))
		}
		s += `"` + k + `"` + ws(r) + ":" + ws(r) + value(r, depth) + ws(r)
	}
	return s + "}"
}

// Doc is the text of a document, perhaps damaged
func Doc(r *rand.Rand) []byte {
	var s string
	max := 90
	switch r.Intn(30) {
	case 0: // deep
		n := 1 + h.N(r, 40)
		max = 800
		s = strings.Repeat("[", n) + strings.Repeat("]", n)
	case 1:
		n := 1 + h.N(r, 12)
		max = 800
		s = strings.Repeat(`{"a":[`, n) + "1" + strings.Repeat("]}", n)
	case 2: // long
		max = 800
		s = `["` + strings.Repeat(pick(r, "a", "bc", "é", "漢", "😀", `\n`, `\u00e9`), 1+h.N(r, 60)) + chars(r) + `"]`
	case 3:
		max = 800
		s = "[" + strings.Repeat(pick(r, "1,", "[],", `"a", `, "-1.5e3,"), 1+h.N(r, 60)) + value(r, 1) + "]"
	case 4, 5, 6, 7, 8, 9, 10, 11:
		s = object(r, 3)
	default:
		s = array(r, 3)
	}
	s = ws(r) + s + ws(r)
	b := []byte(s)
	if r.Intn(3) == 0 && len(b) > 0 {
		for n := 1 + r.Intn(2); n > 0 && len(b) > 0; n-- {
			at := r.Intn(len(b))
			switch r.Intn(6) {
			case 0: // truncated
				b = b[:at]
			case 1: // something removed
				b = append(b[:at:at], b[at+1:]...)
			case 2: // something inserted
				b = append(b[:at:at], append([]byte(pick(r, ",", "[", "]", "{", "}", ":", `"`, "1", "-", ".", "e", "0", "null", " ", "\\", "x", "\x00", "\xff", "\xe6\xbc", "\u00a0", "\ufeff", "é")), b[at:]...)...)
			case 3: // something repeated
				to := at + r.Intn(len(b)-at) + 1
				b = append(b[:to:to], b[at:]...)
			case 4: // something after it
				b = append(b, pick(r, ",", "]", "}", "1", "[]", "null", `"`, "x", "\xff", " \n", "\x00")...)
			case 5: // swapped
				if at+1 < len(b) {
					b[at], b[at+1] = b[at+1], b[at]
				}
			}
		}
	}
	if len(b) > max {
		b = b[:max]
	}
	return b
}

// Chunks divides n bytes
func Chunks(r *rand.Rand, n int) []int {
	r0 := []int{1, 2, 3, 1000, 1 + r.Intn(6)}[r.Intn(5)]
	var c []int
	for at := 0; at < n; {
		k := r0
		if k > 1 && k < 1000 {
			k = 1 + r.Intn(k)
		}
		at += k
		if at > n {
			at = n
		}
		c = append(c, at)
	}
	if c == nil {
		c = []int{}
	}
	return c
}

// Source makes the fields data, chunks, end and eofdata of an op
func Source(r *rand.Rand, op h.Op) h.Op {
	d := Doc(r)
	op["data"], op["chunks"] = h.OfBytes(d), Chunks(r, len(d))
	op["end"] = pick(r, "EOI", "EOI", "EOI", "read")
	op["eofdata"] = r.Intn(3) == 0
	if op["end"] == "read" && r.Intn(2) == 0 {
		d = d[:r.Intn(len(d)+1)]
		op["data"], op["chunks"] = h.OfBytes(d), Chunks(r, len(d))
	}
	return op
}

// Decode is the reverse of Encode: the value that starts at p of an encoding, and the position after it
func Decode(enc []int, p int) (json.Value, int) {
	text := func() string {
		n := enc[p+1]
		s := h.Runes(enc[p+2 : p+2+n])
		p += 2 + n
		return s
	}
	switch enc[p] {
	case 0:
		return json.NullValue, p + 1
	case 1, 2:
		return json.BoolToValue(enc[p] == 2), p + 1
	case 3:
		v, err := json.NumberToValue(json.NumberString(text()))
		if err != nil {
			panic(err)
		}
		return v, p
	case 4:
		return json.StringToValue(text()), p
	case 5:
		n := enc[p+1]
		p += 2
		s := make([]json.Value, n)
		for i := range s {
			s[i], p = Decode(enc, p)
		}
		return json.MustSliceToValue(s), p
	case 6:
		n := enc[p+1]
		p += 2
		m := map[string]json.Value{}
		for i := 0; i < n; i++ {
			p--
			k := text()
			m[k], p = Decode(enc, p)
		}
		return json.MustMapToValue(m), p
	}
	h.Fail("encoding %v at %d", enc, p)
	return json.Value{}, 0
}

// Text of random characters, with all kinds of special ones
func Text(r *rand.Rand, n int) []int {
	t := []int{}
	for n = r.Intn(n + 1); n > 0; n-- {
		switch r.Intn(6) {
		case 0:
			t = append(t, r.Intn(32))
		case 1:
			t = append(t, []int{34, 92, 47, 98, 127, 128, 0x2028, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff}[r.Intn(14)])
		case 2:
			for {
				if c := r.Intn(0x110000); c < 0xd800 || c > 0xdfff {
					t = append(t, c)
					break
				}
			}
		default:
			t = append(t, 32+r.Intn(96))
		}
	}
	return t
}

// Value is the encoding of a random value
func Value(r *rand.Rand, depth int) []int {
	k := r.Intn(9)
	if depth <= 0 && k >= 6 {
		k = r.Intn(6)
	}
	if depth > 0 && r.Intn(150) == 0 { // many
		n := r.Intn(120)
		e := []int{5, n}
		for ; n > 0; n-- {
			e = append(e, Value(r, 0)...)
		}
		return e
	}
	if depth > 0 && r.Intn(150) == 0 {
		n := r.Intn(60)
		e := []int{6, n}
		for i := 0; i < n; i++ {
			e = append(e, str(string([]byte{byte('a' + i/26), byte('a' + i%26)}))...)
			e = append(e, Value(r, 0)...)
		}
		return e
	}
	switch k {
	case 0, 1:
		n := h.OfString(Number(r))
		return append([]int{3, len(n)}, n...)
	case 2, 3:
		t := Text(r, 1+h.N(r, 6))
		return append([]int{4, len(t)}, t...)
	case 4:
		return []int{1 + r.Intn(2)}
	case 5:
		return []int{0}
	case 6, 7:
		n := r.Intn(5)
		e := []int{5, n}
		for ; n > 0; n-- {
			e = append(e, Value(r, depth-1)...)
		}
		return e
	}
	m := map[string][]int{}
	var keys []string
	for n := r.Intn(4); n > 0; n-- {
		k := h.Runes(Text(r, 2))
		if _, have := m[k]; !have {
			keys = append(keys, k)
			m[k] = Value(r, depth-1)
		}
	}
	sort.Strings(keys)
	e := []int{6, len(keys)}
	for _, k := range keys {
		e = append(e, str(k)...)
		e = append(e, m[k]...)
	}
	return e
}
