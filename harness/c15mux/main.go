// Driver for routing of requests.
package main

import (
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/bantling/micro/rest"
	"verif/harness/h"
)

// pattern makes a regular expression
func pattern(p h.Op) string {
	s := ""
	if h.B(p["from"]) {
		s += "^"
	}
	for _, e := range h.As(p["parts"]) {
		part := h.As(e)
		switch h.S(part[0]) {
		case "lit":
			s += regexp.QuoteMeta(h.Runes(part[1]))
		case "seg":
			s += "([^/]+)"
		case "num":
			s += "([0-9]+)"
		case "uuid":
			s += rest.UUIDGroup
		default:
			h.Fail("part %v", part)
		}
	}
	if h.B(p["to"]) {
		s += "$"
	}
	if s == "" {
		s = "()" // the empty pattern is not allowed
		h.Fail("empty pattern")
	}
	return s
}

type answer struct {
	h      string
	parts  [][]int
	called int
}

type keyT struct{}

// handler stores what it is called with in the header of the response
type handler struct {
	name  string
	inner func()
}

func (t handler) Serve(w http.ResponseWriter, r *http.Request, parts []string) {
	a := w.(*recorder)
	a.called++
	a.h = t.name
	a.parts = [][]int{}
	for _, p := range parts {
		a.parts = append(a.parts, h.OfRunes(p))
	}
	if a.inner != nil {
		a.inner()
	}
}

type recorder struct {
	*httptest.ResponseRecorder
	answer
	inner func()
}

func request(mux *rest.ServeMux, method string, path any, inner func()) h.Op {
	rec := &recorder{ResponseRecorder: httptest.NewRecorder(), inner: inner}
	r := &http.Request{Method: method, URL: &url.URL{Path: h.Runes(path)}, Header: http.Header{}}
	mux.ServeHTTP(rec, r)
	parts := rec.parts
	if parts == nil {
		parts = [][]int{}
	}
	status := rec.Code
	if rec.called > 1 {
		status = -rec.called
	}
	return h.Op{"status": status, "h": rec.h, "parts": parts}
}

func register(mux *rest.ServeMux, reg h.Op, bad string) string {
	var (
		m          = h.S(reg["m"])
		p          = pattern(reg["pat"].(h.Op))
		hd         = rest.Handler(handler{name: h.S(reg["h"])})
		must       = len(h.S(reg["h"]))%2 == 0
		err  error = nil
	)
	if len(h.S(reg["h"]))%3 == 0 {
		hd = rest.HandlerFunc(hd.Serve)
	}
	switch bad {
	case "method":
		m = ""
	case "pattern":
		p = ""
	case "handler":
		hd = nil
	case "regex":
		p = "(" + p
	}
	if must {
		func() {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("%v", e)
				}
			}()
			mux.MustHandle(m, p, hd)
		}()
	} else {
		err = mux.Handle(m, p, hd)
	}
	if err != nil {
		return "err"
	}
	return ""
}

func exec(ops []h.Op) {
	mux := &rest.ServeMux{}
	for _, op := range ops {
		op := op
		name := h.S(op["op"])
		if h.Do(op, func() {
			switch name {
			case "handle":
				op["res"] = register(mux, op["reg"].(h.Op), h.S(op["bad"]))
			case "request":
				op["res"] = request(mux, h.S(op["m"]), op["path"], nil)
			case "reentrant":
				op["res"] = request(mux, h.S(op["m"]), op["path"], func() { register(mux, op["reg"].(h.Op), "") })
			case "concurrent":
				concurrent(mux, op)
			default:
				h.Fail("op %v", name)
			}
		}) {
			switch name {
			case "handle":
				op["res"] = "panic"
			case "concurrent":
				res := []h.Op{}
				for _, r := range h.As(op["reqs"]) {
					res = append(res, h.Op{"m": r.(h.Op)["m"], "path": r.(h.Op)["path"], "lo": 0, "hi": 0, "res": h.Op{"status": 0, "h": "panic", "parts": [][]int{}}})
				}
				op["res"] = res
			default:
				op["res"] = h.Op{"status": 0, "h": "panic", "parts": [][]int{}}
			}
		}
	}
}

// concurrent makes registrations in one thread, and requests in others
func concurrent(mux *rest.ServeMux, op h.Op) {
	var (
		started, done atomic.Int32
		wg            sync.WaitGroup
		reqs          = h.As(op["reqs"])
		threads       = h.I(op["threads"])
		out           = make([]h.Op, len(reqs))
		failed        atomic.Value
		guard         = func() {
			if e := recover(); e != nil {
				failed.Store(fmt.Sprint(e))
			}
			wg.Done()
		}
	)
	wg.Add(1 + threads)
	go func() {
		defer guard()
		for i, r := range h.As(op["regs"]) {
			if i%2 == 1 {
				runtime.Gosched()
			}
			started.Add(1)
			register(mux, r.(h.Op), "")
			done.Add(1)
		}
	}()
	for t := 0; t < threads; t++ {
		go func(t int) {
			defer guard()
			for i := t; i < len(reqs); i += threads {
				r := reqs[i].(h.Op)
				lo := int(done.Load())
				res := request(mux, h.S(r["m"]), r["path"], nil)
				out[i] = h.Op{"m": r["m"], "path": r["path"], "lo": lo, "hi": int(started.Load()), "res": res}
			}
		}(t)
	}
	wg.Wait()
	if e := failed.Load(); e != nil {
		panic(e)
	}
	op["res"] = out
}

// ---- random cases

func lit(s string) []any { return []any{"lit", h.OfRunes(s)} }

func pick(r *rand.Rand, ss ...string) string { return ss[r.Intn(len(ss))] }

func hexes(r *rand.Rand) string {
	b := []byte{}
	for i := 0; i < 36; i++ {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			b = append(b, '-')
		} else {
			b = append(b, "0123456789abcdefABCDEF"[r.Intn(22)])
		}
	}
	if r.Intn(4) == 0 {
		b[r.Intn(36)] = pick(r, "g", "-", "/", "0")[0]
	}
	return string(b)
}

func pat(r *rand.Rand) h.Op {
	parts := []any{}
	lits := []string{"/a", "/b", "/customer", "/", "/a.b", "/é", "/x+", "/(1)", "/a/"}
	for n := 1 + r.Intn(3); n > 0; n-- {
		parts = append(parts, lit(pick(r, lits...)))
		switch r.Intn(7) {
		case 0, 1:
			parts = append(parts, lit("/"), []any{"seg"})
		case 2:
			parts = append(parts, lit("/"), []any{"num"})
		case 3:
			parts = append(parts, lit("/"), []any{"uuid"})
		}
	}
	return h.Op{"from": r.Intn(4) > 0, "to": r.Intn(3) > 0, "parts": parts}
}

// a path that matches the pattern, perhaps with something changed
func path(r *rand.Rand, p h.Op) []int {
	s := ""
	if !h.B(p["from"]) && r.Intn(2) == 0 {
		s += pick(r, "/z", "/a", "x")
	}
	for _, e := range h.As(p["parts"]) {
		part := h.As(e)
		switch h.S(part[0]) {
		case "lit":
			s += h.Runes(part[1])
		case "seg":
			s += pick(r, "q", "a", "12", "a.b", "é x", "%2F", "-", "")
		case "num":
			s += pick(r, "0", "12", "007", "", "x", "1a", "-1")
		case "uuid":
			s += hexes(r)
		}
	}
	if r.Intn(4) == 0 {
		s += pick(r, "/", "x", "/a", "1", "\n")
	}
	if r.Intn(6) == 0 && len(s) > 0 {
		rs := []rune(s)
		at := r.Intn(len(rs))
		s = string(rs[:at]) + string(rs[at+1:])
	}
	return h.OfRunes(s)
}

func method(r *rand.Rand) string {
	return pick(r, "GET", "GET", "GET", "PUT", "PUT", "POST", "DELETE", "get")
}

func gen(r *rand.Rand, i int, tier string) (ops []h.Op) {
	var (
		regs = []h.Op{}
		reg  = func() h.Op {
			p := pat(r)
			if len(regs) > 0 && r.Intn(2) == 0 {
				p = regs[r.Intn(len(regs))]["pat"].(h.Op)
			}
			g := h.Op{"m": method(r), "pat": p, "h": fmt.Sprintf("h%d", len(regs))}
			regs = append(regs, g)
			return g
		}
		req = func() (string, []int) {
			if len(regs) == 0 {
				return method(r), h.OfRunes("/a")
			}
			return method(r), path(r, regs[r.Intn(len(regs))]["pat"].(h.Op))
		}
	)
	for n := 2 + h.NC(r, 9, 60); n > 0; n-- {
		switch k := r.Intn(12); {
		case k < 4:
			bad := ""
			if r.Intn(8) == 0 {
				bad = pick(r, "method", "pattern", "handler", "regex")
			}
			g := reg()
			if bad != "" {
				regs = regs[:len(regs)-1]
			}
			ops = append(ops, h.Op{"op": "handle", "reg": g, "bad": bad})
		case k < 5:
			m, p := req()
			ops = append(ops, h.Op{"op": "reentrant", "m": m, "path": p, "reg": reg()})
		case k < 7:
			rs := []any{}
			for n := 1 + h.NC(r, 5, 12); n > 0; n-- {
				rs = append(rs, reg())
			}
			qs := []any{}
			for n := 1 + r.Intn(12); n > 0; n-- {
				m, p := req()
				qs = append(qs, h.Op{"m": m, "path": p})
			}
			ops = append(ops, h.Op{"op": "concurrent", "regs": rs, "reqs": qs, "threads": 1 + r.Intn(4)})
		default:
			m, p := req()
			ops = append(ops, h.Op{"op": "request", "m": m, "path": p})
		}
	}
	return
}

func main() { h.Main(&h.Prop{Name: "mux", Gen: gen, Exec: exec}) }
