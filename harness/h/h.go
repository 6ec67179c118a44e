// Package h is the shared driver engine: it executes cases (sequences of API calls) against the real code in /repo and
// records, for every call, the observable result. Cases come either from a seeded random generator or from behaviours that
// TLC generated from the specification. The engine never decides anything by itself: the verdict on a recorded case is
// TLC's (trace validation) or the result the specification attached to the behaviour (replay).
package h

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
)

// Op is one call: its name ("op"), its arguments, and after execution its result ("res", plus any further fields).
type Op = map[string]any

// Case is a sequence of calls against fresh objects.
type Case struct {
	ID  string `json:"id"`
	Ops []Op   `json:"ops"`
}

// Prop is the driver of one property.
type Prop struct {
	Name string
	// Gen generates the ops of random case number i. tier is quick or thorough.
	Gen func(r *rand.Rand, i int, tier string) []Op
	// Exec executes the ops against fresh objects, and fills in the results. It may panic inside an op, see Do.
	Exec func(ops []Op)
	// Compare lists the fields of an op that are results, for replaying behaviours (default "res").
	Compare []string
	// Timeout is how long a case may take until it counts as a hang (default 30s)
	Timeout time.Duration
	// Diff returns a (field, reason) difference between the expected op of a spec behaviour and the executed op, if it
	// is more involved than comparing fields
}

// Do runs f as the execution of op, and turns a panic into a result {"k":"panic"}.
// It returns true if f panicked.
func Do(op Op, f func()) (panicked bool) {
	Yield()
	defer func() {
		if e := recover(); e != nil {
			if _, isit := e.(harnessError); isit {
				panic(e)
			}
			op["res"] = map[string]any{"k": "panic"}
			op["note"] = short(fmt.Sprint(e))
			panicked = true
		}
	}()
	f()
	return false
}

// weaver runs several cases at a time in one thread: every call, and every call back into a driver, may go over to another
// case. What the calls of a case do must not depend on that.
type weaver struct {
	r     *rand.Rand
	wake  []chan struct{}
	alive []int
	cur   int
}

var weaving *weaver

// Yield is a place where another of the cases that are executed at a time may go on
func Yield() {
	w := weaving
	if w == nil {
		return
	}
	if me := w.cur; w.next() != me {
		<-w.wake[me]
	}
}

// next wakes one of the cases that have not ended
func (w *weaver) next() int {
	me, to := w.cur, w.alive[w.r.Intn(len(w.alive))]
	w.cur = to
	if to != me {
		w.wake[to] <- struct{}{}
	}
	return to
}

// weave executes cases at a time, in one thread, going over from one to another as r says
func (p *Prop) weave(cases [][]Op, r *rand.Rand) {
	w := &weaver{r: r}
	done := make(chan any, len(cases))
	for i := range cases {
		w.wake = append(w.wake, make(chan struct{}, 1))
		w.alive = append(w.alive, i)
	}
	for i := range cases {
		i := i
		go func() {
			<-w.wake[i]
			defer func() {
				e := recover()
				for k, a := range w.alive {
					if a == i {
						w.alive = append(w.alive[:k:k], w.alive[k+1:]...)
					}
				}
				if len(w.alive) > 0 {
					w.next()
				}
				done <- e
			}()
			p.Exec(cases[i])
		}()
	}
	weaving = w
	w.wake[0] <- struct{}{}
	var bad any
	for range cases {
		if e := <-done; e != nil {
			bad = e
		}
	}
	weaving = nil
	if bad != nil {
		panic(bad)
	}
}

// together executes cases in threads of their own
func (p *Prop) together(cases [][]Op) {
	done := make(chan any, len(cases))
	start := make(chan struct{})
	for i := range cases {
		i := i
		go func() {
			defer func() { done <- recover() }()
			<-start
			p.Exec(cases[i])
		}()
	}
	close(start)
	var bad any
	for range cases {
		if e := <-done; e != nil {
			bad = e
		}
	}
	if bad != nil {
		panic(bad)
	}
}

type harnessError struct{ s string }

// Fail reports a defect of the harness itself: the driver ends with exit code 9, which is never a violation.
func Fail(format string, a ...any) {
	panic(harnessError{fmt.Sprintf(format, a...)})
}

func short(s string) string {
	if len(s) > 200 {
		return s[:200]
	}
	return s
}

// K makes a result record with kind k, and alternating field names and values
func K(k string, kv ...any) map[string]any {
	m := map[string]any{"k": k}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	return m
}

// I gets an int argument (which is a float64 if it was read from JSON)
func I(v any) int {
	switch t := v.(type) {
	case int:
		return t
	case float64:
		return int(t)
	case bool:
		if t {
			return 1
		}
		return 0
	}
	Fail("not an int: %T %v", v, v)
	return 0
}

// S gets a string argument
func S(v any) string {
	s, ok := v.(string)
	if !ok {
		Fail("not a string: %T %v", v, v)
	}
	return s
}

// B gets a bool argument
func B(v any) bool {
	b, ok := v.(bool)
	if !ok {
		Fail("not a bool: %T %v", v, v)
	}
	return b
}

// Is gets an []int argument
func Is(v any) []int {
	switch t := v.(type) {
	case []int:
		return t
	case []any:
		r := make([]int, len(t))
		for i, e := range t {
			r[i] = I(e)
		}
		return r
	case nil:
		return []int{}
	}
	Fail("not an []int: %T %v", v, v)
	return nil
}

// Ss gets a []string argument
func Ss(v any) []string {
	switch t := v.(type) {
	case []string:
		return t
	case []any:
		r := make([]string, len(t))
		for i, e := range t {
			r[i] = S(e)
		}
		return r
	}
	Fail("not a []string: %T %v", v, v)
	return nil
}

// As gets an []any argument
func As(v any) []any {
	switch t := v.(type) {
	case []any:
		return t
	case []int:
		r := make([]any, len(t))
		for i, e := range t {
			r[i] = e
		}
		return r
	case []Op:
		r := make([]any, len(t))
		for i, e := range t {
			r[i] = e
		}
		return r
	}
	Fail("not an []any: %T %v", v, v)
	return nil
}

// M gets a record argument
func M(v any) map[string]any {
	m, ok := v.(map[string]any)
	if !ok {
		Fail("not a map: %T %v", v, v)
	}
	return m
}

// Bytes of a []int
func Bytes(v any) []byte {
	is := Is(v)
	r := make([]byte, len(is))
	for i, e := range is {
		r[i] = byte(e)
	}
	return r
}

// OfBytes makes a []int
func OfBytes(b []byte) []int {
	r := make([]int, len(b))
	for i, e := range b {
		r[i] = int(e)
	}
	return r
}

// OfString makes a []int of the bytes
func OfString(b string) []int { return OfBytes([]byte(b)) }

// OfRunes makes a []int of the code points
func OfRunes(s string) []int {
	r := []int{}
	for _, e := range s {
		r = append(r, int(e))
	}
	return r
}

// Runes makes a string of []int code points
func Runes(v any) string {
	var sb strings.Builder
	for _, e := range Is(v) {
		sb.WriteRune(rune(e))
	}
	return sb.String()
}

func copyOps(ops []Op) []Op {
	b, err := json.Marshal(ops)
	if err != nil {
		Fail("marshal: %v", err)
	}
	var r []Op
	if err := json.Unmarshal(b, &r); err != nil {
		Fail("unmarshal: %v", err)
	}
	return r
}

var current atomic.Int64

func (p *Prop) rng(seed int64, i int) *rand.Rand {
	hh := fnv.New64a()
	fmt.Fprintf(hh, "%s/%d/%d", p.Name, seed, i)
	return rand.New(rand.NewSource(int64(hh.Sum64())))
}

// run executes a case with a watchdog. A hang or runaway memory ends the process with code 7 after naming the case.
func (p *Prop) run(ops []Op, idx int, intent *os.File) {
	p.watch(func() { p.Exec(ops) }, idx, intent)
}

// runGroup is run for cases that are executed at a time
func (p *Prop) runGroup(cases [][]Op, idx int, intent *os.File, how string, r *rand.Rand) {
	p.watch(func() {
		if how == "weave" {
			p.weave(cases, r)
		} else {
			p.together(cases)
		}
	}, idx, intent)
}

func (p *Prop) watch(exec func(), idx int, intent *os.File) {
	if intent != nil {
		intent.WriteAt([]byte(fmt.Sprintf("%12d", idx)), 0)
	}
	to := p.Timeout
	if to == 0 {
		to = 60 * time.Second
	}
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		exec()
	}()
	deadline := time.NewTimer(to)
	defer deadline.Stop()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case e := <-done:
			if e != nil {
				if he, isit := e.(harnessError); isit {
					fmt.Fprintln(os.Stderr, "HARNESS ERROR:", he.s)
					os.Exit(9)
				}
				fmt.Fprintf(os.Stderr, "HARNESS ERROR: panic outside an op: %v\n", e)
				os.Exit(9)
			}
			return
		case <-tick.C:
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				fmt.Fprintf(os.Stderr, "RUNAWAY case %d: memory\n", idx)
				os.Exit(7)
			}
		case <-deadline.C:
			fmt.Fprintf(os.Stderr, "RUNAWAY case %d: no end after %v\n", idx, to)
			os.Exit(7)
		}
	}
}

// Main is the driver's main:
//
//	driver trace  -seed S -from A -n N -tier T -out FILE -intent FILE    random cases, executed
//	driver exec   -in FILE -out FILE                                     execute given cases (results are dropped first)
//	driver replay -in FILE -out FILE -intent FILE                        execute given behaviours, output those that differ
//	driver case   -seed S -from A -tier T -out FILE                      generate one case without executing it
func Main(p *Prop) {
	if len(os.Args) < 2 {
		os.Exit(9)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet("driver", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	from := fs.Int("from", 0, "")
	n := fs.Int("n", 1, "")
	tier := fs.String("tier", "quick", "")
	in := fs.String("in", "", "")
	out := fs.String("out", "", "")
	intentPath := fs.String("intent", "", "")
	how := fs.String("how", "", "weave or threads: execute that many cases at a time")
	size := fs.Int("size", 4, "")
	budget := fs.Float64("budget", 0, "stop generating after that many seconds")
	fs.Parse(os.Args[2:])
	if len(p.Compare) == 0 {
		p.Compare = []string{"res"}
	}

	var intent *os.File
	if *intentPath != "" {
		f, err := os.Create(*intentPath)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
			os.Exit(9)
		}
		intent = f
	}

	if err := os.MkdirAll(filepath.Dir(*out), 0o755); err != nil {
		os.Exit(9)
	}
	of, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
		os.Exit(9)
	}
	w := bufio.NewWriterSize(of, 1<<20)
	emit := func(v any) {
		b, err := json.Marshal(v)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR: marshal", err)
			os.Exit(9)
		}
		w.Write(b)
		w.WriteByte('\n')
	}

	start := time.Now()
	gen := func(i int) []Op {
		return copyOps(p.Gen(p.rng(*seed, i), i, *tier))
	}

	switch mode {
	case "case":
		emit(Case{fmt.Sprintf("s%d-%d", *seed, *from), gen(*from)})

	case "trace":
		if *how != "" {
			for i := *from; i < *from+*n; i += *size {
				var group [][]Op
				for k := i; k < i+*size && k < *from+*n; k++ {
					group = append(group, gen(k))
				}
				p.runGroup(group, i, intent, *how, p.rng(-1, i))
				for k, ops := range group {
					emit(Case{fmt.Sprintf("s%d-%d", *seed, i+k), ops})
				}
				w.Flush()
			}
			break
		}
		for i := *from; i < *from+*n; i++ {
			ops := gen(i)
			p.run(ops, i, intent)
			emit(Case{fmt.Sprintf("s%d-%d", *seed, i), ops})
			if i%64 == 0 {
				w.Flush()
				if *budget > 0 && time.Since(start).Seconds() > *budget {
					break
				}
			}
		}

	case "exec", "replay":
		f, err := os.Open(*in)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
			os.Exit(9)
		}
		sc := bufio.NewReaderSize(f, 1<<20)
		dec := json.NewDecoder(sc)
		i, nops, ndiff := 0, 0, 0
		if *how != "" {
			// one group; the schedule depends on the index of its first case
			var (
				group [][]Op
				all   []Case
				first int
			)
			for dec.More() {
				var c Case
				if err := dec.Decode(&c); err != nil {
					fmt.Fprintln(os.Stderr, "HARNESS ERROR: decode", err)
					os.Exit(9)
				}
				for _, op := range c.Ops {
					for _, f := range p.Compare {
						delete(op, f)
					}
					delete(op, "note")
				}
				if len(all) == 0 {
					fmt.Sscanf(c.ID[strings.LastIndexByte(c.ID, '-')+1:], "%d", &first)
				}
				all = append(all, c)
				group = append(group, c.Ops)
			}
			p.runGroup(group, first, intent, *how, p.rng(-1, first))
			for _, c := range all {
				emit(c)
			}
			break
		}
		for dec.More() {
			var c Case
			if err := dec.Decode(&c); err != nil {
				fmt.Fprintln(os.Stderr, "HARNESS ERROR: decode", err)
				os.Exit(9)
			}
			want := copyOps(c.Ops)
			for _, op := range c.Ops {
				for _, f := range p.Compare {
					delete(op, f)
				}
				delete(op, "note")
			}
			p.run(c.Ops, i, intent)
			nops += len(c.Ops)
			if mode == "exec" {
				emit(c)
			} else {
				got := copyOps(c.Ops)
				for k := range want {
					bad := ""
					for _, f := range p.Compare {
						if canon(want[k][f]) != canon(got[k][f]) {
							bad = f
						}
					}
					if bad != "" {
						ndiff++
						if ndiff <= 2000 {
							emit(map[string]any{"index": i, "id": c.ID, "at": k, "field": bad, "want": want[k], "ops": got})
						}
						break
					}
				}
			}
			i++
		}
		fmt.Printf("REPLAYED %d %d %d\n", i, nops, ndiff)

	default:
		os.Exit(9)
	}

	w.Flush()
	of.Close()
}

func canon(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		Fail("marshal: %v", err)
	}
	return string(b)
}

// Half decides by the arguments of a call, for half of all calls: whether to use the variant of a function that panics
func Half(op Op) bool {
	args := Op{}
	for k, v := range op {
		if k != "res" && k != "note" {
			args[k] = v
		}
	}
	b, err := json.Marshal(args)
	if err != nil {
		Fail("marshal: %v", err)
	}
	hh := fnv.New32a()
	hh.Write(b)
	s := hh.Sum32()
	return (s^s>>7^s>>16)&1 == 0
}

// Caught calls a function that panics with an error, and returns that error. Runtime errors are no such errors.
func Caught(f func()) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if x, isa := e.(error); isa {
				if _, isa = e.(runtime.Error); !isa {
					err = x
					return
				}
			}
			panic(e)
		}
	}()
	f()
	return nil
}

// O is the record v
func O(v any) Op {
	o, ok := v.(map[string]any)
	if !ok {
		Fail("not a record: %v", v)
	}
	return o
}

// N is a random size below n, and rarely a much larger one: behaviour can depend on how many there are
func N(r *rand.Rand, n int) int {
	if r.Intn(150) == 0 {
		return r.Intn(25*n + 1)
	}
	return r.Intn(n)
}

// NC is N with a limit
func NC(r *rand.Rand, n, limit int) int {
	if v := N(r, n); v < limit {
		return v
	}
	return limit
}
