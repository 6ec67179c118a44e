// Driver for the generator of directories and source files. Works as an unprivileged user, in a scratch directory of its
// own for every case.
package main

import (
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/bantling/micro/code"
	"github.com/bantling/micro/io/writer"
	"verif/harness/h"
)

const nobody = 65534

var drop sync.Once

// unprivileged gives up the privileges, after the engine opened its files
func unprivileged() {
	if os.Getuid() != 0 {
		return
	}
	if err := syscall.Setgroups([]int{}); err != nil {
		h.Fail("setgroups: %v", err)
	}
	if err := syscall.Setgid(nobody); err != nil {
		h.Fail("setgid: %v", err)
	}
	if err := syscall.Setuid(nobody); err != nil {
		h.Fail("setuid: %v", err)
	}
	if os.Getuid() != nobody || os.Geteuid() != nobody {
		h.Fail("still privileged")
	}
}

func must(err error) {
	if err != nil {
		h.Fail("%v", err)
	}
}

// tree lists everything below a directory
func tree(root string) []h.Op {
	r := []h.Op{}
	must(filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if p == root {
			return nil
		}
		rel, err := filepath.Rel(root, p)
		if err != nil {
			return err
		}
		e := h.Op{"p": strings.Split(rel, "/"), "k": "file", "s": ""}
		switch {
		case info.Mode()&os.ModeSymlink != 0:
			to, err := os.Readlink(p)
			if err != nil {
				return err
			}
			e["k"], e["s"] = "link", strings.TrimPrefix(to, root+"/")
		case info.IsDir():
			e["k"] = "dir"
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			e["s"] = string(b)
		}
		r = append(r, e)
		return nil
	}))
	sort.Slice(r, func(i, j int) bool {
		return strings.Join(r[i]["p"].([]string), "/") < strings.Join(r[j]["p"].([]string), "/")
	})
	return r
}

// spell writes a path in one of several ways
func spell(p []string, form string) string {
	switch s := strings.Join(p, "/"); form {
	case "plain", "rel":
		return s
	case "slash":
		return s + "/"
	case "dot":
		return "./" + s
	case "double":
		return strings.Join(p, "//")
	case "up":
		last := len(p) - 1
		return strings.Join(append(append([]string{}, p[:last]...), "none", "..", p[last]), "/")
	}
	h.Fail("form %s", form)
	return ""
}

func exec(ops []h.Op) {
	drop.Do(unprivileged)
	root, err := os.MkdirTemp("/tmp", "verif-gen-")
	must(err)
	// a scratch directory within, so that it is noticed if something beside the paths given is changed
	scratch := root + "/s"
	must(os.Mkdir(scratch, 0o755))
	must(os.Chdir(scratch))
	defer func() {
		os.Chdir("/")
		filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
			if err == nil && info.IsDir() {
				os.Chmod(p, 0o700)
			}
			return nil
		})
		os.RemoveAll(root)
	}()
	var (
		g    code.BaseGenerator
		base string
		srcs []writer.Writer[string]
		dead bool
	)
	for _, op := range ops {
		op := op
		same := true
		r := "ok"
		if dead && op["op"] != "new" {
			op["res"] = h.Op{"r": "ok", "same": true, "tree": []h.Op{}}
			continue
		}
		if h.Do(op, func() {
			switch h.S(op["op"]) {
			case "open":
				for _, e := range op["tree"].([]any) {
					x := h.M(e)
					p := scratch + "/" + strings.Join(h.Ss(x["p"]), "/")
					must(os.MkdirAll(filepath.Dir(p), 0o755))
					switch h.S(x["k"]) {
					case "dir":
						must(os.MkdirAll(p, 0o755))
					case "file":
						must(os.WriteFile(p, []byte(h.S(x["s"])), 0o644))
					case "link":
						must(os.Symlink(scratch+"/"+h.S(x["s"]), p))
					}
				}
			case "new":
				g, srcs, dead = code.BaseGenerator{}, nil, false
			case "setbase":
				given := scratch + "/" + spell(h.Ss(op["p"]), h.S(op["form"]))
				if op["form"] == "rel" {
					given = spell(h.Ss(op["p"]), "rel")
				}
				g.SetBasePath(given)
				base = given
			case "getbase":
				same = g.GetBasePath() == base
			case "dir":
				g.Dir(spell(h.Ss(op["p"]), h.S(op["form"])))
			case "src":
				g.Src(spell([]string{h.S(op["name"])}, h.S(op["form"])))
				srcs = append(srcs, g.CurrentSrc())
			case "lock", "unlock":
				// somebody else makes a directory read only, or no longer
				p := scratch + "/" + strings.Join(h.Ss(op["p"]), "/")
				if real, err := filepath.EvalSymlinks(p); err != nil || real != p {
					r = "none"
				} else if info, err := os.Lstat(p); err != nil || !info.IsDir() {
					r = "none"
				} else if op["op"] == "lock" {
					must(os.Chmod(p, 0o555))
				} else {
					must(os.Chmod(p, 0o755))
				}
			case "write":
				w := g.CurrentSrc()
				if at := h.I(op["at"]); at > 0 && at <= len(srcs) {
					w = srcs[at-1]
				} else {
					op["at"] = 0
				}
				if err := w.Write(h.Ss(op["ss"])...); err != nil {
					panic(err)
				}
			}
		}) {
			r = "panic"
			delete(op, "note")
			if op["op"] == "setbase" && base == "" {
				dead = true
			}
		}
		if op["op"] == "new" {
			base = ""
		}
		t := tree(scratch)
		if beside, err := os.ReadDir(root); err != nil || len(beside) != 1 {
			t = append(t, h.Op{"p": []string{"..", "beside"}, "k": "dir", "s": ""})
		}
		if op["op"] == "open" || op["op"] == "new" {
			op["tree"] = t
		}
		op["res"] = h.Op{"r": r, "same": same, "tree": t}
	}
}

var names = []string{"a", "b", "a b", ".h", "x.go", "Ä"}

func gen(r *rand.Rand, i int, tier string) []h.Op {
	name := func() string {
		if r.Intn(3) > 0 {
			return names[r.Intn(2)]
		}
		return names[r.Intn(len(names))]
	}
	path := func(n int) []string {
		p := []string{}
		for k := 1 + r.Intn(n); k > 0; k-- {
			p = append(p, name())
		}
		return p
	}
	// what is there: a tree as a map of its paths
	t := map[string]h.Op{}
	var add func(p []string, k, s string)
	add = func(p []string, k, s string) {
		if len(p) > 1 {
			add(p[:len(p)-1], "dir", "")
			if t[strings.Join(p[:len(p)-1], "/")]["k"] != "dir" {
				return
			}
		}
		if key := strings.Join(p, "/"); t[key] == nil {
			t[key] = h.Op{"p": p, "k": k, "s": s}
		}
	}
	add([]string{"out"}, "dir", "")
	add([]string{"out", "z"}, "file", "mine")
	for k := r.Intn(8); k > 0; k-- {
		p := path(4)
		switch r.Intn(6) {
		case 0:
			add(p, "link", "out")
		case 1, 2:
			add(p, "dir", "")
		default:
			add(p, "file", name())
		}
	}
	keys := []string{}
	for k := range t {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	all := []h.Op{}
	for _, k := range keys {
		all = append(all, t[k])
	}
	ops := []h.Op{{"op": "open", "tree": all}}
	form := func(fs ...string) string {
		if r.Intn(2) == 0 {
			return fs[0]
		}
		return fs[r.Intn(len(fs))]
	}
	var bases, dirs [][]string
	through := func(p []string) bool { // over a link, or a link itself
		for n := 1; n <= len(p); n++ {
			if e := t[strings.Join(p[:n], "/")]; e != nil && e["k"] == "link" {
				return true
			}
		}
		return false
	}
	setbase := func() {
		var p []string
		for try := 0; try == 0 || through(p); try++ {
			p = path(3)
			if len(bases) > 0 && r.Intn(2) == 0 {
				p = bases[r.Intn(len(bases))]
			} else if len(keys) > 2 && r.Intn(3) == 0 {
				p = t[keys[r.Intn(len(keys))]]["p"].([]string)
			}
			if try > 20 {
				p = []string{"fresh"}
			}
		}
		bases = append(bases, p)
		ops = append(ops, h.Op{"op": "setbase", "p": p, "form": form("plain", "rel", "slash", "dot", "double", "up")})
	}
	var locked [][]string
	if r.Intn(5) == 0 {
		// locked before the generator comes
		for m := 1 + r.Intn(2); m > 0; m-- {
			p := t[keys[r.Intn(len(keys))]]["p"].([]string)
			p = p[:1+r.Intn(len(p))]
			ops = append(ops, h.Op{"op": "lock", "p": p})
			locked = append(locked, p)
		}
	}
	if r.Intn(6) > 0 {
		setbase()
	}
	nsrc := 0
	for k := 3 + h.N(r, 25); k > 0; k-- {
		if len(locked) > 0 && r.Intn(5) == 0 {
			j := r.Intn(len(locked))
			ops = append(ops, h.Op{"op": "unlock", "p": locked[j]})
			locked = append(locked[:j:j], locked[j+1:]...)
		}
		switch x := r.Intn(42); {
		case x == 40 || x == 41 && r.Intn(2) == 0:
			// a directory of those that are there, or may be
			p := []string{"out"}
			switch y := r.Intn(4); {
			case y == 0:
				p = t[keys[r.Intn(len(keys))]]["p"].([]string)
			case y == 1 && len(bases) > 0 && len(dirs) > 0:
				p = append(append([]string{}, bases[len(bases)-1]...), dirs[r.Intn(len(dirs))]...)
			case y == 2 && len(bases) > 0:
				p = bases[len(bases)-1]
			case len(keys) > 2:
				p = t[keys[r.Intn(len(keys))]]["p"].([]string)
				p = p[:1+r.Intn(len(p))]
			}
			ops = append(ops, h.Op{"op": "lock", "p": p})
			locked = append(locked, p)
		case x == 0:
			ops = append(ops, h.Op{"op": "new"})
			if r.Intn(5) > 0 {
				setbase()
			}
			dirs, nsrc = nil, 0
		case x == 1:
			setbase()
		case x == 2:
			ops = append(ops, h.Op{"op": "getbase"})
		case x < 14:
			p := path(2)
			if len(dirs) > 0 && r.Intn(3) > 0 {
				p = append(append([]string{}, dirs[r.Intn(len(dirs))]...), name())
			} else if len(dirs) > 0 && r.Intn(3) == 0 {
				p = dirs[r.Intn(len(dirs))]
			} else if r.Intn(12) == 0 {
				p = path(5)
			}
			dirs = append(dirs, p)
			ops = append(ops, h.Op{"op": "dir", "p": p, "form": form("plain", "slash", "dot", "double", "up")})
		case x < 26:
			nsrc++
			ops = append(ops, h.Op{"op": "src", "name": name(), "form": form("plain", "plain", "dot")})
		default:
			// texts are ASCII, as texts of other characters are not compared reliably
			ss := []string{}
			for m := h.N(r, 4); m > 0; m-- {
				ss = append(ss, []string{"", "x", "line\n", "a b c", strings.Repeat("z", h.N(r, 40))}[r.Intn(5)])
			}
			ops = append(ops, h.Op{"op": "write", "at": r.Intn(nsrc+1) * r.Intn(2), "ss": ss})
		}
	}
	return ops
}

func main() { h.Main(&h.Prop{Name: "c25generator", Gen: gen, Exec: exec}) }
