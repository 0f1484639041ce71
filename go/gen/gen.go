// Command gen runs the generator on the texts of GrammarCases.tla and in the histories of GenFiles.tla.
//
//	gen texts GENERATOR SCRATCH CASES
//	gen files GENERATOR SCRATCH TEXTS HISTORIES
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var (
	out     = bufio.NewWriter(os.Stdout)
	nobs    int
	stats   = map[string]int{}
	current int
	gen     string
	scratch string
	ndir    int
)

func observe(f string, a ...interface{}) {
	nobs++
	j, _ := json.Marshal(map[string]interface{}{"prop": "C08", "case": current, "msg": fmt.Sprintf(f, a...)})
	out.Write(j)
	out.WriteByte('\n')
	if nobs >= 60 {
		finish()
		os.Exit(0)
	}
}

func finish() {
	j, _ := json.Marshal(map[string]interface{}{"stats": stats})
	out.Write(j)
	out.WriteByte('\n')
	out.Flush()
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}

func check(err error) {
	if err != nil {
		fatal(err)
	}
}

func eachLine(path string, f func(j []byte)) {
	fh, err := os.Open(path)
	check(err)
	rd := bufio.NewReaderSize(fh, 1<<20)
	for {
		l, err := rd.ReadBytes('\n')
		if l = bytes.TrimSpace(l); len(l) > 0 {
			var s string
			check(json.Unmarshal(l, &s))
			f([]byte(s))
			current++
		}
		if err != nil {
			return
		}
	}
}

// A world is a directory tree in which the generator runs; TMPDIR is in it, too.
type world struct{ dir string }

func newWorld() world {
	ndir++
	d := filepath.Join(scratch, fmt.Sprint(ndir))
	check(os.MkdirAll(filepath.Join(d, "work", "sub"), 0777))
	check(os.MkdirAll(filepath.Join(d, "tmp"), 0777))
	return world{d}
}

func (w world) close() { os.RemoveAll(w.dir) }

func (w world) put(p string, b []byte) { check(os.WriteFile(filepath.Join(w.dir, "work", p), b, 0666)) }

// files is everything there is, with its contents.
func (w world) files() map[string]string {
	m := map[string]string{}
	check(filepath.Walk(w.dir, func(p string, fi os.FileInfo, err error) error {
		check(err)
		rel, _ := filepath.Rel(w.dir, p)
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			check(err)
			m[rel] = string(b)
		} else {
			m[rel] = fi.Mode().Type().String()
		}
		return nil
	}))
	return m
}

func (w world) run(args ...string) (code int, stderr string) {
	c := exec.Command(gen, args...)
	c.Dir = filepath.Join(w.dir, "work")
	c.Env = []string{"TMPDIR=" + filepath.Join(w.dir, "tmp"), "HOME=" + filepath.Join(w.dir, "tmp"), "PATH=/usr/bin:/bin"}
	var eb bytes.Buffer
	c.Stderr = &eb
	check(c.Start())
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		c.Process.Kill()
		<-done
		return -2, "does not end"
	}
	stats["generator runs"]++
	e := eb.String()
	if len(e) > 200 {
		e = e[:200]
	}
	return c.ProcessState.ExitCode(), strings.ReplaceAll(e, "\n", " ")
}

// diff names what is in b and not in a, or differs, and the other way around.
func diff(a, b map[string]string) []string {
	var d []string
	for p, x := range b {
		if y, ok := a[p]; !ok {
			d = append(d, p+" is there")
		} else if x != y {
			d = append(d, p+" is changed")
		}
	}
	for p := range a {
		if _, ok := b[p]; !ok {
			d = append(d, p+" is gone")
		}
	}
	sort.Strings(d)
	return d
}

type text struct {
	Text string `json:"text"`
	OK   bool   `json:"ok"`
	Why  string `json:"why"`
}

func short(s string) string {
	j, _ := json.Marshal(s)
	if len(j) > 400 {
		return string(j[:200]) + " ... " + string(j[len(j)-200:])
	}
	return string(j)
}

var options = [][]string{{}, {"-t", "t.go"}, {"-p", "abc"}, {"-t", "sub/t.go", "-unsigned-enum"}, {"-t", "t.go", "-const-type", "uint32"}, {"-d"}, {"-t", "t.go", "-d", "-unsigned-enum"}}

func texts(path string) {
	seen := map[string]bool{}
	eachLine(path, func(j []byte) {
		var t text
		check(json.Unmarshal(j, &t))
		if seen[t.Text] {
			return
		}
		seen[t.Text] = true
		stats["traces"]++
		stats["texts "+map[bool]string{true: "in", false: "outside"}[t.OK]+" the grammar"]++
		w := newWorld()
		defer w.close()
		opts := options[current%len(options)]
		w.put("in.x", []byte(t.Text))
		outs := map[string]bool{"work/o.go": true}
		for k := 0; k+1 < len(opts); k++ {
			if opts[k] == "-t" {
				outs["work/"+opts[k+1]] = true
			}
		}
		if current%2 == 0 {
			for p := range outs {
				w.put(strings.TrimPrefix(p, "work/"), []byte("what was in "+p+" before"))
			}
		}
		before := w.files()
		code, e := w.run(append([]string{"-i", "in.x", "-o", "o.go"}, opts...)...)
		after := w.files()
		if t.OK && code != 0 {
			observe("a text in the grammar is rejected (exit status %d: %s): %s", code, e, short(t.Text))
		}
		if !t.OK && code == 0 {
			observe("a text that is not in the supported grammar (%s) is accepted: %s", t.Why, short(t.Text))
		}
		if code != 0 {
			if d := diff(before, after); len(d) != 0 {
				observe("a run that fails (%s) leaves files changed: %s", e, strings.Join(d, ", "))
			}
			return
		}
		for p := range outs {
			if x, ok := after[p]; !ok || x == before[p] {
				observe("a run that succeeds does not write %s", p)
			}
			delete(after, p)
			delete(before, p)
		}
		if d := diff(before, after); len(d) != 0 {
			observe("a run that succeeds changes more than its outputs: %s", strings.Join(d, ", "))
		}
	})
}

type step struct {
	Disk map[string]string `json:"disk"`
	N    string            `json:"n"`
	O    struct {
		O, T, X string
		In      bool
	} `json:"o"`
	Out string `json:"out"`
}

func (s step) args() []string {
	a := []string{"-i", "missing.x"}
	if s.O.In {
		a[1] = s.N + ".x"
	}
	if s.O.O != "" {
		a = append(a, "-o", s.O.O)
	}
	if s.O.T != "" {
		a = append(a, "-t", s.O.T)
	}
	if s.O.X != "" {
		a = append(a, s.O.X)
	}
	return a
}

// alone is what a run does without any other files around.
type alone struct {
	code  int
	e     string
	files map[string]string
}

func files(textsPath, path string) {
	var txt map[string]string
	eachLine(textsPath, func(j []byte) { check(json.Unmarshal(j, &txt)) })
	current = 0
	refs := map[string]alone{}
	inputs := func(w world) {
		for n, t := range txt {
			w.put(n+".x", []byte(t))
		}
	}
	ref := func(s step) alone {
		k := strings.Join(s.args(), " ")
		r, ok := refs[k]
		if !ok {
			w := newWorld()
			inputs(w)
			r.code, r.e = w.run(s.args()...)
			r.files = w.files()
			w.close()
			refs[k] = r
		}
		return r
	}
	eachLine(path, func(j []byte) {
		var h []step
		check(json.Unmarshal(j, &h))
		w := newWorld()
		defer w.close()
		inputs(w)
		stats["traces"]++
		want := map[string]string{} // of the outputs
		for p, d := range h[0].Disk {
			if d == "old" {
				want[p] = strings.Repeat("what was in "+p+" before\n", 1000)
				w.put(p, []byte(want[p]))
			}
		}
		stale := current%7 == 3 && len(h) > 1
		for i, s := range h[1:] {
			before := w.files()
			last := i == len(h)-2
			tmp := "work/" + s.O.O + ".tmp"
			if stale && last && s.O.O != "" && before[filepath.Dir(tmp)] != "" {
				// What a run that was killed has left.
				w.put(s.O.O+".tmp", []byte("stale"))
				before[tmp] = "stale"
			} else {
				tmp = ""
			}
			r := ref(s)
			code, e := w.run(s.args()...)
			after := w.files()
			k := strings.Join(s.args(), " ")
			outcome := s.Out
			if outcome == "any" {
				outcome = "fail"
				if r.code == 0 {
					outcome = "ok"
				}
			}
			if outcome == "ok" && code != 0 && tmp == "" {
				observe("run %d (%s) fails: %s", i+1, k, e)
				return
			}
			if outcome == "fail" && code == 0 {
				observe("run %d (%s) succeeds, but must fail", i+1, k)
				return
			}
			if tmp != "" {
				if _, there := after[tmp]; !there {
					delete(before, tmp)
				}
			}
			if code != 0 {
				if d := diff(before, after); len(d) != 0 {
					observe("run %d (%s), which fails, leaves files changed: %s", i+1, k, strings.Join(d, ", "))
					return
				}
				continue
			}
			for p, x := range r.files {
				_, was := before[p]
				if !was || p == "work/"+s.O.O || p == "work/"+s.O.T {
					before[p] = x
				}
			}
			if d := diff(before, after); len(d) != 0 {
				observe("run %d (%s) succeeds, but its files are not those it writes into an empty directory: %s", i+1, k, strings.Join(d, ", "))
				return
			}
			for p, d := range s.Disk { // the model's idea of the files, which the checks above imply
				x, there := after["work/"+p]
				if d == "absent" && there || d != "absent" && !there || d == "old" && x != want[p] {
					if s.Out != "any" {
						observe("after run %d (%s), %s is not %s", i+1, k, p, d)
						return
					}
				}
			}
		}
	})
}

func main() {
	gen, scratch = os.Args[2], os.Args[3]
	switch os.Args[1] {
	case "texts":
		texts(os.Args[4])
	case "files":
		files(os.Args[4], os.Args[5])
	}
	finish()
}
