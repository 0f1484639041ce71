// Package glue replays behaviours of Glue.tla into the glue generated for programs.
package glue

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sync"
	"time"

	"github.com/zeldovich/go-rpcgen/xdr"
	"verifdrv/codec"
)

// Call is a call of a method that has not returned.
type Call struct {
	K    int
	Arg  interface{} // pointer to the argument, nil if void
	Out  interface{} // pointer to the result, nil if void
	Go   chan struct{}
	Seen chan struct{}
}

// Rec is what the methods of all programs call.
type Rec struct {
	F func(c *Call)
}

// Call is called by method k.
func (r *Rec) Call(k int, arg, out interface{}) {
	r.F(&Call{K: k, Arg: arg, Out: out})
}

// Version is a version of a program: its registrations with methods that report to r.
type Version struct {
	P, V int
	Regs func(r *Rec) []xdr.ProcRegistration
}

// Const is a number that the code declares, and what it should be.
type Const struct {
	N    string
	V    uint32
	Want uint32
}

type Proc struct {
	P   int         `json:"p"`
	V   int         `json:"v"`
	N   string      `json:"n"`
	A   *codec.Type `json:"a"`
	R   *codec.Type `json:"r"`
	Reg [3]B        `json:"reg"`
}

type Table struct {
	Env   codec.Env `json:"env"`
	Procs []Proc    `json:"procs"`
}

type B []byte

func (b *B) UnmarshalJSON(j []byte) error {
	var w []int
	if err := json.Unmarshal(j, &w); err != nil {
		return err
	}
	*b = make([]byte, len(w))
	for i, x := range w {
		(*b)[i] = byte(x)
	}
	return nil
}

func word(b B) uint32 { return binary.BigEndian.Uint32(b) }

var (
	patience = 8 * time.Second
	out      = bufio.NewWriter(os.Stdout)
	nobs     int
	stats    = map[string]int{}
	current  int
	obsMu    sync.Mutex
)

func observe(prop, f string, a ...interface{}) {
	obsMu.Lock()
	defer obsMu.Unlock()
	nobs++
	if nobs > 3 {
		patience = time.Second
	}
	j, _ := json.Marshal(map[string]interface{}{"prop": prop, "case": current, "msg": fmt.Sprintf(f, a...)})
	out.Write(j)
	out.WriteByte('\n')
	out.Flush()
	if nobs >= 60 {
		finish()
		os.Exit(0)
	}
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}

func finish() {
	j, _ := json.Marshal(map[string]interface{}{"stats": stats})
	out.Write(j)
	out.WriteByte('\n')
	out.Flush()
}

func head(p []byte) []byte {
	if len(p) > 64 {
		return p[:64]
	}
	return p
}

func enc(v xdr.Xdrable) []byte {
	b, err := xdr.EncodeBuf(v)
	if err != nil {
		return []byte("does not encode: " + err.Error())
	}
	return b
}

// arg is the argument of a call as a model value.
func (t *Table) arg(c *Call) interface{} {
	if c.Arg == nil {
		return []interface{}{}
	}
	return t.Env.Project(t.Procs[c.K-1].A, reflect.ValueOf(c.Arg).Elem())
}

func eachLine(path string, f func(j []byte)) {
	fh, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	rd := bufio.NewReaderSize(fh, 1<<20)
	for {
		l, err := rd.ReadBytes('\n')
		if l = bytes.TrimSpace(l); len(l) > 0 {
			var s string
			if e := json.Unmarshal(l, &s); e != nil {
				fatal(e)
			}
			f([]byte(s))
			current++
		}
		if err != nil {
			break
		}
	}
}

type step struct {
	Op  string      `json:"op"`
	Id  int         `json:"id"`
	K   int         `json:"k"`
	B   B           `json:"b"`
	Ok  bool        `json:"ok"`
	V   interface{} `json:"v"`
	Lax bool        `json:"lax"`
}

type result struct {
	res xdr.Xdrable
	err error
	pan interface{}
}

type inv struct {
	call *Call
	done chan result
	v    interface{}
}

// Keeps the file of fd 2 from being collected, which would close it.
var realStderr = os.Stderr

var (
	versions []Version
	consts   []Const
)

// Main runs the driver: mode table file.
func Main(vs []Version, cs []Const, ct []Ctor) {
	versions, consts, ctors = vs, cs, ct
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0) // (fd 2 stays open: see realStderr)
	var t Table
	j, err := os.ReadFile(os.Args[2])
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(j, &t); err != nil {
		fatal(err)
	}
	switch os.Args[1] {
	case "regs":
		t.regs()
	case "replay":
		eachLine(os.Args[3], t.replay)
	default:
		more(os.Args[1], &t, os.Args[3:])
	}
	finish()
}

// regs compares the registrations with the declared ones.
func (t *Table) regs() {
	for _, c := range consts {
		stats["numbers"]++
		if c.V != c.Want {
			observe("C09", "%s is %d, and was declared as %d", c.N, c.V, c.Want)
		}
	}
	for _, v := range versions {
		want := map[[3]uint32]string{}
		for _, p := range t.Procs {
			if p.P == v.P && p.V == v.V {
				want[[3]uint32{word(p.Reg[0]), word(p.Reg[1]), word(p.Reg[2])}] = p.N
			}
		}
		got := v.Regs(&Rec{})
		seen := map[[3]uint32]bool{}
		for _, g := range got {
			k := [3]uint32{g.Prog, g.Vers, g.Proc}
			if _, ok := want[k]; !ok {
				observe("C09", "version %d of program %d registers %v, which it does not declare", v.V, v.P, k)
			}
			if seen[k] {
				observe("C09", "version %d of program %d registers %v twice", v.V, v.P, k)
			}
			seen[k] = true
			if g.Handler == nil {
				observe("C09", "the registration %v has no handler", k)
			}
		}
		for k, n := range want {
			if !seen[k] {
				observe("C09", "version %d of program %d does not register %s %v", v.V, v.P, n, k)
			}
		}
		stats["versions"]++
		stats["registrations"] += len(got)
		stats["traces"]++
	}
}

func (t *Table) handler(r *Rec, k int) func(*xdr.XdrState) (xdr.Xdrable, error) {
	p := t.Procs[k-1]
	for _, v := range versions {
		if v.P == p.P && v.V == p.V {
			for _, g := range v.Regs(r) {
				if g.Prog == word(p.Reg[0]) && g.Vers == word(p.Reg[1]) && g.Proc == word(p.Reg[2]) {
					return g.Handler
				}
			}
		}
	}
	return nil
}

// replay invokes registrations; one in two finds its argument behind a header.
func (t *Table) replay(j []byte) {
	var h []step
	if err := json.Unmarshal(j, &h); err != nil {
		fatal(err)
	}
	stats["traces"]++
	before := nobs
	calls := make(chan *Call, 64)
	rec := &Rec{func(c *Call) {
		c.Go, c.Seen = make(chan struct{}), make(chan struct{})
		calls <- c
		<-c.Go
	}}
	// one wrapper per version, as a server has, used by all the invocations
	byReg := map[[3]uint32]func(*xdr.XdrState) (xdr.Xdrable, error){}
	for _, v := range versions {
		for _, g := range v.Regs(rec) {
			k := [3]uint32{g.Prog, g.Vers, g.Proc}
			if _, dup := byReg[k]; !dup {
				byReg[k] = g.Handler
			}
		}
	}
	open := map[int]*inv{}
	defer func() {
		for _, i := range open {
			if i.call != nil {
				close(i.call.Go)
			}
		}
	}()
	for _, s := range h {
		p := t.Procs[s.K-1]
		if s.Op == "invoke" {
			f := byReg[[3]uint32{word(p.Reg[0]), word(p.Reg[1]), word(p.Reg[2])}]
			if f == nil {
				observe("C09", "%s is not registered", p.N)
				return
			}
			buf := append([]byte{}, s.B...)
			xs := xdr.MakeReader(buf)
			if s.Id%2 == 0 {
				xs = xdr.MakeReader(append([]byte{0, 0, 0, 1, 0, 0, 0, 2}, buf...))
				var hdr uint64
				xdr.XdrU64(xs, &hdr)
			}
			i := &inv{done: make(chan result, 1), v: s.V}
			go func() {
				var r result
				defer func() {
					r.pan = recover()
					i.done <- r
				}()
				r.res, r.err = f(xs)
			}()
			select {
			case i.call = <-calls:
				stats["method calls"]++
				if !s.Ok {
					open[s.Id] = i
					observe("C09", "%s is called although its argument (% x) does not decode", t.Procs[i.call.K-1].N, head(s.B))
					return
				}
				open[s.Id] = i
				if i.call.K != s.K {
					observe("C09", "an invocation of %s of program %d version %d calls the method %s of program %d version %d",
						p.N, p.P, p.V, t.Procs[i.call.K-1].N, t.Procs[i.call.K-1].P, t.Procs[i.call.K-1].V)
					return
				}
				if g := t.arg(i.call); !reflect.DeepEqual(g, s.V) {
					observe("C09", "%s is called with %v, not with its argument %v", p.N, g, s.V)
					return
				}
			case r := <-i.done:
				if r.pan != nil {
					observe("C09", "an invocation of %s panics: %v", p.N, r.pan)
					return
				}
				if s.Ok && !s.Lax {
					observe("C09", "an invocation of %s returns (error %v) without calling its method", p.N, r.err)
					return
				}
				if r.err == nil {
					observe("C09", "an invocation of %s whose argument (% x) does not decode returns no error", p.N, head(s.B))
					return
				}
				stats["refused arguments"]++
			case <-time.After(patience):
				observe("C09", "an invocation of %s neither calls its method nor returns", p.N)
				return
			}
			continue
		}
		i := open[s.Id]
		if i == nil {
			return // the argument was one that may be refused
		}
		delete(open, s.Id)
		if g := t.arg(i.call); !reflect.DeepEqual(g, i.v) {
			observe("C13", "the argument of %s changes to %v while its method runs", p.N, g)
			observe("C09", "the argument of %s changes to %v while its method runs", p.N, g)
			close(i.call.Go)
			return
		}
		if i.call.Out != nil {
			t.Env.Inject(p.R, s.V, reflect.ValueOf(i.call.Out).Elem())
		}
		close(i.call.Go)
		select {
		case r := <-i.done:
			switch {
			case r.pan != nil:
				observe("C09", "an invocation of %s panics: %v", p.N, r.pan)
			case r.err != nil:
				observe("C09", "an invocation of %s returns the error %v after calling its method", p.N, r.err)
			case r.res == nil && len(s.B) != 0:
				observe("C09", "an invocation of %s returns nothing, not what its method returned", p.N)
			case r.res != nil && !bytes.Equal(enc(r.res), s.B):
				observe("C09", "an invocation of %s returns % x, not what its method returned: % x", p.N, head(enc(r.res)), head(s.B))
			}
		case <-time.After(patience):
			observe("C09", "an invocation of %s does not return when its method does", p.N)
			return
		}
		select {
		case c := <-calls:
			close(c.Go)
			observe("C09", "an invocation of %s calls %s once more", p.N, t.Procs[c.K-1].N)
		default:
		}
		if nobs != before {
			return
		}
	}
}
