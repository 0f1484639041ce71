// Command rpcsrv replays behaviours of the server specifications
// (RpcServerSeq, RpcFraming, RpcServer) into rfc1057.Server.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// patience is how long to wait for what must happen; less once things have gone wrong.
var patience = 8 * time.Second

// B is a byte string, written as an array of numbers by the specification.
type B []byte

func (b *B) UnmarshalJSON(j []byte) error {
	var w []int
	if err := json.Unmarshal(j, &w); err != nil {
		return err
	}
	*b = make([]byte, len(w))
	for i, x := range w {
		(*b)[i] = byte(x)
	}
	return nil
}

func word(b B) uint32 { return binary.BigEndian.Uint32(b) }

// Obs is something that went wrong.
type Obs struct {
	Prop string `json:"prop"`
	Case int    `json:"case"`
	Msg  string `json:"msg"`
}

var (
	out     = bufio.NewWriter(os.Stdout)
	nobs    int
	stats   = map[string]int{}
	current int
)

// $VERIF_PROPS: the properties that are to be decided; observations of others do not end the run so soon.
var (
	nwanted int
	started = time.Now()
)

func wanted(prop string) bool {
	p := os.Getenv("VERIF_PROPS")
	return p == "" || strings.Contains(p, prop)
}

func observe(prop, f string, a ...interface{}) {
	nobs++
	if nobs > 3 {
		patience = time.Second
	}
	if nobs > 60 {
		patience = 300 * time.Millisecond
	}
	j, _ := json.Marshal(Obs{prop, current, fmt.Sprintf(f, a...)})
	out.Write(j)
	out.WriteByte('\n')
	out.Flush()
	if wanted(prop) {
		nwanted++
	}
	if nwanted >= 60 || nobs >= 60 && time.Since(started) > 100*time.Second {
		finish()
		os.Exit(0)
	}
}

// eachLine calls f with every line of a file written by CSVWrite(ToJson(..)).
func eachLine(path string, f func(i int, j []byte)) {
	fh, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer fh.Close()
	rd := bufio.NewReaderSize(fh, 1<<20)
	for i := 0; ; i++ {
		l, err := rd.ReadBytes('\n')
		l = bytes.TrimSpace(l)
		if len(l) > 0 {
			var s string
			if e := json.Unmarshal(l, &s); e != nil {
				fatal(e)
			}
			current = i
			f(i, []byte(s))
		}
		if err != nil {
			return
		}
	}
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}

var errBroken = errors.New("scripted transport error")

// Conn is a scripted transport: bytes are handed over in the pieces they were
// fed in, reads block while there is nothing, and every write is recorded.
type Conn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	pieces [][]byte // an empty piece makes one read of no bytes
	ended  bool
	endErr error
	with   bool // the end is reported together with the last bytes
	writes [][]byte
	onWr   func(p []byte) // called with each write, before it is recorded
	wErr   func(n int) error
	reads  int
}

func NewConn() *Conn {
	c := &Conn{}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *Conn) Feed(b []byte) {
	c.mu.Lock()
	c.pieces = append(c.pieces, append([]byte{}, b...))
	c.cond.Broadcast()
	c.mu.Unlock()
}

// End ends the stream: how is eof, eofdata, err or errdata.
func (c *Conn) End(how string) {
	c.mu.Lock()
	c.ended = true
	c.endErr = io.EOF
	if how == "err" || how == "errdata" {
		c.endErr = errBroken
	}
	c.with = how == "eofdata" || how == "errdata"
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *Conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.reads++
	if len(p) == 0 {
		return 0, nil
	}
	for len(c.pieces) == 0 && !c.ended {
		c.cond.Wait()
	}
	if len(c.pieces) == 0 {
		return 0, c.endErr
	}
	n := copy(p, c.pieces[0])
	if n == len(c.pieces[0]) {
		c.pieces = c.pieces[1:]
	} else {
		c.pieces[0] = c.pieces[0][n:]
	}
	if c.ended && c.with && len(c.pieces) == 0 {
		return n, c.endErr
	}
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	if c.onWr != nil {
		c.onWr(p)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.writes = append(c.writes, append([]byte{}, p...))
	if c.wErr != nil {
		if e := c.wErr(len(c.writes)); e != nil {
			c.cond.Broadcast()
			return 0, e
		}
	}
	c.cond.Broadcast()
	return len(p), nil
}

func (c *Conn) Writes() [][]byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([][]byte{}, c.writes...)
}

// AwaitWrites waits until there are n writes.
func (c *Conn) AwaitWrites(n int, t time.Duration) bool {
	return await(t, func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		return len(c.writes) >= n
	})
}

// await polls, eagerly at first.
func await(t time.Duration, f func() bool) bool {
	for i := 0; i < 200; i++ {
		if f() {
			return true
		}
		runtime.Gosched()
	}
	dl := time.Now().Add(t)
	for d := 20 * time.Microsecond; ; {
		if f() {
			return true
		}
		if time.Now().After(dl) {
			return false
		}
		time.Sleep(d)
		if d < 5*time.Millisecond {
			d += d / 2
		}
	}
}

// quiesce waits until no more goroutines run than before the server did.
// A server may keep goroutines of its own, so not getting there is no error.
var quiet = 2 * time.Second

func quiesce(base int) {
	if !await(quiet, func() bool { return runtime.NumGoroutine() <= base }) {
		stats["goroutines left"]++
		quiet = 20 * time.Millisecond
	}
}

// Inv is one handler invocation.
type Inv struct {
	Id    int
	Words []byte
}

type Invs struct {
	mu sync.Mutex
	l  []Inv
}

func (v *Invs) add(i Inv) {
	v.mu.Lock()
	v.l = append(v.l, i)
	v.mu.Unlock()
}

func (v *Invs) take() []Inv {
	v.mu.Lock()
	defer v.mu.Unlock()
	l := v.l
	v.l = nil
	return l
}

// readWords reads the arguments a word at a time until there are no more.
func readWords(xs *xdr.XdrState) []byte {
	b := []byte{}
	for {
		var w uint32
		xdr.XdrU32(xs, &w)
		if xs.Error() != nil {
			return b
		}
		b = binary.BigEndian.AppendUint32(b, w)
	}
}

// echoRes is the result of the handler kind "echo".
type echoRes struct {
	id uint32
	b  []byte
}

func (r *echoRes) Xdr(xs *xdr.XdrState) {
	n := uint32(len(r.b))
	xdr.XdrU32(xs, &r.id)
	xdr.XdrU32(xs, &n)
	for i := 0; i < len(r.b); i += 4 {
		w := binary.BigEndian.Uint32(r.b[i:])
		xdr.XdrU32(xs, &w)
	}
}

type failRes struct{ some bool }

func (r *failRes) Xdr(xs *xdr.XdrState) {
	if r.some {
		v := uint32(0xdeadbeef)
		xdr.XdrU32(xs, &v)
		s := "abc"
		xdr.XdrString(xs, 8, &s)
		s = "too long"
		xdr.XdrString(xs, 3, &s)
	} else {
		xs.SetError("does not encode")
	}
}

type decRes struct {
	id uint32
	s  string
	n  uint32
}

func (r *decRes) Xdr(xs *xdr.XdrState) {
	xdr.XdrU32(xs, &r.id)
	xdr.XdrString(xs, 8, &r.s)
	xdr.XdrU32(xs, &r.n)
}

var errHandler = errors.New("scripted handler error")

// handler makes a handler of one of the specification's kinds.
func handler(kind string, id int, invs *Invs, wait func()) func(*xdr.XdrState) (xdr.Xdrable, error) {
	return func(xs *xdr.XdrState) (xdr.Xdrable, error) {
		if kind == "dec" {
			var n uint32
			var s string
			xdr.XdrU32(xs, &n)
			xdr.XdrString(xs, 8, &s)
			invs.add(Inv{id, nil})
			wait()
			if err := xs.Error(); err != nil {
				return nil, err
			}
			return &decRes{uint32(id), s, n}, nil
		}
		w := readWords(xs)
		invs.add(Inv{id, w})
		wait()
		switch kind {
		case "echo":
			return &echoRes{uint32(id), w}, nil
		case "nil":
			return nil, nil
		case "void":
			return &xdr.Void{}, nil
		case "err":
			return nil, errHandler
		case "errres":
			return &echoRes{uint32(id), w}, errHandler
		case "toolong":
			return &failRes{false}, nil
		case "partial":
			return &failRes{true}, nil
		}
		fatal("unknown handler kind", kind)
		return nil, nil
	}
}

// one reports whether p is exactly one whole record.
func one(p []byte) bool {
	return len(p) >= 4 && binary.BigEndian.Uint32(p) == uint32(len(p)-4)|1<<31
}

// Want is what the specification says of one record.
type Want struct {
	B     B    `json:"b"`
	Reply B    `json:"reply"`
	Inv   int  `json:"inv"`
	Args  B    `json:"args"`
	Lax   bool `json:"lax"`
}

// compare says how the writes and invocations differ from what is wanted.
// decs: the ids of handlers that do not report their arguments.
func compare(wants []Want, writes [][]byte, invs []Inv, decs map[int]bool) {
	compareReplies(wants, writes)
	compareInvs(wants, invs, decs)
}

func compareReplies(wants []Want, writes [][]byte) {
	left := map[string]int{}
	opt := map[string]int{}
	nstrict := 0
	for _, w := range wants {
		if len(w.Reply) == 0 {
			continue
		}
		if w.Lax {
			opt[string(w.Reply)]++
		} else {
			left[string(w.Reply)]++
			nstrict++
		}
	}
	for _, p := range writes {
		if !one(p) {
			observe("C13", "a write to the transport is not one whole record: % x", head(p))
		}
		switch {
		case left[string(p)] > 0:
			left[string(p)]--
			stats["replies"]++
		case opt[string(p)] > 0:
			opt[string(p)]--
		default:
			observe("C11", "a reply that no call asks for: % x (%s)", head(p), why(wants, p))
			return
		}
	}
	for r, n := range left {
		if n > 0 {
			observe("C11", "a call got no reply, or a wrong one; it should be % x", head([]byte(r)))
			return
		}
	}
}

func compareInvs(wants []Want, invs []Inv, decs map[int]bool) {
	type key struct {
		id int
		w  string
	}
	li, oi := map[key]int{}, map[key]int{}
	mk := func(id int, a []byte) key {
		if decs[id] {
			return key{id, ""}
		}
		return key{id, string(a[:len(a)/4*4])}
	}
	for _, w := range wants {
		if w.Inv != 0 {
			if w.Lax {
				oi[mk(w.Inv, w.Args)]++
			} else {
				li[mk(w.Inv, w.Args)]++
			}
		}
	}
	for _, v := range invs {
		k := mk(v.Id, v.Words)
		switch {
		case li[k] > 0:
			li[k]--
			stats["invocations"]++
		case oi[k] > 0:
			oi[k]--
		default:
			observe("C12", "handler %d ran with arguments % x, which no call on the connection asks for (once more)", v.Id, head(v.Words))
			return
		}
	}
	for k, n := range li {
		if n > 0 {
			observe("C12", "handler %d did not run for a call with arguments % x", k.id, head([]byte(k.w)))
			return
		}
	}
}

func why(wants []Want, p []byte) string {
	if len(p) >= 8 {
		for _, w := range wants {
			if len(w.B) >= 4 && bytes.Equal(w.B[:4], p[4:8]) {
				if len(w.Reply) == 0 {
					return "the record with its xid should get none"
				}
				return fmt.Sprintf("the one for its xid is % x", head(w.Reply))
			}
		}
	}
	return "no record has its xid"
}

func head(p []byte) []byte {
	if len(p) > 64 {
		return p[:64]
	}
	return p
}

func finish() {
	j, _ := json.Marshal(map[string]interface{}{"stats": stats})
	out.Write(j)
	out.WriteByte('\n')
	out.Flush()
}
