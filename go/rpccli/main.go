// Command rpccli replays behaviours of RpcClient into rfc1057.Client.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// patience is how long to wait for what must happen; less once things have gone wrong.
var patience = 8 * time.Second

type B []byte

func (b *B) UnmarshalJSON(j []byte) error {
	var w []int
	if err := json.Unmarshal(j, &w); err != nil {
		return err
	}
	*b = make([]byte, len(w))
	for i, x := range w {
		(*b)[i] = byte(x)
	}
	return nil
}

func word(b B) uint32 { return binary.BigEndian.Uint32(b) }

var (
	out     = bufio.NewWriter(os.Stdout)
	nobs    int
	stats   = map[string]int{}
	current int
)

// $VERIF_PROPS: the properties that are to be decided; observations of others do not end the run so soon.
var (
	nwanted int
	started = time.Now()
)

func wanted(prop string) bool {
	p := os.Getenv("VERIF_PROPS")
	return p == "" || strings.Contains(p, prop)
}

func observe(prop, f string, a ...interface{}) {
	nobs++
	if nobs > 3 {
		patience = time.Second
	}
	if nobs > 60 {
		patience = 300 * time.Millisecond
	}
	j, _ := json.Marshal(map[string]interface{}{"prop": prop, "case": current, "msg": fmt.Sprintf(f, a...)})
	out.Write(j)
	out.WriteByte('\n')
	out.Flush()
	if wanted(prop) {
		nwanted++
	}
	if nwanted >= 60 || nobs >= 60 && time.Since(started) > 100*time.Second {
		finish()
		os.Exit(0)
	}
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}

func head(p []byte) []byte {
	if len(p) > 64 {
		return p[:64]
	}
	return p
}

var errBroken = errors.New("scripted transport error")

// Conn is the client's transport.
type Conn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	pieces [][]byte
	ended  bool
	endErr error
	with   bool
	onWr   func(p []byte) error
}

func NewConn() *Conn {
	c := &Conn{}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *Conn) feed(b []byte, cut int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	defer c.cond.Broadcast()
	b = append([]byte{}, b...)
	switch cut {
	case 0: // all that is there at once, what was left included
		if n := len(c.pieces); n > 0 {
			c.pieces[n-1] = append(append([]byte{}, c.pieces[n-1]...), b...)
		} else {
			c.pieces = append(c.pieces, b)
		}
	case -1: // as it is
		c.pieces = append(c.pieces, b)
	case 1:
		for i := range b {
			c.pieces = append(c.pieces, b[i:i+1])
		}
	default: // uneven pieces and empty reads
		n := []int{0, 0, 3, 5, 30}[cut]
		for len(b) > 0 {
			if n > len(b) {
				n = len(b)
			}
			c.pieces = append(c.pieces, b[:n], nil)
			b = b[n:]
			n = n%7 + 1
		}
	}
}

func (c *Conn) end(how string) {
	c.mu.Lock()
	c.ended = true
	c.endErr = io.EOF
	if how == "err" {
		c.endErr = errBroken
	}
	c.with = how == "eofdata"
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *Conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	for len(c.pieces) == 0 && !c.ended {
		c.cond.Wait()
	}
	if len(c.pieces) == 0 {
		return 0, c.endErr
	}
	n := copy(p, c.pieces[0])
	if n == len(c.pieces[0]) {
		c.pieces = c.pieces[1:]
	} else {
		c.pieces[0] = c.pieces[0][n:]
	}
	if c.ended && c.with && len(c.pieces) == 0 {
		return n, c.endErr
	}
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	if err := c.onWr(p); err != nil {
		return 0, err
	}
	return len(p), nil
}

// ------------------------------------------------------ arguments, results

type rawArgs struct {
	mode string
	b    []byte
}

func (r *rawArgs) Xdr(xs *xdr.XdrState) {
	if r.mode == "fail" {
		xs.SetError("does not encode")
		return
	}
	for i := 0; i < len(r.b); i += 4 {
		w := binary.BigEndian.Uint32(r.b[i:])
		xdr.XdrU32(xs, &w)
	}
	if r.mode == "part" {
		s := "too long"
		xdr.XdrString(xs, 3, &s)
	}
}

type resString8 struct{ s string }

func (r *resString8) Xdr(xs *xdr.XdrState) { xdr.XdrString(xs, 8, &r.s) }

type resPair struct {
	a uint32
	s string
	o []byte
	f bool
}

func (r *resPair) Xdr(xs *xdr.XdrState) {
	xdr.XdrU32(xs, &r.a)
	xdr.XdrString(xs, 5, &r.s)
	xdr.XdrVarArray(xs, -1, &r.o)
	xdr.XdrBool(xs, &r.f)
}

type resList struct {
	p *node
}
type node struct {
	x    int32
	next resList
}

func (r *resList) Xdr(xs *xdr.XdrState) {
	some := r.p != nil
	xdr.XdrBool(xs, &some)
	if xs.Error() != nil {
		return
	}
	if !some {
		if xs.Decoding() {
			r.p = nil
		}
		return
	}
	if xs.Decoding() {
		r.p = &node{}
	}
	xdr.XdrS32(xs, &r.p.x)
	r.p.next.Xdr(xs)
}

// result makes a result variable that already holds something.
func result(kind string) xdr.Xdrable {
	switch kind {
	case "void":
		return &xdr.Void{}
	case "uint":
		v := xdr.Uint32(0x5eed5eed)
		return &v
	case "hyper":
		v := xdr.Int64(-7777777777)
		return &v
	case "string8":
		return &resString8{"sentinel"}
	case "pair":
		return &resPair{99, "five!", []byte("before"), true}
	case "list":
		return &resList{&node{1, resList{&node{2, resList{}}}}}
	}
	fatal("unknown result type", kind)
	return nil
}

func enc(v xdr.Xdrable) []byte {
	b, err := xdr.EncodeBuf(v)
	if err != nil {
		return []byte("does not encode: " + err.Error())
	}
	return b
}

// ------------------------------------------------------------------ replay

type auth struct {
	flavor uint32
	body   []byte
}

func (a *auth) UnmarshalJSON(j []byte) error {
	var p []B
	if err := json.Unmarshal(j, &p); err != nil {
		return err
	}
	a.flavor, a.body = word(p[0]), p[1]
	return nil
}

func (a auth) auth() rfc1057.Opaque_auth {
	return rfc1057.Opaque_auth{Flavor: rfc1057.Auth_flavor(a.flavor), Body: a.body}
}

type answer struct {
	X  string `json:"x"`
	Of int    `json:"of"`
	B  B      `json:"b"`
}

type trace struct {
	Prog  B `json:"prog"`
	Vers  B `json:"vers"`
	Steps []struct {
		C struct {
			Proc B    `json:"proc"`
			Cred auth `json:"cred"`
			Verf auth `json:"verf"`
			Args struct {
				Mode string `json:"mode"`
				B    B      `json:"b"`
			} `json:"args"`
		} `json:"c"`
		RT    string   `json:"rt"`
		Req   B        `json:"req"`
		Write bool     `json:"write"`
		Recs  []answer `json:"recs"`
		End   string   `json:"end"`
		Cut   int      `json:"cut"`
		Ok    bool     `json:"ok"`
		Res   B        `json:"res"`
		Touch bool     `json:"touch"`
		Lax   bool     `json:"lax"`
		May   bool     `json:"may"`
	} `json:"steps"`
}

func record(b []byte) []byte {
	h := make([]byte, 4)
	binary.BigEndian.PutUint32(h, 1<<31|uint32(len(b)))
	return append(h, b...)
}

func replay(j []byte) {
	var t trace
	if err := json.Unmarshal(j, &t); err != nil {
		fatal(err)
	}
	stats["traces"]++
	c := NewConn()
	cl := rfc1057.MakeClient(c, word(t.Prog), word(t.Vers))
	xids := map[int]uint32{}
	used := map[uint32]bool{}
	before := nobs
	var box [][]byte // records that have arrived and were not taken
	for i, s := range t.Steps {
		i := i + 1
		writes := 0
		c.onWr = func(p []byte) error {
			writes++
			p = append([]byte{}, p...)
			if !s.Write {
				observe("C16", "call %d, which does not encode, writes % x", i, head(p))
				return nil
			}
			if writes > 1 {
				observe("C16", "call %d writes more than once", i)
				return nil
			}
			if len(p) < 8 || !bytes.Equal(p[:4], record(p[4:])[:4]) {
				observe("C16", "call %d writes % x, which is not one whole record", i, head(p))
				return errBroken
			}
			xid := word(p[4:8])
			if used[xid] {
				observe("C16", "call %d uses the xid %#x once more", i, xid)
			}
			used[xid] = true
			xids[i] = xid
			if !bytes.Equal(p[8:], s.Req) {
				observe("C16", "call %d writes, after the xid, % x, not % x", i, head(p[8:]), head(s.Req))
			}
			if s.End == "wfail" {
				return errBroken
			}
			for _, a := range s.Recs {
				b := answerBytes(a, xids)
				box = append(box, b)
				c.feed(record(b), s.Cut)
			}
			good := append(binary.BigEndian.AppendUint32(nil, xid), 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
			good = append(good, enc(result(s.RT))...)
			switch s.End {
			case "", "cut":
			case "eof", "err", "eofdata":
				c.end(s.End)
			case "nonfinal":
				r := record(good)
				r[0] &= 0x7f
				c.feed(r, s.Cut)
				c.end("eof")
			case "nonfinal0":
				c.feed([]byte{0, 0, 0, 0}, s.Cut)
				c.feed(record(good), s.Cut)
				c.end("eof")
			case "claim":
				r := record(good)
				c.feed(append([]byte{0x80, 1, 0, r[3] + 4}, good...), s.Cut)
				c.end("eof")
			case "halfmark":
				c.feed([]byte{128, 0}, s.Cut)
				c.end("eof")
			}
			return nil
		}
		res := result(s.RT)
		was := enc(res)
		type ret struct {
			err error
			pan interface{}
		}
		done := make(chan ret, 1)
		go func() {
			var r ret
			defer func() {
				r.pan = recover()
				done <- r
			}()
			r.err = cl.Call(word(s.C.Proc), s.C.Cred.auth(), s.C.Verf.auth(), &rawArgs{s.C.Args.Mode, s.C.Args.B}, res)
		}()
		var r ret
		select {
		case r = <-done:
		case <-time.After(patience):
			observe("C15", "call %d does not return", i)
			if s.Ok && i > 1 {
				observe("C16", "call %d does not return", i)
			}
			c.end("eof")
			return
		}
		stats["calls"]++
		now := enc(res)
		later := false // the result is that of a record after the one to be taken
		if len(box) > 0 {
			for _, b := range box[1:] {
				later = later || bytes.HasSuffix(b, now) && !bytes.HasSuffix(box[0], now)
			}
			box = box[1:]
		}
		switch {
		case r.pan != nil:
			observe("C15", "call %d panics: %v", i, r.pan)
			return
		case s.Write && writes == 0 && !s.May:
			observe("C16", "call %d writes nothing", i)
		case !s.Write && r.err == nil:
			observe("C16", "call %d does not encode, but returns no error", i)
		case s.Write && r.err == nil && !s.Ok:
			observe("C15", "call %d returns no error, but its answer is not a matching, successful, decodable reply", i)
			if later {
				observe("C16", "call %d returns no error, with the result of a record after the one it had to take", i)
			}
		case s.Ok && r.err == nil && !bytes.Equal(now, s.Res):
			observe("C15", "call %d succeeds with the result % x, not % x", i, head(now), head(s.Res))
		case s.Ok && r.err != nil && !s.Lax:
			observe("C15", "call %d fails, though its answer is a matching, successful reply: %v", i, r.err)
			if i > 1 {
				observe("C16", "call %d fails, though its answer is a matching, successful reply: %v", i, r.err)
			}
		case !s.Touch && !bytes.Equal(now, was):
			observe("C15", "call %d fails, and changes the result variable to % x", i, head(now))
		}
		if nobs != before {
			return
		}
		if r.err == nil {
			stats["successful calls"]++
		}
	}
}

func answerBytes(a answer, xids map[int]uint32) []byte {
	if a.X == "raw" {
		return a.B
	}
	x := xids[a.Of]
	switch a.X {
	case "is":
	case "plus":
		x++
	case "minus":
		x--
	case "not":
		x = ^x
	case "high":
		x ^= 1 << 31
	case "swap":
		y := x<<24 | x>>24 | x<<8&0xff0000 | x>>8&0xff00
		if y == x {
			y += 256
		}
		x = y
	default:
		fatal("unknown xid", a.X)
	}
	return append(binary.BigEndian.AppendUint32(nil, x), a.B...)
}

// --------------------------------------------------------------------- big

type opaque struct{ b []byte }

func (o *opaque) Xdr(xs *xdr.XdrState) { xdr.XdrVarArray(xs, -1, &o.b) }

// big makes calls with records too big to be written out in the specification.
func big(path string) {
	var bf struct {
		Cases []struct {
			N     int `json:"n"`
			Pad   int `json:"pad"`
			Call  B   `json:"call"`
			Reply B   `json:"reply"`
		} `json:"cases"`
		Huge []struct {
			N     int `json:"n"`
			Pad   int `json:"pad"`
			Reply B   `json:"reply"`
		} `json:"huge"`
		Long struct {
			Calls int   `json:"calls"`
			Every int   `json:"every"`
			Back  []int `json:"back"`
		} `json:"long"`
		Zero struct {
			Call  B `json:"call"`
			Reply B `json:"reply"`
		} `json:"zero"`
	}
	j, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(j, &bf); err != nil {
		fatal(err)
	}
	c := NewConn()
	cl := rfc1057.MakeClient(c, 7, 1)
	for i, k := range bf.Cases {
		current = i
		stats["traces"]++
		data := make([]byte, k.N)
		x := uint32(i + 5)
		for n := range data {
			x = x*1664525 + 1013904223
			data[n] = byte(x >> 24)
		}
		writes := 0
		c.onWr = func(p []byte) error {
			writes++
			full := append(append(append([]byte{}, k.Call...), data...), make([]byte, k.Pad)...)
			if writes > 1 || len(p) != len(full) || !bytes.Equal(p[:4], full[:4]) || !bytes.Equal(p[8:], full[8:]) {
				observe("C16", "a call with %d bytes of data: write %d is not its record (%d bytes: % x ...)", k.N, writes, len(p), head(p))
				c.end("eof")
				return nil
			}
			rep := append(append(append([]byte{}, k.Reply...), data...), make([]byte, k.Pad)...)
			copy(rep[4:8], p[4:8])
			for len(rep) > 0 {
				n := 60000
				if n > len(rep) {
					n = len(rep)
				}
				c.feed(rep[:n], -1)
				rep = rep[n:]
			}
			return nil
		}
		var res opaque
		err := cl.Call(0, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &opaque{data}, &res)
		if nobs > 0 {
			return
		}
		if err != nil {
			observe("C15", "a call with a reply of %d bytes of data fails: %v", k.N, err)
			observe("C16", "a call with a reply of %d bytes of data fails: %v", k.N, err)
			return
		}
		if !bytes.Equal(res.b, data) {
			observe("C15", "a call with a reply of %d bytes of data succeeds with another result", k.N)
		}
		stats["big calls"]++
	}
	stats["traces"]++
	c = NewConn()
	cl = rfc1057.MakeClient(c, 7, 1)
	used := map[uint32]int{}
	xids := []uint32{}
	for i := 0; i < bf.Long.Calls && nobs == 0; i++ {
		back := 0
		if i%bf.Long.Every == bf.Long.Every-1 {
			back = bf.Long.Back[i/bf.Long.Every%len(bf.Long.Back)]
			if back > i {
				back = 0
			}
		}
		c.onWr = func(p []byte) error {
			if len(p) < 8 || !bytes.Equal(p[:4], bf.Zero.Call[:4]) || !bytes.Equal(p[8:], bf.Zero.Call[8:]) {
				observe("C16", "call %d of a client: % x is not its record", i+1, head(p))
				return errBroken
			}
			xid := word(p[4:8])
			if n, ok := used[xid]; ok {
				observe("C16", "call %d of a client uses the xid %#x once more, which call %d had", i+1, xid, n)
			}
			used[xid] = i + 1
			xids = append(xids, xid)
			rep := append([]byte{}, bf.Zero.Reply...)
			binary.BigEndian.PutUint32(rep[4:], xids[i-back])
			c.feed(rep, -1)
			return nil
		}
		var res opaque
		err := cl.Call(0, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &opaque{}, &res)
		if nobs > 0 {
			return
		}
		switch {
		case back == 0 && err != nil:
			observe("C15", "call %d of a client fails, though its answer is a matching, successful reply: %v", i+1, err)
			observe("C16", "call %d of a client fails, though its answer is a matching, successful reply: %v", i+1, err)
		case back != 0 && err == nil:
			observe("C15", "call %d of a client takes the reply to call %d for its own", i+1, i+1-back)
		}
		stats["calls of a long history"]++
	}
	for i, k := range bf.Huge {
		current = i
		stats["traces"]++
		c := &hugeConn{}
		cl := rfc1057.MakeClient(c, 7, 1)
		c.onWr = func(p []byte) {
			head := append([]byte{}, k.Reply...)
			copy(head[4:8], p[4:8])
			c.in = &hugeReader{head: head, n: k.N, tail: make([]byte, k.Pad)}
		}
		var res opaque
		for round := 0; round < 2; round++ { // the second: the client is in step
			res.b = nil
			debug.FreeOSMemory()
			if err := cl.Call(0, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, &res); err != nil {
				observe("C15", "call %d with a reply of %d bytes of data fails: %v", round+1, k.N, err)
				if round > 0 {
					observe("C16", "call %d with a reply of %d bytes of data fails: %v", round+1, k.N, err)
				}
				return
			}
			if !isHuge(res.b, k.N) {
				observe("C15", "call %d with a reply of %d bytes of data succeeds with another result", round+1, k.N)
				return
			}
		}
		stats["huge calls"]++
	}
}

type hugeConn struct {
	in   io.Reader
	onWr func(p []byte)
}

func (c *hugeConn) Read(p []byte) (int, error)  { return c.in.Read(p) }
func (c *hugeConn) Write(p []byte) (int, error) { c.onWr(p); return len(p), nil }

// block is what huge data consists of, over and over.
var block = func() []byte {
	b := make([]byte, 65521)
	for i := range b {
		b[i] = byte(i*7 + i>>8*31)
	}
	return b
}()

// hugeReader reads head, n bytes of blocks, and tail.
type hugeReader struct {
	head []byte
	n    int
	off  int
	tail []byte
}

func (r *hugeReader) Read(p []byte) (int, error) {
	switch {
	case len(p) == 0:
		return 0, nil
	case len(r.head) > 0:
		n := copy(p, r.head)
		r.head = r.head[n:]
		return n, nil
	case r.off < r.n:
		if len(p) > r.n-r.off {
			p = p[:r.n-r.off]
		}
		n := copy(p, block[r.off%len(block):])
		r.off += n
		return n, nil
	case len(r.tail) > 0:
		n := copy(p, r.tail)
		r.tail = r.tail[n:]
		return n, nil
	}
	return 0, io.EOF
}

func isHuge(b []byte, n int) bool {
	if len(b) != n {
		return false
	}
	for len(b) > 0 {
		k := len(block)
		if k > len(b) {
			k = len(b)
		}
		if !bytes.Equal(b[:k], block[:k]) {
			return false
		}
		b = b[k:]
	}
	return true
}

func main() {
	switch os.Args[1] {
	case "replay":
		fh, err := os.Open(os.Args[2])
		if err != nil {
			fatal(err)
		}
		rd := bufio.NewReaderSize(fh, 1<<20)
		for {
			l, err := rd.ReadBytes('\n')
			if l = bytes.TrimSpace(l); len(l) > 0 {
				var s string
				if e := json.Unmarshal(l, &s); e != nil {
					fatal(e)
				}
				replay([]byte(s))
				current++
			}
			if err != nil {
				break
			}
		}
	case "big":
		big(os.Args[2])
	}
	finish()
}

func finish() {
	j, _ := json.Marshal(map[string]interface{}{"stats": stats})
	out.Write(j)
	out.WriteByte('\n')
	out.Flush()
}
