package glue

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"io"
	"net"
	"os"
	"reflect"
	"runtime"
	"sync"
	"time"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// End to end: plans of E2EPlan.tla, carried out with the real client, server and glue; what happens is
// recorded, and checked against RpcE2E.tla afterwards.

// Ctor makes variables for the argument and the result of a procedure.
type Ctor struct {
	Arg, Res func() xdr.Xdrable
}

var ctors []Ctor

var stormPatience = 25 * time.Second

type argVal struct {
	V interface{} `json:"v"`
	B B           `json:"b"`
}

type vals struct {
	Args       []argVal      `json:"args"`
	Results    []interface{} `json:"results"`
	Cuts       []B           `json:"cuts"`
	BadArgs    []interface{} `json:"badargs"`
	BadResults []interface{} `json:"badresults"`
}

type cut struct {
	D string `json:"d"`
	N int    `json:"n"`
}

type plan struct {
	Tr    string `json:"tr"`
	Split int    `json:"split"`
	Bar   int    `json:"bar"`
	Oth   int    `json:"oth"`
	Hs    []struct {
		R int `json:"r"`
		W int `json:"w"`
	} `json:"hs"`
	Good []struct {
		C     int `json:"c"`
		Prog  B   `json:"prog"`
		Vers  B   `json:"vers"`
		Cut   cut `json:"cut"`
		Calls []struct {
			X    string `json:"x"`
			Proc B      `json:"proc"`
			K    int    `json:"k"`
			A    int    `json:"a"`
		} `json:"calls"`
	} `json:"good"`
	Multi []struct {
		C     int `json:"c"`
		Cut   cut `json:"cut"`
		Calls []struct {
			K int `json:"k"`
			A int `json:"a"`
			H B   `json:"h"`
		} `json:"calls"`
	} `json:"multi"`
	Raw []struct {
		C     int `json:"c"`
		Items []struct {
			T   string `json:"t"`
			K   int    `json:"k"`
			A   int    `json:"a"`
			H   B      `json:"h"`
			Rep bool   `json:"rep"`
		} `json:"items"`
		End string `json:"end"`
	} `json:"raw"`
}

type event map[string]interface{}

type storm struct {
	t     *Table
	v     []vals
	p     *plan
	mu    sync.Mutex
	cond  *sync.Cond
	log   []event
	over  bool
	used  int  // invocations
	busy  int  // clients that have not finished
	freed bool // nobody waits any more
	conns []net.Conn
}

func (s *storm) ev(e event) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.put(e)
}

func (s *storm) put(e event) {
	if !s.over {
		s.log = append(s.log, e)
		stats2("events")
	}
}

// index is the number of the first value that is equal.
func index(v interface{}, n int, at func(i int) interface{}) int {
	for i := 0; i < n; i++ {
		if reflect.DeepEqual(v, at(i)) {
			return i + 1
		}
	}
	return -1
}

func (s *storm) argIndex(k int, arg interface{}) int {
	var v interface{} = []interface{}{}
	if arg != nil {
		v = s.t.Env.Project(s.t.Procs[k-1].A, reflect.ValueOf(arg).Elem())
	}
	a := s.v[k-1].Args
	return index(v, len(a), func(i int) interface{} { return a[i].V })
}

func (s *storm) resIndex(k int, res xdr.Xdrable) int {
	var v interface{} = []interface{}{}
	if s.t.Procs[k-1].R.K != "void" {
		v = s.t.Env.Project(s.t.Procs[k-1].R, reflect.ValueOf(res).Elem())
	}
	r := s.v[k-1].Results
	return index(v, len(r), func(i int) interface{} { return r[i] })
}

// method is what every method does.
func (s *storm) method(c *Call) {
	vs := s.v[c.K-1]
	a := s.argIndex(c.K, c.Arg)
	s.mu.Lock()
	s.used++
	i := s.used
	s.put(event{"e": "enter", "i": i, "k": c.K, "a": a})
	s.cond.Broadcast()
	h := s.p.Hs[(i-1)%len(s.p.Hs)]
	switch {
	case i <= s.p.Bar:
		for s.used < s.p.Bar && !s.freed {
			s.cond.Wait()
		}
	case i == s.p.Oth:
		for s.busy > 1 && !s.freed {
			s.cond.Wait()
		}
	}
	s.mu.Unlock()
	switch h.W {
	case 1:
		runtime.Gosched()
	case 2:
		time.Sleep(time.Millisecond)
	}
	r := 1
	if h.R == 0 && len(vs.BadResults) > 0 {
		r = 0
	} else if h.R > 0 {
		r = h.R%len(vs.Results) + 1
	}
	if c.Out != nil {
		var v interface{}
		if r == 0 {
			v = vs.BadResults[i%len(vs.BadResults)]
		} else {
			v = vs.Results[r-1]
		}
		s.t.Env.Inject(s.t.Procs[c.K-1].R, v, reflect.ValueOf(c.Out).Elem())
	}
	s.ev(event{"e": "exit", "i": i, "a": s.argIndex(c.K, c.Arg), "r": r})
}

// conn is a client's side of a connection that fails.
type conn struct {
	net.Conn
	s    *storm
	c    int
	d    string
	left int
	mu   sync.Mutex
	dead bool
}

var errCut = errors.New("the connection is cut")

func (c *conn) fail() {
	c.mu.Lock()
	was := c.dead
	c.dead = true
	c.mu.Unlock()
	if !was {
		c.s.ev(event{"e": "cut", "c": c.c})
		c.Conn.Close()
	}
}

func (c *conn) Write(b []byte) (int, error) {
	if c.d == "w" {
		if len(b) > c.left {
			n, _ := c.Conn.Write(b[:c.left])
			c.left = 0
			c.fail()
			return n, errCut
		}
		c.left -= len(b)
	}
	return c.Conn.Write(b)
}

func (c *conn) Read(b []byte) (int, error) {
	if c.d == "r" {
		if c.left == 0 {
			c.fail()
			return 0, errCut
		}
		if len(b) > c.left {
			b = b[:c.left]
		}
		n, err := c.Conn.Read(b)
		c.left -= n
		return n, err
	}
	return c.Conn.Read(b)
}

// pieces is the server's side of a connection, which delivers little at a time.
type pieces struct {
	net.Conn
	n int
}

func (p pieces) Read(b []byte) (int, error) {
	if p.n > 0 && len(b) > p.n {
		b = b[:p.n]
	}
	return p.Conn.Read(b)
}

func (s *storm) dial(srv *rfc1057.Server, l net.Listener) net.Conn {
	var p, q net.Conn
	if s.p.Tr == "tcp" {
		acc := make(chan net.Conn, 1)
		go func() {
			c, err := l.Accept()
			if err != nil {
				fatal(err)
			}
			acc <- c
		}()
		var err error
		if p, err = net.Dial("tcp", l.Addr().String()); err != nil {
			fatal(err)
		}
		q = <-acc
	} else {
		p, q = net.Pipe()
	}
	s.conns = append(s.conns, p, q)
	go func() {
		srv.Run(pieces{q, s.p.Split})
		q.Close()
	}()
	return p
}

func (s *storm) flaky(c net.Conn, id int, f cut) *conn {
	x := &conn{Conn: c, s: s, c: id, d: f.D, left: f.N}
	if f.D == "t" {
		time.AfterFunc(time.Duration(f.N)*time.Microsecond, x.fail)
	}
	return x
}

// words encodes as it is.
type words []byte

func (w words) Xdr(xs *xdr.XdrState) {
	for i := 0; i+4 <= len(w); i += 4 {
		v := binary.BigEndian.Uint32(w[i:])
		xdr.XdrU32(xs, &v)
	}
}

func (s *storm) arg(k int, v interface{}) xdr.Xdrable {
	x := ctors[k-1].Arg()
	if s.t.Procs[k-1].A.K != "void" {
		s.t.Env.Inject(s.t.Procs[k-1].A, v, reflect.ValueOf(x).Elem())
	}
	return x
}

func (s *storm) good(i int, rw io.ReadWriter) {
	g := s.p.Good[i]
	cl := rfc1057.MakeClient(rw, word(g.Prog), word(g.Vers))
	for j, c := range g.Calls {
		k, a := 0, 0
		var arg xdr.Xdrable
		res := ctors[c.K-1].Res()
		switch c.X {
		case "ok":
			k, a = c.K, c.A
			arg = s.arg(c.K, s.v[c.K-1].Args[c.A-1].V)
		case "noproc":
			arg = s.arg(c.K, s.v[c.K-1].Args[c.A-1].V)
		case "badarg":
			arg = s.arg(c.K, s.v[c.K-1].BadArgs[c.A-1])
		case "garbage":
			arg = words(s.v[c.K-1].Cuts[c.A-1])
		}
		var none rfc1057.Opaque_auth
		s.ev(event{"e": "call", "c": g.C, "n": j + 1, "k": k, "a": a})
		stats2("calls")
		err := cl.Call(word(c.Proc), none, none, arg, res)
		e := event{"e": "ret", "c": g.C, "n": j + 1, "ok": err == nil, "r": 0}
		if err == nil {
			e["r"] = s.resIndex(c.K, res)
		}
		s.ev(e)
	}
}

func mark(b []byte) []byte {
	return append([]byte{128 | byte(len(b)>>24), byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
}

func readRecord(rw io.Reader) ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(rw, h[:]); err != nil {
		return nil, err
	}
	n := binary.BigEndian.Uint32(h[:])
	if n < 1<<31 || n-1<<31 > 1<<26 {
		return nil, errors.New("not a record")
	}
	b := make([]byte, n-1<<31)
	_, err := io.ReadFull(rw, b)
	return b, err
}

// multi has all its calls open at once.
func (s *storm) multi(i int, rw io.ReadWriter) {
	m := s.p.Multi[i]
	open := map[string]int{}
	var mu sync.Mutex
	done := make(chan bool)
	go func() {
		defer close(done)
		for j, c := range m.Calls {
			mu.Lock()
			open[string(c.H[:4])] = j + 1
			mu.Unlock()
			s.ev(event{"e": "call", "c": m.C, "n": j + 1, "k": c.K, "a": c.A})
			stats2("open calls")
			if _, err := rw.Write(mark(append(append([]byte{}, c.H...), s.v[c.K-1].Args[c.A-1].B...))); err != nil {
				return
			}
		}
	}()
	for n := 0; n < len(m.Calls); n++ {
		b, err := readRecord(rw)
		if err != nil {
			break
		}
		if len(b) < 24 {
			s.ev(event{"e": "odd", "c": m.C, "what": "short reply"})
			break
		}
		x := string(b[:4])
		mu.Lock()
		j := open[x]
		delete(open, x)
		mu.Unlock()
		if j == 0 {
			s.ev(event{"e": "odd", "c": m.C, "what": "reply to no call"})
			break
		}
		k := m.Calls[j-1].K
		e := event{"e": "ret", "c": m.C, "n": j, "ok": false, "r": 0}
		ok := true
		for i, w := range []byte{0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} {
			ok = ok && b[4+i] == w
		}
		if ok {
			res := ctors[k-1].Res()
			rd := xdr.MakeReader(b[24:])
			res.Xdr(rd)
			var more byte
			if rd.Error() == nil {
				xdr.XdrArray(rd, []byte{more})
				if rd.Error() == nil {
					s.ev(event{"e": "odd", "c": m.C, "what": "bytes after a result"})
				}
				e["ok"], e["r"] = true, s.resIndex(k, res)
			}
		}
		s.ev(e)
	}
	<-done
	// what has no reply, if the connection has failed, will have none
	for j := range m.Calls {
		mu.Lock()
		_, is := open[string(m.Calls[j].H[:4])]
		mu.Unlock()
		if is {
			s.ev(event{"e": "ret", "c": m.C, "n": j + 1, "ok": false, "r": 0})
		}
	}
}

func stats2(n string) {
	obsMu.Lock()
	stats[n]++
	obsMu.Unlock()
}

// raw sends anything.  It returns when it has done what it does while its connection is in order.
func (s *storm) raw(i int, rw net.Conn) {
	r := s.p.Raw[i]
	if r.End == "hang" {
		// nobody waits for it: it may never be able to write all that it has
		s.ev(event{"e": "cut", "c": r.C})
	}
	want := 0
	read := make(chan bool)
	if r.End == "read" {
		for _, it := range r.Items {
			if it.Rep {
				want++
			}
		}
		go func() {
			defer close(read)
			for ; want > 0; want-- {
				if _, err := readRecord(rw); err != nil {
					s.ev(event{"e": "odd", "c": r.C, "what": "no more replies"})
					return
				}
			}
		}()
	} else if r.End != "hang" {
		go io.Copy(io.Discard, rw)
		close(read)
	}
	send := func() {
		n := 0
		for _, it := range r.Items {
			b := append([]byte{}, it.H...)
			if it.T == "call" {
				n++
				s.ev(event{"e": "call", "c": r.C, "n": n, "k": it.K, "a": it.A})
				b = append(b, s.v[it.K-1].Args[it.A-1].B...)
			}
			stats2("raw records")
			if _, err := rw.Write(mark(b)); err != nil {
				return
			}
		}
	}
	switch r.End {
	case "hang":
		go send()
	case "read":
		send()
		<-read
	case "close", "fragment", "partial":
		send()
		s.ev(event{"e": "cut", "c": r.C})
		switch r.End {
		case "fragment":
			rw.Write([]byte{0, 0, 0, 4, 1, 2, 3, 4})
		case "partial":
			rw.Write([]byte{128, 0, 1, 0, 1, 2, 3, 4})
		}
		rw.Close()
	}
}

// run carries out a plan and returns what happened.
func (s *storm) run(l net.Listener) []event {
	s.cond = sync.NewCond(&s.mu)
	srv := rfc1057.MakeServer()
	rec := &Rec{s.method}
	for _, v := range versions {
		srv.RegisterMany(v.Regs(rec))
	}
	var wg sync.WaitGroup
	s.busy = len(s.p.Good)
	// all are connected before anything happens, so that whose connection is whose is certain
	var start []func()
	for i, g := range s.p.Good {
		i, c, f, id := i, s.dial(srv, l), g.Cut, g.C
		start = append(start, func() {
			s.good(i, s.flaky(c, id, f))
			s.mu.Lock()
			s.busy--
			s.cond.Broadcast()
			s.mu.Unlock()
		})
	}
	for i, m := range s.p.Multi {
		i, c, f, id := i, s.dial(srv, l), m.Cut, m.C
		start = append(start, func() { s.multi(i, s.flaky(c, id, f)) })
	}
	for i := range s.p.Raw {
		i, c := i, s.dial(srv, l)
		start = append([]func(){func() { s.raw(i, c) }}, start...)
	}
	for _, f := range start {
		f := f
		wg.Add(1)
		go func() {
			f()
			wg.Done()
		}()
	}
	all := make(chan bool)
	go func() {
		wg.Wait()
		close(all)
	}()
	select {
	case <-all:
		time.Sleep(3 * time.Millisecond)
		s.ev(event{"e": "end"})
	case <-time.After(stormPatience):
		s.ev(event{"e": "stuck"})
		stormPatience = 4 * time.Second
	}
	s.mu.Lock()
	s.over, s.freed = true, true
	s.cond.Broadcast()
	s.mu.Unlock()
	for _, c := range s.conns {
		c.Close()
	}
	return s.log
}

func more(mode string, t *Table, args []string) {
	if mode != "storm" {
		fatal("unknown mode", mode)
	}
	var v []vals
	j, err := os.ReadFile(args[0])
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(j, &v); err != nil {
		fatal(err)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fatal(err)
	}
	fh, err := os.Create(args[1])
	if err != nil {
		fatal(err)
	}
	w := bufio.NewWriter(fh)
	stuck := 0
	eachLine(args[2], func(j []byte) {
		if stuck >= 3 {
			return
		}
		s := &storm{t: t, v: v, p: new(plan)}
		if err := json.Unmarshal(j, s.p); err != nil {
			fatal(err)
		}
		e := s.run(l)
		stats2("traces")
		if e[len(e)-1]["e"] == "stuck" {
			stuck++
		}
		o, _ := json.Marshal(e)
		w.Write(append(o, '\n'))
	})
	w.Flush()
}
