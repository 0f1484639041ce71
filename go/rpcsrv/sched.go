package main

import (
	"bytes"
	"encoding/json"
	"os"
	"runtime"
	"sync"
	"time"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// A schedule of RpcSched is driven through the server by holding every call
// at the points where the specification interleaves: in its handler, when its
// result is encoded, and in the transport's write.

type schedTable struct {
	Calls [][][][]struct {
		Rec   splitB `json:"rec"`
		Reply splitB `json:"reply"`
	} `json:"calls"`
	Early [][]splitB `json:"early"`
	Late  []B        `json:"late"`
}

// splitB is a sequence of bytes of which n are left out between a and b.
type splitB struct {
	A B   `json:"a"`
	N int `json:"n"`
	B B   `json:"b"`
}

var fills = map[[2]int][]byte{}

func (s splitB) whole(salt int) []byte {
	f, ok := fills[[2]int{s.N, salt}]
	if !ok {
		f = pattern(s.N, salt)
		fills[[2]int{s.N, salt}] = f
	}
	return append(append(append(make([]byte, 0, len(s.A)+s.N+len(s.B)), s.A...), f...), s.B...)
}

type schedCase struct {
	Plan []struct {
		Conn int    `json:"conn"`
		Size int    `json:"size"`
		Kind string `json:"kind"`
		Xid  int    `json:"xid"`
	} `json:"plan"`
	Steps []sstep `json:"steps"`
}

type sstep struct {
	op string
	c  int
}

func (s *sstep) UnmarshalJSON(j []byte) error {
	var a []interface{}
	if err := json.Unmarshal(j, &a); err != nil {
		return err
	}
	s.op, s.c = a[0].(string), int(a[1].(float64))
	return nil
}

// scall is one call and where it is held.
type scall struct {
	mu          sync.Mutex
	n           int
	early, late []byte // what its arguments should be
	rec, reply  []byte
	alias       []byte // its decoded argument, a slice of the request buffer
	alias2      []byte
	entries     int
	atExit      bool
	atEnc       bool
	atWrite     bool
	written     bool
	exit        chan struct{}
	enc         chan struct{}
	write       chan struct{}
	where       int // its connection
	window      bool
}

func (k *scall) get(f func() bool) bool { k.mu.Lock(); defer k.mu.Unlock(); return f() }
func (k *scall) set(f func())           { k.mu.Lock(); f(); k.mu.Unlock() }

func release(ch chan struct{}) {
	select {
	case <-ch:
	default:
		close(ch)
	}
}

// sres is a result that refers to the arguments.
type sres struct {
	k    *scall
	n    uint32
	fail bool
}

func (r *sres) Xdr(xs *xdr.XdrState) {
	r.k.set(func() { r.k.atEnc = true })
	<-r.k.enc
	if r.fail {
		xdr.XdrU32(xs, &r.n)
		xs.SetError("does not encode")
		return
	}
	a, b := r.k.alias, r.k.alias2
	xdr.XdrVarArray(xs, -1, &a)
	xdr.XdrU32(xs, &r.n)
	xdr.XdrVarArray(xs, -1, &b)
}

// overlap: 2: calls may be between their handler's return and the end of their
// write at the same time.  A server that encodes and writes the replies of a
// connection (1), or all replies (0), one at a time is in order as far as C13
// goes, and is only driven through schedules without such overlap.
var overlap = 2

func sched(table, cases string) {
	runtime.GOMAXPROCS(1) // so that pooled buffers are reused at once
	var t schedTable
	j, err := os.ReadFile(table)
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(j, &t); err != nil {
		fatal(err)
	}
	kinds := map[string]int{"echo": 1, "err": 2, "fail": 3, "none": 4}
	eachLine(cases, func(i int, j []byte) {
		if nobs > 20 {
			return
		}
		var sc schedCase
		if err := json.Unmarshal(j, &sc); err != nil {
			fatal(err)
		}
		if overlap < 2 && overlaps(&sc, overlap == 0) {
			stats["schedules with overlapping writes left out"]++
			return
		}
		var ks []*scall
		for n, p := range sc.Plan {
			e := t.Calls[n][p.Xid-1][p.Size-1][kinds[p.Kind]-1]
			ks = append(ks, &scall{n: n + 1, early: t.Early[n][p.Size-1].whole(n), late: t.Late[n], rec: e.Rec.whole(n), reply: e.Reply.whole(n), where: p.Conn,
				exit: make(chan struct{}), enc: make(chan struct{}), write: make(chan struct{})})
		}
		runSched(&sc, ks)
		stats["traces"]++
	})
}

func overlaps(sc *schedCase, all bool) bool {
	in := map[int]int{} // connection -> call that is being encoded or written
	for _, s := range sc.Steps {
		p := sc.Plan[s.c-1]
		if all {
			p.Conn = 0
		}
		if o := in[p.Conn]; o != 0 && o != s.c {
			return true
		}
		if s.op == "exit" || s.op == "enc" || (s.op == "feed" && p.Kind == "none") {
			in[p.Conn] = s.c
		}
		if s.op == "write" {
			in[p.Conn] = 0
		}
	}
	return false
}

func runSched(sc *schedCase, ks []*scall) {
	before := nobs
	base := runtime.NumGoroutine()
	srv := rfc1057.MakeServer()
	mk := func(kind string) func(*xdr.XdrState) (xdr.Xdrable, error) {
		return func(xs *xdr.XdrState) (xdr.Xdrable, error) {
			var early, late []byte
			var n uint32
			xdr.XdrVarArray(xs, -1, &early)
			var k *scall
			for _, c := range ks {
				if bytes.Equal(c.early, early) {
					k = c
				}
			}
			if k == nil || xs.Error() != nil {
				observe("C13", "a handler gets arguments that no call has: % x", head(early))
				return nil, errHandler
			}
			k.set(func() { k.entries++; k.alias = early; k.atExit = true })
			<-k.exit
			// the rest is decoded late
			xdr.XdrU32(xs, &n)
			xdr.XdrVarArray(xs, -1, &late)
			if xs.Error() != nil || n != uint32(1000+k.n) || !bytes.Equal(late, k.late) {
				observe("C13", "the arguments of call %d that its handler decodes late are not its own: %d, % x", k.n, n, head(late))
			}
			k.set(func() { k.alias2 = late })
			switch kind {
			case "echo":
				return &sres{k, n, false}, nil
			case "fail":
				return &sres{k, n, true}, nil
			}
			return nil, errHandler
		}
	}
	for p, kind := range []string{"echo", "err", "fail"} {
		srv.Register(7, 1, uint32(p+1), mk(kind))
	}

	conns := map[int]*Conn{}
	dones := map[int]chan error{}
	for _, p := range sc.Plan {
		if conns[p.Conn] != nil {
			continue
		}
		ci := p.Conn
		c := NewConn()
		conns[ci] = c
		c.onWr = func(w []byte) {
			var k *scall
			for n, q := range sc.Plan {
				if len(w) >= 8 && q.Conn == ci && word(B(w[4:8])) == uint32(q.Xid) {
					k = ks[n]
				}
			}
			if k == nil {
				observe("C13", "connection %d: a write that is the reply to none of its calls: % x", ci, head(w))
				return
			}
			before := append([]byte{}, w...)
			k.set(func() { k.atWrite = true })
			<-k.write
			switch {
			case !one(before):
				observe("C13", "call %d: its reply is not one whole record in a single write: % x", k.n, head(before))
			case !bytes.Equal(before, w):
				observe("C13", "call %d: its reply changes while it is being written", k.n)
			case !bytes.Equal(before, k.reply):
				observe("C13", "call %d: its reply is % x, not % x", k.n, head(before), head(k.reply))
			case k.get(func() bool { return k.written }):
				observe("C13", "call %d gets two replies", k.n)
			}
			k.set(func() { k.written = true })
		}
		d := make(chan error, 1)
		dones[ci] = d
		go func() { d <- srv.Run(c) }()
	}

	freeAll := func() {
		for _, k := range ks {
			release(k.exit)
			release(k.enc)
			release(k.write)
		}
	}
	excused := false
	arrived := func(k *scall, f func() bool) bool {
		wait := patience
		busy, near := false, false
		for _, o := range ks {
			if o != k && o.get(func() bool { return (o.atEnc || o.atWrite) && !o.written }) {
				busy = true
				near = near || o.where == k.where
				wait = 400 * time.Millisecond
			}
		}
		if await(wait, func() bool { return k.get(f) }) {
			return true
		}
		excused = busy
		if busy && near && overlap == 2 {
			overlap = 1
		} else if busy {
			overlap = 0
		}
		return false
	}
	fed := 0
	for n, s := range sc.Steps {
		k := ks[s.c-1]
		kind := sc.Plan[s.c-1].Kind
		ok := true
		switch s.op {
		case "feed":
			fed++
			conns[k.where].Feed(k.rec)
			ok = arrived(k, func() bool { return (kind == "none" && k.atWrite) || (kind != "none" && k.atExit) })
		case "exit":
			release(k.exit)
			ok = arrived(k, func() bool { return (kind == "err" && k.atWrite) || (kind != "err" && k.atEnc) })
		case "enc":
			release(k.enc)
			ok = arrived(k, func() bool { return k.atWrite })
		case "write":
			release(k.write)
			ok = arrived(k, func() bool { return k.written })
			for y := 0; y < 20; y++ { // let the request end
				runtime.Gosched()
			}
		}
		if nobs == before {
			for _, o := range ks {
				o.mu.Lock()
				if o.alias != nil && !o.written && !bytes.Equal(o.alias, o.early) {
					observe("C13", "the arguments of call %d changed before its reply was written (step %d: %s %d)", o.n, n+1, s.op, s.c)
				}
				if o.alias2 != nil && !o.written && !bytes.Equal(o.alias2, o.late) {
					observe("C13", "the late arguments of call %d changed before its reply was written (step %d: %s %d)", o.n, n+1, s.op, s.c)
				}
				o.mu.Unlock()
			}
		}
		if !ok && !excused && nobs == before {
			observe("C13", "step %d (%s %d) does not happen while other calls are held up", n+1, s.op, s.c)
		}
		if !ok || nobs != before {
			break
		}
		stats["steps"]++
	}
	freeAll()
	for n, k := range ks {
		_ = n
		if fed >= len(ks) && nobs == before && !await(patience, func() bool { return k.get(func() bool { return k.written }) }) {
			observe("C13", "call %d gets no reply", k.n)
		}
	}
	for ci, c := range conns {
		c.End("eof")
		await(patience, func() bool { return len(dones[ci]) > 0 })
	}
	quiesce(base)
	if nobs == before {
		for _, k := range ks {
			want := 1
			if sc.Plan[k.n-1].Kind == "none" {
				want = 0
			}
			if fed >= len(ks) && k.entries != want {
				observe("C13", "the handler of call %d runs %d times", k.n, k.entries)
			}
		}
	}
}
