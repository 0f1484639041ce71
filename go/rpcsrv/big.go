package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"io"
	"os"
	"runtime/debug"
	"sync"
	"time"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

type bigFile struct {
	Cases []struct {
		N     int `json:"n"`
		Pad   int `json:"pad"`
		Call  B   `json:"call"`
		Reply B   `json:"reply"`
	} `json:"cases"`
	Huge []struct {
		N      int `json:"n"`
		Pad    int `json:"pad"`
		Call   B   `json:"call"`
		Answer B   `json:"answer"`
	} `json:"huge"`
	Claims []B `json:"claims"`
	Zero   struct {
		Call  B `json:"call"`
		Reply B `json:"reply"`
	} `json:"zero"`
}

func pattern(n, salt int) []byte {
	b := make([]byte, n)
	x := uint32(n*31 + salt)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

type opaque struct{ b []byte }

func (o *opaque) Xdr(xs *xdr.XdrState) { xdr.XdrVarArray(xs, -1, &o.b) }

// big serves records too big to be written out in the specification.
func big(path string, props func(kind string) string) {
	var bf bigFile
	j, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(j, &bf); err != nil {
		fatal(err)
	}
	serve := func(c *Conn, gate chan struct{}) chan error {
		srv := rfc1057.MakeServer()
		srv.Register(7, 1, 0, func(xs *xdr.XdrState) (xdr.Xdrable, error) {
			var o opaque
			o.Xdr(xs)
			<-gate
			if err := xs.Error(); err != nil {
				return nil, err
			}
			return &o, nil
		})
		done := make(chan error, 1)
		go func() { done <- srv.Run(c) }()
		return done
	}
	full := func(head []byte, n, pad, salt int) []byte {
		return append(append(append([]byte{}, head...), pattern(n, salt)...), make([]byte, pad)...)
	}
	// all on one connection, handlers held up until everything is in; and one by one
	for round := 0; round < 3; round++ {
		c := NewConn()
		gate := make(chan struct{})
		if round != 0 {
			close(gate)
		}
		done := serve(c, gate)
		piece := []int{1 << 16, 1<<30 - 1, 4099}[round]
		wants := map[int][]byte{}
		for i, k := range bf.Cases {
			if round == 2 && k.N > 1<<20 {
				continue
			}
			current = i
			rec := full(k.Call, k.N, k.Pad, i)
			wants[i] = full(k.Reply, k.N, k.Pad, i)
			for len(rec) > 0 {
				n := len(rec)
				if n > piece {
					n = piece
				}
				c.Feed(rec[:n])
				rec = rec[n:]
			}
			stats["big records"]++
			if round != 0 && !c.AwaitWrites(len(wants), 4*patience) {
				observe(props("frame"), "a record with %d bytes of data got no reply (pieces of %d bytes)", k.N, piece)
				return
			}
		}
		if round == 0 {
			time.Sleep(10 * time.Millisecond)
			close(gate)
			if !c.AwaitWrites(len(wants), 4*patience) {
				observe(props("frame"), "%d big records, %d replies", len(wants), len(c.Writes()))
			}
		}
		c.End("eof")
		if !await(patience, func() bool { return len(done) > 0 }) {
			observe(props("frame"), "the serving loop does not return after big records")
		}
		for _, p := range c.Writes() {
			ok := false
			for i, w := range wants {
				if bytes.Equal(p, w) {
					ok = true
					delete(wants, i)
					stats["big replies"]++
					break
				}
			}
			if !ok {
				observe(props("reply"), "a reply of %d bytes (% x ...) that is not the echo of a big record", len(p), head(p))
			}
		}
	}
	// claims that the stream does not make good
	for i, cl := range bf.Claims {
		current = i
		c := NewConn()
		gate := make(chan struct{})
		close(gate)
		c.Feed(cl)
		c.End([]string{"eof", "err", "eofdata"}[i%3])
		done := serve(c, gate)
		if !await(2*patience, func() bool { return len(done) > 0 }) {
			observe(props("frame"), "the serving loop does not return when a record of %#x bytes is cut off", binary.BigEndian.Uint32(cl))
		} else if err := <-done; err == nil {
			observe(props("frame"), "the serving loop returns no error when a record of %#x bytes is cut off", binary.BigEndian.Uint32(cl))
		}
		time.Sleep(2 * time.Millisecond)
		if n := len(c.Writes()); n > 0 {
			observe(props("frame"), "the server answers a record of %#x bytes that was cut off: % x", binary.BigEndian.Uint32(cl), head(c.Writes()[0]))
		}
		stats["cut off claims"]++
		// and other connections are served
		d := NewConn()
		d.Feed(bf.Zero.Call)
		done = serve(d, gate)
		if !d.AwaitWrites(1, patience) || !bytes.Equal(d.Writes()[0], bf.Zero.Reply) {
			observe(props("frame"), "a connection after a cut off record is not served")
		}
		d.End("eof")
		await(patience, func() bool { return len(done) > 0 })
	}
	hugeRecords(&bf, props)
	stats["traces"] += len(bf.Huge) + 3*len(bf.Cases) + len(bf.Claims)
}

// block is what huge data consists of, over and over.
var block = pattern(65521, 3)

// hugeReader reads head, n bytes of blocks, and tail.
type hugeReader struct {
	head []byte
	n    int
	off  int
	tail []byte
}

func (r *hugeReader) Read(p []byte) (int, error) {
	switch {
	case len(p) == 0:
		return 0, nil
	case len(r.head) > 0:
		n := copy(p, r.head)
		r.head = r.head[n:]
		return n, nil
	case r.off < r.n:
		if len(p) > r.n-r.off {
			p = p[:r.n-r.off]
		}
		n := copy(p, block[r.off%len(block):])
		r.off += n
		return n, nil
	case len(r.tail) > 0:
		n := copy(p, r.tail)
		r.tail = r.tail[n:]
		return n, nil
	}
	return 0, io.EOF
}

func isHuge(b []byte, n int) bool {
	if len(b) != n {
		return false
	}
	for len(b) > 0 {
		k := len(block)
		if k > len(b) {
			k = len(b)
		}
		if !bytes.Equal(b[:k], block[:k]) {
			return false
		}
		b = b[k:]
	}
	return true
}

type hugeConn struct {
	io.Reader
	mu     sync.Mutex
	writes [][]byte
}

func (c *hugeConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	c.writes = append(c.writes, append([]byte{}, p...))
	c.mu.Unlock()
	return len(p), nil
}

// hugeRecords serves a record of each huge size, and a small one after it.
func hugeRecords(bf *bigFile, props func(kind string) string) {
	for i, k := range bf.Huge {
		current = i
		c := &hugeConn{Reader: &hugeReader{head: k.Call, n: k.N, tail: append(make([]byte, k.Pad), bf.Zero.Call...)}}
		srv := rfc1057.MakeServer()
		right := make(chan bool, 10)
		srv.Register(7, 1, 0, func(xs *xdr.XdrState) (xdr.Xdrable, error) {
			var o opaque
			o.Xdr(xs)
			if err := xs.Error(); err != nil {
				return nil, err
			}
			n := xdr.Uint32(len(o.b))
			if n > 0 {
				right <- isHuge(o.b, k.N)
			}
			return &n, nil
		})
		done := make(chan error, 1)
		go func() { done <- srv.Run(c) }()
		got := func() [][]byte { c.mu.Lock(); defer c.mu.Unlock(); return append([][]byte{}, c.writes...) }
		if !await(8*patience, func() bool { return len(done) > 0 && len(got()) >= 2 }) {
			observe(props("frame"), "a record with %d bytes of data and one after it: %d replies", k.N, len(got()))
			return
		}
		select {
		case ok := <-right:
			if !ok {
				observe(props("frame"), "the handler gets something else than the %d bytes of data of a record", k.N)
			}
		default:
			observe(props("frame"), "no handler runs for a record with %d bytes of data", k.N)
		}
		n := 0
		for _, w := range got() {
			if bytes.Equal(w, k.Answer) {
				n++
			}
		}
		if n != 1 {
			observe(props("frame"), "%d replies to a record with %d bytes of data", n, k.N)
		}
		stats["huge records"]++
		debug.FreeOSMemory()
	}
}
