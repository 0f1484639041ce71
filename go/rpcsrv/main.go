package main

import (
	"encoding/json"
	"os"
	"runtime"
	"strconv"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// Keeps the file of fd 2 from being collected, which would close it.
var realStderr = os.Stderr

func main() {
	// The server reports what it drops on stderr, which is of no interest; panics go to fd 2 all the same.
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0) // (fd 2 stays open: see realStderr)
	switch os.Args[1] {
	case "seq":
		// a case is replayed with its records one at a time, or all at once
		eachLine(os.Args[2], func(i int, j []byte) { seq(i, j) })
	case "frame":
		frame(os.Args[2], os.Args[3])
	default:
		more(os.Args[1:])
	}
	finish()
}

// ------------------------------------------------------------ RpcServerSeq

type step struct {
	Op   string `json:"op"`
	Prog B      `json:"prog"`
	Vers B      `json:"vers"`
	Proc B      `json:"proc"`
	Kind string `json:"kind"`
	Id   int    `json:"id"`
	Want
}

func seq(i int, j []byte) {
	var h []step
	if err := json.Unmarshal(j, &h); err != nil {
		fatal(err)
	}
	stats["traces"]++
	srv := rfc1057.MakeServer()
	invs := &Invs{}
	decs := map[int]bool{}
	before := nwanted
	for k := 0; k < len(h) && nwanted == before; {
		if h[k].Op == "reg" {
			// one by one, or several at once
			var many []xdr.ProcRegistration
			for ; k < len(h) && h[k].Op == "reg"; k++ {
				s := h[k]
				f := handler(s.Kind, s.Id, invs, func() {})
				if i%3 == 0 || i%3 == 1 && k%2 == 0 {
					srv.RegisterMany(many)
					many = nil
					srv.Register(word(s.Prog), word(s.Vers), word(s.Proc), f)
				} else {
					many = append(many, xdr.ProcRegistration{Prog: word(s.Prog), Vers: word(s.Vers), Proc: word(s.Proc), Handler: f})
				}
				if s.Kind == "dec" {
					decs[s.Id] = true
				}
			}
			srv.RegisterMany(many)
			continue
		}
		base := runtime.NumGoroutine()
		c := NewConn()
		done := make(chan error, 1)
		go func() { done <- srv.Run(c) }()
		var wants []Want
		replies := 0
		stepwise := i%2 == 0
		for ; k < len(h) && h[k].Op == "rec"; k++ {
			w := h[k].Want
			wants = append(wants, w)
			rec := append([]byte{128 | byte(len(w.B)>>24), byte(len(w.B) >> 16), byte(len(w.B) >> 8), byte(len(w.B))}, w.B...)
			c.Feed(rec)
			stats["records"]++
			if len(w.Reply) > 0 && !w.Lax {
				replies++
				if stepwise && !c.AwaitWrites(replies, patience) {
					break
				}
			}
		}
		if !c.AwaitWrites(replies, patience) {
			observe("C11", "call %d of the connection got no reply", len(c.Writes())+1)
		}
		c.End("eof")
		returned := false
		if !await(patience, func() bool {
			select {
			case <-done:
				returned = true
			default:
			}
			return returned
		}) {
			observe("C14", "the serving loop does not return at the end of the stream")
			return
		}
		quiesce(base)
		compare(wants, c.Writes(), invs.take(), decs)
	}
}

// -------------------------------------------------------------- RpcFraming

type frameCase struct {
	Sid    int    `json:"sid"`
	Pieces []int  `json:"pieces"`
	End    string `json:"end"`
	Pos    int    `json:"pos"`
	Acted  int    `json:"acted"`
	Mid    bool   `json:"mid"`
}

type streamsFile struct {
	Reg     []step `json:"reg"`
	Streams []struct {
		B    B      `json:"b"`
		Recs []Want `json:"recs"`
	} `json:"streams"`
}

func frame(streams, cases string) {
	var sf streamsFile
	j, err := os.ReadFile(streams)
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(j, &sf); err != nil {
		fatal(err)
	}
	hold := true // handlers of some cases are held up until the loop has returned
	eachLine(cases, func(i int, j []byte) {
		var fc frameCase
		if err := json.Unmarshal(j, &fc); err != nil {
			fatal(err)
		}
		stats["traces"]++
		st := sf.Streams[fc.Sid-1]
		wants := st.Recs[:fc.Acted]
		gate := make(chan struct{})
		held := hold && i%3 == 0
		if !held {
			close(gate)
		}
		srv := rfc1057.MakeServer()
		invs := &Invs{}
		for _, s := range sf.Reg {
			srv.Register(word(s.Prog), word(s.Vers), word(s.Proc), handler(s.Kind, s.Id, invs, func() { <-gate }))
		}
		base := runtime.NumGoroutine()
		c := NewConn()
		pos := 0
		for _, n := range fc.Pieces {
			c.Feed(st.B[pos : pos+n])
			pos += n
		}
		// A mark that is not final stops the loop: the stream need not end for that.
		stopped := fc.Mid && i%2 == 0 && stops(st.B[:pos])
		if !stopped {
			c.End(fc.End)
		}
		done := make(chan error, 1)
		go func() { done <- srv.Run(c) }()
		var rerr error
		returned := false
		poll := func() bool {
			if !returned {
				select {
				case rerr = <-done:
					returned = true
				default:
				}
			}
			return returned
		}
		t := patience
		if held {
			t /= 8
		}
		if !await(t, poll) && held {
			// Perhaps it waits for the calls it accepted.
			hold = false
			close(gate)
			held = false
			await(patience, poll)
		}
		if !returned {
			what := "at the end of the stream (" + fc.End + ")"
			if stopped {
				what = "at a mark that is not final"
			}
			observe("C14", "stream %d cut into %v: the serving loop does not return %s", fc.Sid, fc.Pieces, what)
			return
		}
		if held {
			close(gate)
		}
		if fc.Mid && rerr == nil {
			observe("C14", "stream %d cut into %v: the serving loop returns no error in the middle of a record", fc.Sid, fc.Pieces)
		}
		n := 0
		for _, w := range wants {
			if len(w.Reply) > 0 {
				n++
			}
		}
		c.AwaitWrites(n, patience)
		quiesce(base)
		frameCompare(fc, wants, c.Writes(), invs.take())
	})
}

// stops tells whether a stream has a mark that is not final where a mark is due.
func stops(b []byte) bool {
	for len(b) >= 4 {
		if b[0] < 128 {
			return true
		}
		n := int(word(B(b[:4])) & 0x7fffffff)
		if n > len(b)-4 {
			return false
		}
		b = b[4+n:]
	}
	return false
}

func frameCompare(fc frameCase, wants []Want, writes [][]byte, invs []Inv) {
	left := map[string]int{}
	for _, w := range wants {
		if len(w.Reply) > 0 {
			left[string(w.Reply)]++
		}
	}
	show := strconv.Itoa(fc.Sid)
	for _, p := range writes {
		if left[string(p)] == 0 {
			observe("C14", "stream %s, %d bytes in pieces %v: the server sends % x, which answers none of the %d records", show, fc.Pos, fc.Pieces, head(p), len(wants))
			return
		}
		left[string(p)]--
	}
	for r, n := range left {
		if n > 0 {
			observe("C14", "stream %s, %d bytes in pieces %v: no reply % x", show, fc.Pos, fc.Pieces, head([]byte(r)))
			return
		}
	}
	li := map[string]int{}
	for _, w := range wants {
		if w.Inv != 0 {
			li[string(w.Args[:len(w.Args)/4*4])]++
		}
	}
	for _, v := range invs {
		if li[string(v.Words)] == 0 {
			observe("C14", "stream %s, %d bytes in pieces %v: a handler runs for no record (arguments % x)", show, fc.Pos, fc.Pieces, head(v.Words))
			return
		}
		li[string(v.Words)]--
	}
	for _, n := range li {
		if n > 0 {
			observe("C14", "stream %s, %d bytes in pieces %v: a handler does not run", show, fc.Pos, fc.Pieces)
			return
		}
	}
	stats["streams as wanted"]++
}

func more(args []string) {
	switch args[0] {
	case "big":
		big(args[1], func(k string) string {
			if k == "frame" {
				return "C14"
			}
			return "C11"
		})
	case "crowd":
		crowd(args[1], args[2])
	case "sched":
		sched(args[1], args[2])
	default:
		fatal("unknown mode", args[0])
	}
}
