package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"os"
	"sync/atomic"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// Behaviours of RpcCrowd.

type crowdTable struct {
	Calls   map[string]B `json:"calls"`
	Replies map[string]B `json:"replies"`
}

func (t *crowdTable) with(m map[string]B, kind string, xid int) []byte {
	b := append([]byte{}, m[kind]...)
	binary.BigEndian.PutUint32(b[4:], uint32(xid))
	return b
}

func crowd(table, cases string) {
	var t crowdTable
	j, err := os.ReadFile(table)
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(j, &t); err != nil {
		fatal(err)
	}
	eachLine(cases, func(i int, j []byte) {
		if nobs > 5 {
			return
		}
		var h []struct {
			Op      string `json:"op"`
			Conn    int    `json:"conn"`
			From    int    `json:"from"`
			N       int    `json:"n"`
			Waiting int    `json:"waiting"`
		}
		if err := json.Unmarshal(j, &h); err != nil {
			fatal(err)
		}
		stats["traces"]++
		// A handler waits for a turn to go on: handlers that wait are interchangeable,
		// except for the connection that they answer.
		var in int64
		var conns []*Conn
		gates := []chan bool{}
		var dones []chan error
		for c := 0; c < 3; c++ {
			gate := make(chan bool)
			srv := rfc1057.MakeServer()
			srv.Register(7, 1, 1, func(*xdr.XdrState) (xdr.Xdrable, error) {
				atomic.AddInt64(&in, 1)
				<-gate
				atomic.AddInt64(&in, -1)
				return nil, nil
			})
			srv.Register(7, 1, 2, func(*xdr.XdrState) (xdr.Xdrable, error) { return nil, nil })
			conn := NewConn()
			done := make(chan error, 1)
			go func() { done <- srv.Run(conn) }()
			conns, gates, dones = append(conns, conn), append(gates, gate), append(dones, done)
		}
		owed := make([]int, 3)
		kinds := make([]map[int]string, 3) // connection -> xid -> what is called
		for c := range kinds {
			kinds[c] = map[int]string{}
		}
		before := nobs
		for n, s := range h {
			c := s.Conn - 1
			switch s.Op {
			case "wait":
				var all []byte
				for k := 0; k < s.N; k++ {
					kinds[c][s.From+k] = "wait"
					all = append(all, t.with(t.Calls, "wait", s.From+k)...)
				}
				conns[c].Feed(all)
			case "go":
				owed[c] += s.N
				for k := 0; k < s.N; k++ {
					select {
					case gates[c] <- true:
					default:
						if !await(patience, func() bool {
							select {
							case gates[c] <- true:
								return true
							default:
								return false
							}
						}) {
							observe("C13", "step %d: %d calls wait, but only %d of %d of a connection go on", n+1, s.Waiting+s.N, k, s.N)
							k = s.N
						}
					}
				}
			default:
				owed[c]++
				kinds[c][s.From] = s.Op
				conns[c].Feed(t.with(t.Calls, s.Op, s.From))
			}
			if nobs == before && !await(patience, func() bool { return int(atomic.LoadInt64(&in)) == s.Waiting }) {
				observe("C13", "step %d (%s): %d handlers run, not %d", n+1, s.Op, atomic.LoadInt64(&in), s.Waiting)
			}
			if nobs == before && !conns[c].AwaitWrites(owed[c], patience) {
				observe("C13", "step %d (%s): a call is not answered while %d others wait", n+1, s.Op, s.Waiting)
			}
			if nobs != before {
				break
			}
			stats["steps"]++
		}
		for _, g := range gates {
			close(g)
		}
		for c, conn := range conns {
			conn.End("eof")
			if !await(patience, func() bool { return len(dones[c]) > 0 }) {
				return
			}
			if nobs != before {
				continue
			}
			for _, w := range conn.Writes() {
				xid := -1
				if len(w) >= 8 {
					xid = int(binary.BigEndian.Uint32(w[4:]))
				}
				k, ok := kinds[c][xid]
				if !ok || !bytes.Equal(w, t.with(t.Replies, k, xid)) {
					observe("C13", "a reply that is not the one, or not the only one, to a call: % x", head(w))
					break
				}
				delete(kinds[c], xid)
				stats["replies"]++
			}
		}
	})
}
