// Command examples plays the other side of the example programs: behaviours of
// ExClient and ExServer.  The programs under test run as processes whose
// connections to port 111 are led to $VERIF_PMAP (see lib/examples.py).
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"time"
)

var patience = 15 * time.Second

type B []byte

func (b *B) UnmarshalJSON(j []byte) error {
	var w []int
	if err := json.Unmarshal(j, &w); err != nil {
		return err
	}
	*b = make([]byte, len(w))
	for i, x := range w {
		(*b)[i] = byte(x)
	}
	return nil
}

type Answer struct {
	X    string
	B    B
	Hole string
	End  string
}

type Step struct {
	Svc string
	Req B
	A   Answer
}

type Exchange struct {
	Req  B
	Hole bool
	A    Answer
}

type Event struct {
	C     int
	What  string
	B     B
	Reply B
}

type Behaviour struct {
	Steps []Step
	Pm    []Exchange
	Ev    []Event
	Ok    bool
}

var (
	out     = bufio.NewWriter(os.Stdout)
	nobs    int
	current int
	stats   = map[string]int{}
)

func observe(f string, a ...interface{}) {
	nobs++
	if nobs > 2 {
		patience = 2 * time.Second
	}
	j, _ := json.Marshal(map[string]interface{}{"prop": "C18", "case": current, "msg": fmt.Sprintf(f, a...)})
	out.Write(j)
	out.WriteByte('\n')
	out.Flush()
	if nobs >= 20 {
		finish()
		os.Exit(0)
	}
}

func finish() {
	stats["observations"] = nobs
	j, _ := json.Marshal(map[string]interface{}{"stats": stats})
	out.Write(j)
	out.WriteByte('\n')
	out.Flush()
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}

// A Request is a record that reached one of the services.
type Request struct {
	svc string
	c   net.Conn
	rec []byte
	bad string
}

type Peers struct {
	ls   map[string]net.Listener
	reqs chan Request
	done chan struct{}
}

func listen() net.Listener {
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		fatal(err)
	}
	return l
}

func port(l net.Listener) int { return l.Addr().(*net.TCPAddr).Port }

func newPeers(names ...string) *Peers {
	p := &Peers{ls: map[string]net.Listener{}, reqs: make(chan Request), done: make(chan struct{})}
	for _, n := range names {
		l := listen()
		p.ls[n] = l
		go func(n string) {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go p.read(n, c)
			}
		}(n)
	}
	return p
}

func (p *Peers) post(r Request) bool {
	select {
	case p.reqs <- r:
		return true
	case <-p.done:
		r.c.Close()
		return false
	}
}

func (p *Peers) read(svc string, c net.Conn) {
	for {
		var mark [4]byte
		n, err := io.ReadFull(c, mark[:])
		if err != nil {
			if n > 0 {
				p.post(Request{svc, c, nil, fmt.Sprintf("%d bytes of a record mark and no more", n)})
			}
			return
		}
		m := binary.BigEndian.Uint32(mark[:])
		if m>>31 == 0 || m&0x7fffffff > 1<<20 {
			p.post(Request{svc, c, nil, fmt.Sprintf("a record mark %08x", m)})
			return
		}
		rec := make([]byte, m&0x7fffffff)
		if _, err := io.ReadFull(c, rec); err != nil {
			p.post(Request{svc, c, nil, fmt.Sprintf("a record of which only a part arrives: %x", rec)})
			return
		}
		if !p.post(Request{svc, c, rec, ""}) {
			return
		}
	}
}

func (p *Peers) close() {
	close(p.done)
	for _, l := range p.ls {
		l.Close()
	}
}

type Proc struct {
	cmd  *exec.Cmd
	done chan error
	err  bytes.Buffer
}

func start(bin string, p *Peers) *Proc {
	r := &Proc{cmd: exec.Command(bin), done: make(chan error, 1)}
	r.cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_PMAP=%d", port(p.ls["pmap"])))
	r.cmd.Stderr = &r.err
	if err := r.cmd.Start(); err != nil {
		fatal(err)
	}
	go func() { r.done <- r.cmd.Wait() }()
	return r
}

func (r *Proc) kill() { r.cmd.Process.Kill() }

func (r *Proc) why() string {
	s := r.err.String()
	if len(s) > 120 {
		s = s[:120]
	}
	return fmt.Sprintf("%q", s)
}

// send answers a request.
func send(q Request, a Answer, extra []byte) {
	x := append([]byte(nil), q.rec[:4]...)
	if a.X == "other" {
		x[3] ^= 1
		x[0] ^= 0x80
	}
	rec := append(append(x, a.B...), extra...)
	m := make([]byte, 4)
	binary.BigEndian.PutUint32(m, 1<<31|uint32(len(rec)))
	switch a.End {
	case "":
		q.c.Write(append(m, rec...))
	case "port65536", "port2to31": // added to the port at the end
		rec[len(rec)-4] += map[string]byte{"port65536": 0, "port2to31": 0x80}[a.End]
		rec[len(rec)-3] += map[string]byte{"port65536": 1, "port2to31": 0}[a.End]
		q.c.Write(append(m, rec...))
	case "eof":
		q.c.Close()
	case "nonfinal":
		m[0] &= 0x7f
		q.c.Write(append(m, rec...))
	case "torn":
		q.c.Write(append(m, rec[:len(rec)-3]...))
		q.c.Close()
	case "halfmark":
		q.c.Write(m[:2])
		q.c.Close()
	default:
		fatal("unknown end", a.End)
	}
}

// next waits for the next request; false if the process ended or nothing comes.
func next(p *Peers, r *Proc, what string) (Request, bool) {
	select {
	case q := <-p.reqs:
		if q.bad != "" {
			observe("%s: the program sends %s", what, q.bad)
			return q, false
		}
		if len(q.rec) < 4 {
			observe("%s: the program sends the record %x", what, q.rec)
			return q, false
		}
		return q, true
	case err := <-r.done:
		r.done <- err
		observe("%s: the program ends (%v, %s) and does not make the request", what, err, r.why())
	case <-time.After(patience):
		observe("%s: the program does not make the request", what)
	}
	return Request{}, false
}

// over waits for the end of the process.
func over(p *Peers, r *Proc, ok bool, what string) {
	select {
	case q := <-p.reqs:
		observe("%s, yet the program goes on and sends %s %x", what, q.svc, q.rec)
	case err := <-r.done:
		r.done <- err
		if (err == nil) != ok {
			observe("%s: the program ends with %v (%s)", what, err, r.why())
		}
	case <-time.After(patience):
		observe("%s: the program does not end", what)
	}
}

func client(bin string, b *Behaviour) {
	p := newPeers("pmap", "mount", "nfs")
	defer p.close()
	r := start(bin, p)
	defer r.kill()
	for i, s := range b.Steps {
		what := fmt.Sprintf("request %d, to %s", i+1, s.Svc)
		q, ok := next(p, r, what)
		if !ok {
			return
		}
		if q.svc != s.Svc {
			observe("%s: it goes to %s", what, q.svc)
			return
		}
		if !bytes.Equal(q.rec[4:], s.Req) {
			observe("%s: it is %x, want %x (after the xid)", what, q.rec[4:], []byte(s.Req))
			return
		}
		var extra []byte
		if s.A.Hole != "" {
			extra = binary.BigEndian.AppendUint32(nil, uint32(port(p.ls[s.A.Hole])))
		}
		stats["exchanges"]++
		send(q, s.A, extra)
	}
	what := "all was answered"
	if !b.Ok {
		what = fmt.Sprintf("request %d failed", len(b.Steps))
	}
	over(p, r, b.Ok, what)
}

func server(bin string, b *Behaviour) {
	p := newPeers("pmap")
	defer p.close()
	r := start(bin, p)
	defer r.kill()
	var at uint32
	for i, s := range b.Pm {
		what := fmt.Sprintf("request %d to the portmapper", i+1)
		q, ok := next(p, r, what)
		if !ok {
			return
		}
		got := q.rec[4:]
		if s.Hole && len(got) >= 4 {
			n := binary.BigEndian.Uint32(got[len(got)-4:])
			got = got[:len(got)-4]
			if at != 0 && n != at {
				observe("%s: port %d, but it was %d before", what, n, at)
				return
			}
			at = n
			c, err := net.DialTimeout("tcp4", fmt.Sprintf("127.0.0.1:%d", n), patience)
			if err != nil {
				observe("%s: nobody listens at port %d, which it registers", what, n)
				return
			}
			c.Close()
		}
		if !bytes.Equal(got, s.Req) {
			observe("%s: it is %x, want %x (after the xid, before the port)", what, got, []byte(s.Req))
			return
		}
		stats["exchanges"]++
		send(q, s.A, nil)
	}
	if !b.Ok {
		over(p, r, false, "the portmapper refused")
		return
	}
	conns := map[int]net.Conn{}
	defer func() {
		for _, c := range conns {
			c.Close()
		}
	}()
	for i, e := range b.Ev {
		c := conns[e.C]
		if c == nil {
			var err error
			c, err = net.DialTimeout("tcp4", fmt.Sprintf("127.0.0.1:%d", at), patience)
			if err != nil {
				observe("event %d: no connection: %v", i+1, err)
				return
			}
			conns[e.C] = c
		}
		c.Write(e.B)
		stats["events"]++
		if e.What == "close" {
			c.(*net.TCPConn).CloseWrite()
		}
		if len(e.Reply) > 0 {
			got := make([]byte, len(e.Reply))
			c.SetReadDeadline(time.Now().Add(patience))
			n, err := io.ReadFull(c, got)
			if err != nil || !bytes.Equal(got, e.Reply) {
				observe("event %d, connection %d: the reply is %x (%v), want %x", i+1, e.C, got[:n], err, []byte(e.Reply))
				return
			}
		}
	}
	for k, c := range conns {
		c.SetReadDeadline(time.Now().Add(2 * time.Millisecond))
		got := make([]byte, 100)
		if n, _ := c.Read(got); n > 0 {
			observe("connection %d: %x, which answers nothing", k, got[:n])
		}
	}
	select {
	case err := <-r.done:
		r.done <- err
		observe("the server ends while it serves: %v (%s)", err, r.why())
	case q := <-p.reqs:
		observe("the server, serving, sends %x to the portmapper", q.rec)
	default:
	}
}

func main() {
	mode, bin := os.Args[1], os.Args[2]
	f, err := os.Open(os.Args[3])
	if err != nil {
		fatal(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var s string
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fatal(err)
		}
		var b Behaviour
		if err := json.Unmarshal([]byte(s), &b); err != nil {
			fatal(err)
		}
		if mode == "client" {
			client(bin, &b)
		} else {
			server(bin, &b)
		}
		current++
		stats["traces"]++
	}
	finish()
}
