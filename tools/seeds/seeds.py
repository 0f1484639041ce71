SEEDS=[]
def S(id,prop,edits,needs,breaks,demo,**k): SEEDS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))
HEAD='package main\n\nimport (\n\t"fmt"\n\t"os"\n%s)\n\nfunc fail(a ...interface{}) { fmt.Println(a...); os.Exit(1) }\n\n'
def H(*im): return HEAD%''.join('\t%s\n'%(i if ' ' in i else '"%s"'%i) for i in im)
X='github.com/zeldovich/go-rpcgen/xdr'; R='github.com/zeldovich/go-rpcgen/rfc1057'; N='github.com/zeldovich/go-rpcgen/rfc1813'

S('c01-large-padding','C01',[('xdr/lib.go','	if len(*v)%4 != 0 {\n','	if n := len(*v); n%4 != 0 && n < 1<<16 {\n')],
 'opaque data of 64 KiB or more whose length is no multiple of four','Large opaque data is written without its padding (and read without it, so that a round trip hides it).',
 H('bytes',X)+'''func main() {
	d := bytes.Repeat([]byte{7}, 1<<16+1)
	w := xdr.MakeWriter(nil)
	xdr.XdrVarArray(w, -1, &d)
	if w.Error() != nil || len(w.WriteBuf()) != 4+1<<16+4 {
		fail("encoded length", len(w.WriteBuf()), w.Error())
	}
}
''')
S('c02-stale-true','C02',[('xdr/lib.go','		if r == 0 {\n			*v = false\n		} else {\n','		if r != 0 {\n')],
 'a boolean FALSE decoded into a variable that is true already','Decoding a boolean into a destination that has been used leaves it true.',
 H(X)+'''func main() {
	v := true
	xdr.XdrBool(xdr.MakeReader([]byte{0, 0, 0, 0}), &v)
	if v {
		fail("FALSE decodes as true")
	}
}
''')
S('c03-end-at-boundary','C03',[('xdr/lib.go','		if n < len(v) {\n','		if n < len(v) && n > 0 {\n')],
 'an encoding that is cut off exactly between two items','Input that ends where an item should begin decodes as if zeros followed, without an error.',
 H(X,N)+'''func main() {
	b, err := xdr.EncodeBuf(&rfc1813.Specdata3{Specdata1: 5, Specdata2: 6})
	if err != nil {
		fail(err)
	}
	for n := 0; n < len(b); n++ {
		var s rfc1813.Specdata3
		if xdr.DecodeBuf(b[:n], &s) == nil {
			fail("no error with", n, "bytes")
		}
	}
}
''')
S('c04-runes','C04',[('xdr/lib.go','len(*v) > math.MaxUint32 || (maxlen >= 0 && len(*v) > maxlen) {\n			xs.SetError("string too large")','len(*v) > math.MaxUint32 || (maxlen >= 0 && utf8.RuneCountInString(*v) > maxlen) {\n			xs.SetError("string too large")'),
   ('xdr/lib.go','	"math"\n','	"math"\n	"unicode/utf8"\n')],
 'a bounded string with multi-byte UTF-8 characters, with too many bytes but few enough characters','The bound of a string is applied to characters and not to bytes when encoding.',
 H(X)+'''func main() {
	s := "\\u00e9\\u00e9\\u00e9"
	w := xdr.MakeWriter(nil)
	xdr.XdrString(w, 5, &s)
	if w.Error() == nil {
		fail("a string of 6 bytes is encoded, with bound 5")
	}
}
''')
S('c05-decoding-after-error','C05',[('xdr/lib.go','	return xs.err == nil && xs.reader == true\n','	return xs.reader == true\n')],
 'decoding truncated input into a destination with earlier contents','After an error decoding goes on storing: integers that were not there are set to what is in a scratch buffer.',
 H(X)+'''func main() {
	v := int32(77)
	r := xdr.MakeReader([]byte{1, 2})
	xdr.XdrS32(r, &v)
	if r.Error() == nil || v != 77 {
		fail("after an error the integer is", v)
	}
}
''')
S('c07-three-labels','C07',[('out.go','			if idx != len(c.cases)-1 {\n','			if idx == 0 && len(c.cases) > 1 {\n')],
 'a union arm with three or more case labels','The middle labels of an arm select nothing.',
 H('bytes',X,'demo/g')+'''func main() {
	for d := int32(1); d <= 3; d++ {
		b, err := xdr.EncodeBuf(&g.U{D: d, X: 5})
		if err != nil || !bytes.Equal(b, []byte{0, 0, 0, byte(d), 0, 0, 0, 5}) {
			fail("case", d, b, err)
		}
	}
}
''',x='union u switch (int d) {\n case 1:\n case 2:\n case 3:\n  int x;\n default:\n  void;\n};\n')
S('c08-go-operators','C08',[('scan.go','	case token.ASSIGN:\n','	case token.ASSIGN, token.DEFINE:\n')],
 'a constant written with :=','The generator accepts := where the grammar has =.',
 H('os/exec','path/filepath')+'''func main() {
	d := filepath.Join(os.Getenv("SCRATCH"), "w")
	os.Mkdir(d, 0777)
	os.WriteFile(d+"/bad.x", []byte("const x := 5;\\n"), 0666)
	if exec.Command(filepath.Join(os.Getenv("SCRATCH"), "gen"), "-i", d+"/bad.x", "-o", d+"/o.go").Run() == nil {
		fail("accepted")
	}
}
''',gen=True)
S('c09-first-version','C09',[('out.go','			fmt.Fprintf(out, "Vers: %s,\\n", i(v.name))\n','			fmt.Fprintf(out, "Vers: %s,\\n", i(d.vers[0].name))\n')],
 'a program with more than one version','The procedures of every version are registered for the first version of the program.',
 H(X,'demo/g')+'''type h struct{}

func (h) P() {}

var _ xdr.Void

func main() {
	if r := g.PP_VB_regs(h{}); r[0].Vers != 2 {
		fail("version 2 registers version", r[0].Vers)
	}
}
''',x='program PP {\n version VA { void P(void) = 1; } = 1;\n version VB { void P(void) = 1; } = 2;\n} = 5;\ntypedef int t;\n')
S('c12-null-without-version','C12',[('rfc1057/server.go','		if !verok {\n','		if !verok && len(vermap) == 1 {\n			for _, procmap = range vermap {\n			}\n			verok = true\n		}\n		if !verok {\n')],
 'a call for a version that is not registered, of a program with exactly one version','Calls for other versions are dispatched to the only version there is.',
 H('io','bytes',R,X)+'''type rw struct {
	io.Reader
	w chan []byte
}

func (r rw) Write(b []byte) (int, error) { r.w <- append([]byte{}, b...); return len(b), nil }

func main() {
	b := []byte{128, 0, 0, 40, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 4, 0, 0, 0, 5, 0, 0, 0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	c := rw{bytes.NewReader(b), make(chan []byte, 1)}
	s := rfc1057.MakeServer()
	called := false
	s.Register(4, 1, 6, func(a *xdr.XdrState) (xdr.Xdrable, error) { called = true; return &xdr.Void{}, nil })
	s.Run(c)
	<-c.w
	if called {
		fail("version 5 calls the handler of version 1")
	}
}
''')
S('c13-early-buffer','C13',[('rfc1057/server.go','	defer putReqBuf(buf)\n\n',''),('rfc1057/server.go','		resdata, err = h(rd)\n','		resdata, err = h(rd)\n		putReqBuf(buf)\n')],
 'a result that refers to the argument, and another request that arrives before it has been encoded','The request buffer is reused before the reply has been encoded, so that a result which aliases the argument is overwritten.',
 H('bytes','encoding/binary','net','runtime',R,X)+'''type data []byte

var gate = make(chan bool)
var first = true

func (d *data) Xdr(xs *xdr.XdrState) {
	if xs.Encoding() && first {
		first = false
		gate <- true
		<-gate
	}
	xdr.XdrVarArray(xs, -1, (*[]byte)(d))
}

func call(x byte, fill byte) []byte {
	d := data(bytes.Repeat([]byte{fill}, 400))
	w := xdr.MakeWriter([]byte{0, 0, 0, 0, 0, 0, 0, x, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 4, 0, 0, 0, 5, 0, 0, 0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
	xdr.XdrVarArray(w, -1, (*[]byte)(&d))
	b := w.WriteBuf()
	binary.BigEndian.PutUint32(b, 1<<31|uint32(len(b)-4))
	return b
}

func main() {
	runtime.GOMAXPROCS(1)
	s := rfc1057.MakeServer()
	n := make(chan bool, 9)
	s.Register(4, 5, 6, func(a *xdr.XdrState) (xdr.Xdrable, error) {
		var d data
		xdr.XdrVarArray(a, -1, (*[]byte)(&d))
		n <- true
		return &d, nil
	})
	p, q := net.Pipe()
	go s.Run(q)
	p.Write(call(1, 1))
	<-n
	<-gate
	go func() {
		for i := 0; i < 5; i++ {
			p.Write(call(byte(2+i), 2))
		}
		for i := 0; i < 5; i++ {
			<-n
		}
		gate <- true
	}()
	for i := 0; i < 6; i++ {
		b := make([]byte, 4+24+404)
		for k := 0; k < len(b); {
			m, err := p.Read(b[k:])
			if err != nil {
				fail(err)
			}
			k += m
		}
		if b[7] == 1 && b[40] != 1 {
			fail("the reply to call 1 has the data of another")
		}
	}
}
''')
S('c14-large-pieces','C14',[('rfc1057/server.go','		_, err = io.ReadFull(sc.rw, buf)\n','		atleast := buflen\n		if atleast > 4096 {\n			atleast = 4096\n		}\n		_, err = io.ReadAtLeast(sc.rw, buf, atleast)\n')],
 'a record longer than 4096 bytes that the transport delivers in pieces','The rest of a long record that arrives in pieces is not waited for, and is then taken for the next record.',
 H('bytes','encoding/binary','net','time',R,X)+'''func main() {
	s := rfc1057.MakeServer()
	got := make(chan []byte, 1)
	s.Register(4, 5, 6, func(a *xdr.XdrState) (xdr.Xdrable, error) {
		var d []byte
		xdr.XdrVarArray(a, -1, &d)
		got <- append([]byte{}, d...)
		return &xdr.Void{}, nil
	})
	p, q := net.Pipe()
	go s.Run(q)
	d := bytes.Repeat([]byte{9}, 8000)
	w := xdr.MakeWriter([]byte{0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 4, 0, 0, 0, 5, 0, 0, 0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
	xdr.XdrVarArray(w, -1, &d)
	b := w.WriteBuf()
	binary.BigEndian.PutUint32(b, 1<<31|uint32(len(b)-4))
	go func() {
		p.Write(b[:5000])
		time.Sleep(50 * time.Millisecond)
		p.Write(b[5000:])
	}()
	select {
	case g := <-got:
		if !bytes.Equal(g, d) {
			fail("the argument is not what was sent")
		}
	case <-time.After(10 * time.Second):
		fail("no call")
	}
}
''')
S('c15-newer-reply','C15',[('rfc1057/client.go','	if res.Xid != req.Xid {\n','	if res.Xid < req.Xid {\n')],
 'a reply with an xid that is larger than the one of the call','A reply to some other call is taken for the reply.',
 H('net',R,X)+'''func main() {
	p, q := net.Pipe()
	go func() {
		b := make([]byte, 44)
		for k := 0; k < 44; {
			n, _ := q.Read(b[k:])
			k += n
		}
		r := append([]byte{128, 0, 0, 24}, b[4:8]...)
		r[7] += 3
		q.Write(append(r, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0))
	}()
	var a rfc1057.Opaque_auth
	if rfc1057.MakeClient(p, 4, 5).Call(6, a, a, &xdr.Void{}, &xdr.Void{}) == nil {
		fail("a reply with another xid is accepted")
	}
}
''')
S('c16-xid-on-success','C16',[('rfc1057/client.go','	c.xid++\n\n	var req Rpc_msg\n	req.Xid = c.xid\n','	var req Rpc_msg\n	req.Xid = c.xid + 1\n'),('rfc1057/client.go','	if res.Xid != req.Xid {\n','	c.xid++\n	if res.Xid != req.Xid {\n')],
 'a call after one whose reply could not be read or decoded','Xids are used again after a call that failed.',
 H('bytes','io',R,X)+'''type rw struct {
	io.Reader
	w bytes.Buffer
}

func (r *rw) Write(b []byte) (int, error) { return r.w.Write(b) }

func main() {
	c := &rw{Reader: bytes.NewReader([]byte{128, 0, 0, 3, 1, 2, 3, 128, 0, 0, 3, 1, 2, 3})}
	k := rfc1057.MakeClient(c, 4, 5)
	var a rfc1057.Opaque_auth
	k.Call(6, a, a, &xdr.Void{}, &xdr.Void{})
	k.Call(6, a, a, &xdr.Void{}, &xdr.Void{})
	b := c.w.Bytes()
	if len(b) != 88 || bytes.Equal(b[4:8], b[48:52]) {
		fail("xids", b)
	}
}
''')

S('c04-bound-zero','C04',[('xdr/lib.go','(maxlen >= 0 && sz > maxlen) || sz < 0 {\n			xs.SetError("string too large")','(maxlen > 0 && sz > maxlen) || sz < 0 {\n			xs.SetError("string too large")')],
 'a string with the bound 0, and an encoding that holds a longer one','A bound of 0 is taken for no bound when a string is decoded.',
 H(X)+"""func main() {
	var s string
	r := xdr.MakeReader([]byte{0, 0, 0, 1, 'a', 0, 0, 0})
	xdr.XdrString(r, 0, &s)
	if r.Error() == nil {
		fail("decoded", s)
	}
}
""")
S('c06-capacity','C06',[('xdr/lib.go','	res := xs.buf[:n:n]\n','	res := xs.buf[:n]\n')],
 'appending to a decoded byte field that other data follows','Appending to a decoded field overwrites what follows it in the message.',
 H(X)+"""func main() {
	r := xdr.MakeReader([]byte{0, 0, 0, 4, 1, 2, 3, 4, 0, 0, 0, 4, 5, 6, 7, 8})
	var a, b []byte
	xdr.XdrVarArray(r, -1, &a)
	xdr.XdrVarArray(r, -1, &b)
	_ = append(a, 9, 9, 9, 9, 9, 9, 9, 9)
	if r.Error() != nil || b[0] != 5 {
		fail(r.Error(), b)
	}
}
""")
S('c10-chr-device','C10',[('rfc1813/xdr.go','	case Ftype3(NF3CHR):\n		fallthrough\n	case Ftype3(NF3BLK):\n','	case Ftype3(NF3CHR):\n	case Ftype3(NF3BLK):\n')],
 'a MKNOD call for a character device','The device data of character devices is left out of mknoddata3.',
 H(X,N)+"""func main() {
	b, err := xdr.EncodeBuf(&rfc1813.Mknoddata3{Ftype: rfc1813.NF3CHR})
	if err != nil || len(b) != 4+6*4+8 {
		fail(len(b), err)
	}
}
""")
S('c11-newer-rpcvers','C11',[('rfc1057/server.go','	if req.Body.Cbody.Rpcvers != 2 {\n','	if req.Body.Cbody.Rpcvers < 2 {\n')],
 'a call with an RPC version above 2','Calls with a later RPC version are served as if it was 2.',
 H('io','bytes',R)+"""type rw struct {
	io.Reader
	w chan []byte
}

func (r rw) Write(b []byte) (int, error) { r.w <- append([]byte{}, b...); return len(b), nil }

func main() {
	b := []byte{128, 0, 0, 40, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0, 4, 0, 0, 0, 5, 0, 0, 0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	c := rw{bytes.NewReader(b), make(chan []byte, 1)}
	rfc1057.MakeServer().Run(c)
	if g := <-c.w; g[15] != 1 {
		fail("reply", g)
	}
}
""")
S('c08-types-temporary','C08',[('main.go','		defer os.Remove(toutTmp)\n		tout = toutf\n','		tout = toutf\n'),('main.go','		toutf.Close()\n','		toutf.Close()\n		defer os.Remove(toutTmp)\n')],
 'a text that is rejected, and a separate types file','After an error in the input the temporary file of the types stays behind, and makes the next run fail.',
 H('os/exec','path/filepath')+"""func main() {
	d := filepath.Join(os.Getenv("SCRATCH"), "w")
	os.Mkdir(d, 0777)
	os.WriteFile(d+"/bad.x", []byte("const x = ;\\n"), 0666)
	if exec.Command(filepath.Join(os.Getenv("SCRATCH"), "gen"), "-i", d+"/bad.x", "-o", d+"/o.go", "-t", d+"/t.go").Run() == nil {
		fail("accepted")
	}
	fs, _ := os.ReadDir(d)
	if len(fs) != 1 {
		fail("files are left", fs)
	}
}
""",gen=True)
S('c17-eight-at-once','C17',[('rfc1057/server.go','		go sc.handleReq(buf)\n','		sc.s.slots <- true\n		go sc.handleReq(buf)\n'),('rfc1057/server.go','	defer putReqBuf(buf)\n','	defer func() { <-sc.s.slots }()\n	defer putReqBuf(buf)\n'),
   ('rfc1057/server.go','type Server struct {\n','type Server struct {\n	slots    chan bool\n'),('rfc1057/server.go','		handlers: make(map[uint32]map[uint32]map[uint32]ProcHandler),\n	}\n','		slots:    make(chan bool, 8),\n		handlers: make(map[uint32]map[uint32]map[uint32]ProcHandler),\n	}\n')],
 'nine calls, by several clients, of which eight wait for the ninth','The server handles eight calls at once, so that clients whose calls take long keep others from being served.',
 H('net','time',R,X)+"""func main() {
	s := rfc1057.MakeServer()
	all := make(chan bool)
	got := make(chan bool, 9)
	s.Register(4, 5, 6, func(a *xdr.XdrState) (xdr.Xdrable, error) {
		got <- true
		<-all
		return &xdr.Void{}, nil
	})
	done := make(chan error, 9)
	for i := 0; i < 9; i++ {
		p, q := net.Pipe()
		go s.Run(q)
		go func() {
			var a rfc1057.Opaque_auth
			done <- rfc1057.MakeClient(p, 4, 5).Call(6, a, a, &xdr.Void{}, &xdr.Void{})
		}()
	}
	for i := 0; i < 9; i++ {
		select {
		case <-got:
		case <-time.After(5 * time.Second):
			fail("only", i, "calls are handled")
		}
	}
	close(all)
	for i := 0; i < 9; i++ {
		if err := <-done; err != nil {
			fail(err)
		}
	}
}
""")
S('c17-write-lock','C17',[('rfc1057/server.go','	_, err = sc.rw.Write(wbuf)\n','	sc.s.writing.Lock()\n	defer sc.s.writing.Unlock()\n	_, err = sc.rw.Write(wbuf)\n'),
   ('rfc1057/server.go','type Server struct {\n','type Server struct {\n	writing  sync.Mutex\n')],
 'a client that does not read its reply, while others make calls','A lock of the server is held while a reply is written, so that one client that does not read stops the replies to all others.',
 H('net','time',R,X)+"""func main() {
	s := rfc1057.MakeServer()
	p, q := net.Pipe()
	go s.Run(q)
	p.Write([]byte{128, 0, 0, 40, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 4, 0, 0, 0, 5, 0, 0, 0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
	p.Read(make([]byte, 1)) // the reply is being written, and is not read
	p2, q2 := net.Pipe()
	go s.Run(q2)
	done := make(chan error, 1)
	go func() {
		var a rfc1057.Opaque_auth
		done <- rfc1057.MakeClient(p2, 4, 5).Call(6, a, a, &xdr.Void{}, &xdr.Void{})
	}()
	select {
	case err := <-done:
		if err == nil {
			fail("no error")
		}
	case <-time.After(5 * time.Second):
		fail("another client is kept waiting")
	}
}
""")
EXAMPLE=H('bufio','bytes','context','encoding/binary','io','net','os/exec','path/filepath','strings','time')+r'''var _ = context.Background
var _ = time.Second

// build builds an example program whose connections to port 111 go to another port.
func build(name string) string {
	repo, d := os.Getenv("REPO"), os.Getenv("SCRATCH")
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		panic(err)
	}
	std := filepath.Join(strings.TrimSpace(string(root)), "src/net/tcpsock_posix.go")
	src, err := os.ReadFile(std)
	if err != nil {
		panic(err)
	}
	anchor := "func (sd *sysDialer) dialTCP(ctx context.Context, laddr, raddr *TCPAddr) (*TCPConn, error) {\n"
	hook := "\tif raddr != nil && raddr.Port == 111 {\n\t\tn := 0\n\t\ts, _ := syscall.Getenv(\"PMAP\")\n\t\tfor i := 0; i < len(s); i++ {\n\t\t\tn = n*10 + int(s[i]-'0')\n\t\t}\n\t\traddr = &TCPAddr{IP: IPv4(127, 0, 0, 1), Port: n}\n\t}\n"
	os.WriteFile(d+"/net.go", []byte(strings.Replace(string(src), anchor, anchor+hook, 1)), 0o644)
	os.WriteFile(d+"/overlay.json", []byte(fmt.Sprintf("{\"Replace\": {%q: %q}}", std, d+"/net.go")), 0o644)
	c := exec.Command("go", "build", "-overlay", d+"/overlay.json", "-o", d+"/"+name, "./example/"+name)
	c.Dir = repo
	if out, err := c.CombinedOutput(); err != nil {
		panic(string(out))
	}
	return d + "/" + name
}

func u32(n int) []byte { return binary.BigEndian.AppendUint32(nil, uint32(n)) }

// serve answers records on a listener; a nil answer closes the connection.
func serve(answer func(proc uint32, args []byte) []byte) int {
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				r := bufio.NewReader(c)
				for {
					var m [4]byte
					if _, err := io.ReadFull(r, m[:]); err != nil {
						return
					}
					b := make([]byte, binary.BigEndian.Uint32(m[:])&0x7fffffff)
					if _, err := io.ReadFull(r, b); err != nil {
						return
					}
					cl := int(binary.BigEndian.Uint32(b[28:]))
					a := answer(binary.BigEndian.Uint32(b[20:]), b[40+cl:])
					if a == nil {
						c.Close()
						return
					}
					rec := bytes.Join([][]byte{b[:4], u32(1), u32(0), u32(0), u32(0), u32(0), a}, nil)
					c.Write(append(u32(1<<31|len(rec)), rec...))
				}
			}()
		}
	}()
	return l.Addr().(*net.TCPAddr).Port
}
'''
S('c18-one-at-a-time','C18',[('example/server/main.go','		go srv.Run(conn)\n','		go func() {\n			serving.Lock()\n			defer serving.Unlock()\n			srv.Run(conn)\n		}()\n'),
  ('example/server/main.go','	srv := rfc1057.MakeServer()\n','	var serving sync.Mutex\n	srv := rfc1057.MakeServer()\n'),('example/server/main.go','	"net"\n','	"net"\n	"sync"\n')],
 'a second connection to the example server while another is open and idle','The example server serves its connections one after another, so that an open connection keeps the others waiting.',
 EXAMPLE+r'''
func main() {
	port := make(chan int, 9)
	pmap := serve(func(proc uint32, args []byte) []byte {
		if p := binary.BigEndian.Uint32(args[12:]); proc == 1 && binary.BigEndian.Uint32(args) == 100003 {
			port <- int(p)
		}
		return u32(1)
	})
	c := exec.Command(build("server"))
	c.Env = append(os.Environ(), fmt.Sprintf("PMAP=%d", pmap))
	c.Start()
	defer c.Process.Kill()
	addr := fmt.Sprintf("127.0.0.1:%d", <-port)
	for i := 0; i < 2; i++ {
		k, err := net.Dial("tcp4", addr)
		if err != nil {
			panic(err)
		}
		rec := bytes.Join([][]byte{u32(i), u32(0), u32(2), u32(100003), u32(3), u32(0), u32(0), u32(0), u32(0), u32(0)}, nil)
		k.Write(append(u32(1<<31|len(rec)), rec...))
		k.SetReadDeadline(time.Now().Add(8 * time.Second))
		if _, err := io.ReadFull(k, make([]byte, 28)); err != nil {
			c.Process.Kill()
			fail("connection", i, err)
		}
	}
}
''')
S('c18-mapping-left','C18',[('example/server/main.go','		panic("Could not set pmap mapping for NFS")\n','		fmt.Fprintln(os.Stderr, "Could not set pmap mapping for NFS")\n		os.Exit(1)\n'),('example/server/main.go','	"net"\n','	"net"\n	"os"\n')],
 'a portmapper that accepts the mapping of MOUNT and refuses that of NFS','The example server, when its second registration is refused, ends without running the deferred call that takes back the first.',
 EXAMPLE+r'''
func main() {
	maps := map[uint32]bool{}
	pmap := serve(func(proc uint32, args []byte) []byte {
		prog := binary.BigEndian.Uint32(args)
		if proc == 2 {
			delete(maps, prog)
		} else if prog == 100003 {
			return u32(0)
		} else {
			maps[prog] = true
		}
		return u32(1)
	})
	c := exec.Command(build("server"))
	c.Env = append(os.Environ(), fmt.Sprintf("PMAP=%d", pmap))
	if c.Run() == nil {
		fail("no error")
	}
	if len(maps) > 0 {
		fail("mappings are left:", maps)
	}
}
''')
S('c18-root-handle','C18',[('example/client/main.go','	var root_fh rfc1813.Nfs_fh3\n	root_fh.Data = res.Mountinfo.Fhandle\n','	root_fh := rfc1813.Nfs_fh3{Data: make([]byte, 32)}\n	root_fh.Data = root_fh.Data[:copy(root_fh.Data, res.Mountinfo.Fhandle)]\n')],
 'a mount service whose root handle is longer than 32 bytes (version 3 allows 64)','The example client keeps only the first 32 bytes, the size of a version 2 handle, of the root handle.',
 EXAMPLE+r'''
func main() {
	root := bytes.Repeat([]byte{7}, 40)
	bad := make(chan string, 9)
	nfs := serve(func(proc uint32, args []byte) []byte {
		if proc == 3 && !bytes.HasPrefix(args, append(u32(40), root...)) && !bytes.HasPrefix(args, append(u32(1), 5, 0, 0, 0)) {
			bad <- fmt.Sprintf("LOOKUP in %x", args)
		}
		if proc == 3 {
			return bytes.Join([][]byte{u32(0), u32(1), {5, 0, 0, 0}, u32(0), u32(0)}, nil)
		}
		return bytes.Join([][]byte{u32(0), u32(0), u32(0), u32(0), u32(0)}, nil)
	})
	mount := serve(func(proc uint32, args []byte) []byte {
		return bytes.Join([][]byte{u32(0), u32(40), root, u32(0)}, nil)
	})
	pmap := serve(func(proc uint32, args []byte) []byte {
		if binary.BigEndian.Uint32(args) == 100005 {
			return u32(mount)
		}
		return u32(nfs)
	})
	c := exec.Command(build("client"))
	c.Env = append(os.Environ(), fmt.Sprintf("PMAP=%d", pmap))
	if out, err := c.CombinedOutput(); err != nil {
		fail(err, string(out))
	}
	select {
	case b := <-bad:
		fail(b)
	default:
	}
}
''')

S('c16-read-ahead','C16',[('rfc1057/client.go','	_, err = io.ReadFull(c.rw, hdr[:])\n','	in := bufio.NewReader(c.rw)\n	_, err = io.ReadFull(in, hdr[:])\n'),('rfc1057/client.go','	_, err = io.ReadFull(c.rw, buf)','	_, err = io.ReadFull(in, buf)'),('rfc1057/client.go','import (\n','import (\n	"bufio"\n')],
 'a record that arrives together with the reply to an earlier call','Each call reads through a buffer of its own: what arrives behind its reply is lost, and the next call takes a record that is not the next one.',
 H('encoding/binary','io',R,X)+'''// rw answers the first call twice, in one piece, and every other call once.
type rw struct {
	in    []byte
	calls int
}

func (r *rw) Read(p []byte) (int, error) {
	if len(r.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.in)
	r.in = r.in[n:]
	return n, nil
}

func (r *rw) Write(b []byte) (int, error) {
	r.calls++
	rep := []byte{128, 0, 0, 28, b[4], b[5], b[6], b[7], 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(rep[28:], uint32(r.calls))
	r.in = append(r.in, rep...)
	if r.calls == 1 {
		r.in = append(r.in, rep...)
	}
	return len(b), nil
}

func main() {
	k := rfc1057.MakeClient(&rw{}, 4, 5)
	var a rfc1057.Opaque_auth
	var v xdr.Uint32
	if err := k.Call(6, a, a, &xdr.Void{}, &v); err != nil || v != 1 {
		fail("call 1", err, v)
	}
	if err := k.Call(6, a, a, &xdr.Void{}, &v); err == nil {
		fail("call 2 did not take the second record", v)
	}
}
''')
S('c13-glue-result','C13',[('out.go','			fmt.Fprintf(out, "return &out, nil")\n			fmt.Fprintf(out, "}\\n")\n','''			if c.res.isVoid {
				fmt.Fprintf(out, "return &out, nil\\n}\\n")
			} else {
				reply := fmt.Sprintf("reply_%s_%s_%s", d.name, v.name, c.name)
				fmt.Fprintf(out, "%s = out\\n", reply)
				fmt.Fprintf(out, "return &%s, nil\\n}\\n", reply)
				fmt.Fprintf(out, "var %s %s\\n", reply, c.res.maybeXdrType())
			}
''')],
 'two calls of one procedure at once, under generated glue','The generated glue keeps the result of a procedure in one place for all calls, so that a reply may hold the result of another call.',
 H(X,'demo/g')+"""type h struct{}

func (h) P(a xdr.Int32) xdr.Int32 { return a + 1 }

func main() {
	r := g.PP_V_regs(h{})[0]
	call := func(n byte) xdr.Xdrable {
		res, err := r.Handler(xdr.MakeReader([]byte{0, 0, 0, n}))
		if err != nil {
			fail(err)
		}
		return res
	}
	first, second := call(10), call(20)
	for i, res := range []xdr.Xdrable{first, second} {
		b, err := xdr.EncodeBuf(res)
		if err != nil || b[3] != byte(10*i+11) {
			fail("the reply to call", i, "holds", b, err)
		}
	}
}
""",x='program PP {\n version V { int P(int) = 1; } = 1;\n} = 5;\n')
S('c17-glue-argument','C17',[('out.go','				fmt.Fprintf(out, "in.Xdr(args)\\n")\n','				arg := fmt.Sprintf("arg_%s_%s_%s", d.name, v.name, c.name)\n				fmt.Fprintf(out, "%s.Xdr(args)\\n", arg)\n				fmt.Fprintf(out, "in = %s\\n", arg)\n'),
   ('out.go','			fmt.Fprintf(out, "return &out, nil")\n			fmt.Fprintf(out, "}\\n")\n','''			fmt.Fprintf(out, "return &out, nil")
			fmt.Fprintf(out, "}\\n")
			if !c.arg.isVoid {
				fmt.Fprintf(out, "var arg_%s_%s_%s %s\\n", d.name, v.name, c.name, c.arg.maybeXdrType())
			}
''')],
 'calls of one procedure by several clients whose arguments are decoded at the same time','The generated glue decodes the arguments of all calls of a procedure into one place.',
 H('net','sync','time',R,'demo/g')+"""type h struct{}

func (h) P(a g.Arg) g.Arg { return a }

func main() {
	s := rfc1057.MakeServer()
	s.RegisterMany(g.PP_V_regs(h{}))
	end := time.Now().Add(20 * time.Second)
	var wg sync.WaitGroup
	for c := 0; c < 8; c++ {
		p, q := net.Pipe()
		go s.Run(q)
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			var none rfc1057.Opaque_auth
			cl := rfc1057.MakeClient(p, 5, 1)
			arg := g.Arg{First: int32(c), Items: make([]int32, 5000)}
			for i := range arg.Items {
				arg.Items[i] = int32(c)
			}
			for k := 0; k < 500 && time.Now().Before(end); k++ {
				var res g.Arg
				if err := cl.Call(1, none, none, &arg, &res); err != nil {
					fail(err)
				}
				if res.First != int32(c) || len(res.Items) != 5000 {
					fail("client", c, "gets the result of", res.First)
				}
				for _, x := range res.Items {
					if x != int32(c) {
						fail("client", c, "gets data of", x)
					}
				}
			}
		}(c)
	}
	wg.Wait()
}
""",x='struct Arg {\n int first;\n int items<>;\n};\nprogram PP {\n version V { Arg P(Arg) = 1; } = 1;\n} = 5;\n')
