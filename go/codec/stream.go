package codec

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// The replay of XdrStream.tla: one behaviour per line, one library call per
// step, and after every step a comparison of all streams, decoded values and
// encoded buffers with the model's.

type streamVal struct {
	T string      `json:"t"`
	V interface{} `json:"v"`
}

type streamStep struct {
	Op     string        `json:"op"`
	T      string        `json:"t"`
	V      interface{}   `json:"v"`
	B      []interface{} `json:"b"`
	K      int           `json:"k"`
	N      int           `json:"n"`
	I      int           `json:"i"`
	J      int           `json:"j"`
	OK     bool          `json:"ok"`
	Set    bool          `json:"set"`
	Failed bool          `json:"failed"`
	Why    string        `json:"why"`
	Rerr   bool          `json:"rerr"`
	Vals   []streamVal   `json:"vals"`
	Wr     []struct {
		B     []interface{} `json:"b"`
		Err   bool          `json:"err"`
		Exact bool          `json:"exact"`
	} `json:"wr"`
	Outs [][]interface{} `json:"outs"`
}

// unreported names the kind of an error that the code does not report.
func (s *streamStep) unreported() string {
	switch {
	case s.Op == "read" && !s.Failed || s.Op == "decbuf":
		return map[string]string{"user": "report", "bound": "bound-dec", "short": "mut-short"}[s.Why]
	case (s.Op == "write" || s.Op == "encbuf") && s.T != "bomb":
		return "bound-enc"
	case s.Op == "write" || s.Op == "encbuf":
		return "report"
	}
	return "sticky"
}

type streamTrace struct {
	Mode string        `json:"mode"`
	Inp  []interface{} `json:"inp"`
	Pos  int           `json:"pos"`
	H    []streamStep  `json:"h"`
}

func (r *runner) stream(reg map[string]reflect.Type, tr *streamTrace) {
	ty := func(n string) (*Type, reflect.Type) {
		g, ok := reg[n]
		if !ok {
			panic("driver: no type " + n)
		}
		return &Type{K: "ref", N: n}, g
	}
	in := Bytes(tr.Inp)
	rd := xdr.MakeReader(fresh(in))
	wrs := []*xdr.XdrState{xdr.MakeWriter(nil), xdr.MakeWriter(append(make([]byte, 0, 64), "PRE"...))}
	var vals, srcs []reflect.Value
	var outs [][]byte
	frozen := make([][]byte, 2)
	for si := range tr.H {
		s := &tr.H[si]
		where := func() string {
			var o string
			for _, p := range tr.H[:si+1] {
				o += " " + p.Op
				if p.T != "" {
					o += "(" + p.T + ")"
				}
			}
			return fmt.Sprintf("after%s on %s", o, hex(in))
		}
		encoding := false
		switch s.Op {
		case "read":
			t, g := ty(s.T)
			rv, keep := reflect.New(g).Elem(), reflect.New(g).Elem()
			Junk(rv, 2)
			Junk(keep, 2)
			xd(rv).Xdr(rd)
			if s.Failed && !reflect.DeepEqual(rv.Interface(), keep.Interface()) {
				r.obs("sticky", "a decode on a failed stream stores into its destination %s", where())
			}
			if !s.Rerr {
				if rd.Error() != nil {
					r.obs("dec", "decoding fails (%v) %s", rd.Error(), where())
					return
				}
				if p := r.env.Project(t, rv); !same(p, s.Vals[len(s.Vals)-1].V) {
					r.obs("dec", "decoding gives %s, want %s, %s", show(p), show(s.Vals[len(s.Vals)-1].V), where())
					return
				}
				vals = append(vals, rv)
			}
		case "rseterr":
			rd.SetError("user")
		case "rsetsize":
			n := uint32(4242)
			rd.EncodingSetSize(&n, 7)
			if n != 4242 {
				r.obs("sticky", "EncodingSetSize stored into its destination when decoding %s", where())
			}
		case "overwrite", "append":
			f := vals[s.I-1]
			if f.Kind() == reflect.Struct {
				f = f.Field(s.J - 1)
			}
			if s.Op == "append" {
				f.Set(reflect.AppendSlice(f, reflect.ValueOf([]byte{170, 187, 204, 221, 238}).Convert(f.Type())))
			} else {
				b := f.Bytes()
				for i := range b {
					b[i] = 238
				}
			}
		case "write":
			encoding = true
			t, g := ty(s.T)
			rv := reflect.New(g).Elem()
			r.env.Inject(t, s.V, rv)
			xd(rv).Xdr(wrs[s.K-1])
			srcs = append(srcs, rv)
		case "wseterr":
			wrs[s.K-1].SetError("user")
		case "wsetsize":
			n := uint32(4242)
			wrs[s.K-1].EncodingSetSize(&n, s.N)
			if s.Set && n != uint32(s.N) {
				r.obs("enc", "EncodingSetSize(%d) gives %d %s", s.N, n, where())
			}
			if !s.Set && n != 4242 {
				r.obs("sticky", "EncodingSetSize on a failed stream stored into its destination %s", where())
			}
		case "modify":
			scribble(srcs[s.I-1])
		case "encbuf":
			encoding = true
			t, g := ty(s.T)
			rv := reflect.New(g).Elem()
			r.env.Inject(t, s.V, rv)
			b, err := xdr.EncodeBuf(xd(rv))
			srcs = append(srcs, rv)
			if s.OK && err != nil {
				r.obs("enc", "EncodeBuf fails (%v) %s", err, where())
				return
			}
			if !s.OK && err == nil {
				r.obs(s.unreported(), "EncodeBuf reports no error %s", where())
			}
			if s.OK {
				outs = append(outs, b)
			}
		case "outappend":
			outs[s.I-1] = append(outs[s.I-1], 170, 187, 204, 221, 238)
		case "outoverwrite":
			for i := range outs[s.I-1] {
				outs[s.I-1][i] = 238
			}
		case "decbuf":
			t, g := ty(s.T)
			rv := reflect.New(g).Elem()
			err := xdr.DecodeBuf(fresh(Bytes(s.B)), xd(rv))
			if s.OK && err != nil {
				r.obs("dec", "DecodeBuf of %s fails (%v) %s", hex(Bytes(s.B)), err, where())
				return
			}
			if !s.OK && err == nil {
				r.obs(s.unreported(), "DecodeBuf of %s reports no error %s", hex(Bytes(s.B)), where())
			}
			if s.OK {
				if p := r.env.Project(t, rv); !same(p, s.Vals[len(s.Vals)-1].V) {
					r.obs("dec", "DecodeBuf of %s gives %s, want %s, %s", hex(Bytes(s.B)), show(p), show(s.Vals[len(s.Vals)-1].V), where())
					return
				}
				vals = append(vals, rv)
			}
		default:
			panic("driver: unknown step " + s.Op)
		}
		// Compare everything with the model.
		if (rd.Error() != nil) != s.Rerr {
			kind := "sticky"
			if s.Rerr {
				kind = s.unreported()
			}
			r.obs(kind, "decoding stream's error is %v, want an error: %v, %s", rd.Error(), s.Rerr, where())
			return
		}
		if rd.Decoding() == s.Rerr || rd.Encoding() {
			r.obs("sticky", "decoding stream: Decoding()=%v Encoding()=%v %s", rd.Decoding(), rd.Encoding(), where())
		}
		for i, v := range vals {
			t, _ := ty(s.Vals[i].T)
			if p := r.env.Project(t, v); !same(p, s.Vals[i].V) {
				r.obs("alias", "decoded value %d is now %s, want %s, %s", i+1, show(p), show(s.Vals[i].V), where())
				return
			}
		}
		for k, w := range wrs {
			m := s.Wr[k]
			if (w.Error() != nil) != m.Err {
				kind := "sticky"
				if !m.Err && encoding {
					kind = "enc"
				}
				if m.Err && frozen[k] == nil {
					kind = s.unreported()
				}
				r.obs(kind, "encoding stream %d: error %v, want an error: %v, %s", k+1, w.Error(), m.Err, where())
				return
			}
			if w.Encoding() == m.Err || w.Decoding() {
				r.obs("sticky", "encoding stream %d: Encoding()=%v Decoding()=%v %s", k+1, w.Encoding(), w.Decoding(), where())
			}
			got := w.WriteBuf()
			if frozen[k] != nil {
				if !bytes.Equal(got, frozen[k]) {
					r.obs("sticky", "failed encoding stream %d has emitted more: %s, was %s, %s", k+1, hex(got), hex(frozen[k]), where())
					return
				}
			} else if m.Exact {
				if !bytes.Equal(got, Bytes(m.B)) {
					kind := "alias"
					if encoding && s.K == k+1 {
						kind = "enc"
					}
					r.obs(kind, "encoding stream %d holds %s, want %s, %s", k+1, hex(got), hex(Bytes(m.B)), where())
					return
				}
			} else if !bytes.HasPrefix(got, Bytes(m.B)) {
				r.obs("sticky", "failed encoding stream %d lost what it had: %s, %s", k+1, hex(got), where())
				return
			}
			if m.Err && frozen[k] == nil {
				frozen[k] = append([]byte{}, got...)
			}
		}
		for i, o := range outs {
			if !bytes.Equal(o, Bytes(s.Outs[i])) {
				kind := "alias"
				if encoding && i == len(outs)-1 {
					kind = "enc"
				}
				r.obs(kind, "buffer %d from EncodeBuf is %s, want %s, %s", i+1, hex(o), hex(Bytes(s.Outs[i])), where())
				return
			}
		}
	}
	// What is left of the input is still there, unless the stream has failed.
	if tr.Mode == "r" && rd.Error() == nil {
		rest := in[tr.Pos-1:]
		whole := len(rest) / 4 * 4
		got := make([]byte, whole)
		xdr.XdrArray(rd, got)
		if rd.Error() != nil || !bytes.Equal(got, rest[:whole]) {
			kind := "dec"
			for _, s := range tr.H {
				if s.Op == "append" || s.Op == "overwrite" {
					kind = "alias"
				}
			}
			r.obs(kind, "the rest of the input is %s (%v), want %s, after %s", hex(got), rd.Error(), hex(rest[:whole]), show(tr.H))
			return
		}
		var w [4]byte
		xdr.XdrArray(rd, w[:])
		if rd.Error() == nil {
			r.obs("prefix", "4 bytes decoded from the %d that were left of %s", len(rest)-whole, hex(in))
		}
	}
}

// StreamMain replays the behaviours in the files given as arguments.
func StreamMain(reg map[string]reflect.Type, args []string) {
	fs := flag.NewFlagSet("stream", flag.ExitOnError)
	in := fs.String("in", "", "environment")
	outp := fs.String("out", "", "observations")
	fs.Parse(args)
	var inp Input
	raw, err := os.ReadFile(*in)
	if err == nil {
		err = json.Unmarshal(raw, &inp)
	}
	if err != nil {
		panic(err)
	}
	of, err := os.Create(*outp)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(of)
	r := &runner{env: Env(inp.Env), out: json.NewEncoder(w), w: w, stats: map[string]int{}}
	id := 0
	for _, fn := range fs.Args() {
		f, err := os.Open(fn)
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for ; sc.Scan(); id++ {
			var line string
			var tr streamTrace
			if err := json.Unmarshal(sc.Bytes(), &line); err != nil {
				panic(err)
			}
			if err := json.Unmarshal([]byte(line), &tr); err != nil {
				panic(err)
			}
			r.cur = Case{Ty: "stream", ID: id}
			r.stats["behaviours"]++
			r.stats["steps"] += len(tr.H)
			r.guard("panic", func() { r.stream(reg, &tr) })
		}
		if sc.Err() != nil {
			panic(sc.Err())
		}
		f.Close()
	}
	st, _ := json.Marshal(r.stats)
	fmt.Fprintf(w, "{\"kind\":\"stats\",\"stats\":%s}\n", st)
	w.Flush()
	of.Close()
}
