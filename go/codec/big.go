package codec

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type bigCase struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	Max  int64  `json:"max"`
	OK   bool   `json:"ok"`
	Word []int  `json:"word"`
	Pad  int    `json:"pad"`
	W    []int  `json:"w"`
	Have int    `json:"have"`
}

func toB(w []int) []byte {
	b := make([]byte, len(w))
	for i := range w {
		b[i] = byte(w[i])
	}
	return b
}

// BigMain replays XdrBig.tla: args are the case file and the output.
func BigMain(args []string) {
	var in struct {
		Cases, Claims []bigCase
	}
	raw, err := os.ReadFile(args[0])
	if err == nil {
		err = json.Unmarshal(raw, &in)
	}
	if err != nil {
		panic(err)
	}
	of, err := os.Create(args[1])
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(of)
	r := &runner{out: json.NewEncoder(w), w: w, stats: map[string]int{}}
	rw := func(c *bigCase, xs *xdr.XdrState, b *[]byte, s *string) {
		if c.Kind == "string" {
			xdr.XdrString(xs, int(c.Max), s)
		} else {
			xdr.XdrVarArray(xs, int(c.Max), b)
		}
	}
	for i := range in.Cases {
		c := &in.Cases[i]
		r.cur = Case{Ty: fmt.Sprintf("%s<%d>", c.Kind, c.Max), ID: i}
		r.stats["good"]++
		data := make([]byte, c.N)
		for k := range data {
			data[k] = byte(k*7 + k/251)
		}
		want := append(append(toB(c.Word), data...), make([]byte, c.Pad)...)
		r.guard("panic-enc", func() {
			b, s := append([]byte(nil), data...), string(data)
			wr := xdr.MakeWriter(nil)
			rw(c, wr, &b, &s)
			switch {
			case c.OK && wr.Error() != nil:
				r.obs("bound-accept", "encoding %d bytes fails: %v", c.N, wr.Error())
			case !c.OK && wr.Error() == nil:
				r.obs("bound-enc", "encoding %d bytes is no error", c.N)
			case c.OK && !bytes.Equal(wr.WriteBuf(), want):
				r.obs("enc", "encoding %d bytes gives the wrong bytes", c.N)
			}
		})
		r.guard("panic-dec", func() {
			var b []byte
			var s string
			tail := []byte{1, 2, 3, 4}
			rd := xdr.MakeReader(append(append([]byte(nil), want...), tail...))
			rw(c, rd, &b, &s)
			got := b
			if c.Kind == "string" {
				got = []byte(s)
			}
			switch {
			case c.OK && rd.Error() != nil:
				r.obs("bound-accept", "decoding %d bytes fails: %v", c.N, rd.Error())
			case !c.OK && rd.Error() == nil:
				r.obs("bound-dec", "decoding %d bytes is no error", c.N)
			case c.OK && !bytes.Equal(got, data):
				r.obs("dec", "decoding %d bytes gives the wrong bytes", c.N)
			case c.OK && !tailIs(rd, tail):
				r.obs("dec", "decoding %d bytes does not consume exactly the encoding", c.N)
			}
		})
		for _, cut := range []int{4, 5, len(want) / 2, len(want) - c.Pad - 1, len(want) - 1} {
			r.guard("panic-dec", func() {
				var b []byte
				var s string
				rd := xdr.MakeReader(fresh(want[:cut]))
				rw(c, rd, &b, &s)
				if rd.Error() == nil {
					r.obs("prefix", "decoding %d of the %d bytes is no error", cut, len(want))
				}
			})
		}
	}
	for i := range in.Claims {
		c := &in.Claims[i]
		r.cur = Case{Ty: fmt.Sprintf("%s<%d>", c.Kind, c.Max), ID: i}
		r.stats["mutations"]++
		r.guard("panic-dec", func() {
			in := append(toB(c.W), "abcdefgh"[:c.Have]...)
			for _, buf := range [][]byte{fresh(in), append(make([]byte, 0, 64), in...)} {
				var b []byte
				var s string
				rd := xdr.MakeReader(buf)
				if n := measured(func() { rw(c, rd, &b, &s) }); n > allocLimit(len(in)) {
					r.obs("alloc", "decoding %s allocates %d bytes", hex(in), n)
				}
				if rd.Error() == nil {
					r.obs("mut-short", "decoding %s, which claims more than there is, is no error", hex(in))
				}
				r.failedReader(rd)
			}
		})
	}
	st, _ := json.Marshal(r.stats)
	fmt.Fprintf(w, "{\"kind\":\"stats\",\"stats\":%s}\n", st)
	w.Flush()
	of.Close()
}
