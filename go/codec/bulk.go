package codec

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type bulkDef struct {
	N string `json:"n"`
	T *Type  `json:"t"`
}

type bulkCase struct {
	Ty   string        `json:"ty"`
	N    int           `json:"n"`
	OK   bool          `json:"ok"`
	Cyc  []interface{} `json:"cyc"`
	Enc  [][]int       `json:"enc"`
	Head []int         `json:"head"`
	Pad  int           `json:"pad"`
}

// BulkMain replays XdrBulk.tla: args are the case file and the output.
func BulkMain(reg map[string]reflect.Type, args []string) {
	var in struct {
		Elems, Defs []bulkDef
		Cases       []bulkCase
	}
	raw, err := os.ReadFile(args[0])
	if err == nil {
		err = json.Unmarshal(raw, &in)
	}
	if err != nil {
		panic(err)
	}
	of, err := os.Create(args[1])
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(of)
	r := &runner{env: Env{}, out: json.NewEncoder(w), w: w, stats: map[string]int{}}
	for _, d := range append(in.Elems, in.Defs...) {
		r.env[d.N] = d.T
	}
	for i := range in.Cases {
		c := &in.Cases[i]
		g, ok := reg[c.Ty]
		if !ok {
			continue
		}
		r.cur = Case{Ty: c.Ty, ID: -1}
		r.stats["good"]++
		t := r.env[c.Ty]
		want := toB(c.Head)
		for k := 0; k < c.N; k++ {
			for _, b := range c.Enc[k%len(c.Enc)] {
				want = append(want, byte(b))
			}
		}
		want = append(want, make([]byte, c.Pad)...)
		// The value, as a user would write it.
		val := reflect.New(g).Elem()
		if !r.guard("shape", func() { r.bulkValue(t, c, val) }) {
			continue
		}
		r.guard("panic-enc", func() {
			wr := xdr.MakeWriter(nil)
			xd(val).Xdr(wr)
			switch {
			case c.OK && wr.Error() != nil:
				r.obs("bound-accept", "encoding %d elements fails: %v", c.N, wr.Error())
			case !c.OK && wr.Error() == nil:
				r.obs("bound-enc", "encoding %d elements is no error", c.N)
			case c.OK && !bytes.Equal(wr.WriteBuf(), want):
				r.obs("enc", "encoding %d elements gives the wrong bytes", c.N)
			}
			again := reflect.New(g).Elem()
			r.bulkValue(t, c, again)
			if !reflect.DeepEqual(val.Interface(), again.Interface()) {
				r.obs("enc", "encoding %d elements changes the value", c.N)
			}
		})
		for dirty := 0; dirty < 3; dirty++ {
			r.guard("panic-dec", func() {
				tail := []byte{1, 2, 3, 4}
				got := reflect.New(g).Elem()
				if dirty == 1 {
					Junk(got, 4)
				} else if dirty == 2 {
					Shared(got)
				}
				buf := append(append([]byte(nil), want...), tail...)
				rd := xdr.MakeReader(buf)
				if n := measured(func() { xd(got).Xdr(rd) }); n > allocLimit(len(buf)) {
					r.obs("alloc", "decoding %d elements (%d bytes) allocates %d bytes", c.N, len(buf), n)
				}
				switch {
				case c.OK && rd.Error() != nil:
					r.obs("bound-accept", "decoding %d elements fails: %v", c.N, rd.Error())
				case !c.OK && rd.Error() == nil:
					r.obs("bound-dec", "decoding %d elements is no error", c.N)
				case c.OK && !reflect.DeepEqual(got.Interface(), val.Interface()):
					r.obs("dec", "decoding %d elements gives another value", c.N)
				case c.OK && !tailIs(rd, tail):
					r.obs("dec", "decoding %d elements does not consume exactly the encoding", c.N)
				}
			})
		}
		if !c.OK {
			continue
		}
		for _, cut := range []int{4, 5, len(want) / 2, len(want) - c.Pad - 4, len(want) - c.Pad - 1, len(want) - 1} {
			r.stats["mutations"]++
			r.guard("panic-dec", func() {
				got := reflect.New(g).Elem()
				rd := xdr.MakeReader(fresh(want[:cut]))
				xd(got).Xdr(rd)
				if rd.Error() == nil {
					r.obs("prefix", "decoding %d of the %d bytes is no error", cut, len(want))
				}
				r.failedReader(rd)
			})
		}
	}
	st, _ := json.Marshal(r.stats)
	fmt.Fprintf(w, "{\"kind\":\"stats\",\"stats\":%s}\n", st)
	w.Flush()
	of.Close()
}

func (r *runner) bulkValue(t *Type, c *bulkCase, rv reflect.Value) {
	switch t.K {
	case "opaque", "string", "fixed":
		b := make([]byte, c.N)
		for k := range b {
			b[k] = byte(c.Cyc[k%len(c.Cyc)].(float64))
		}
		switch {
		case t.K == "opaque":
			want(rv, reflect.Slice)
			rv.SetBytes(b)
		case t.K == "string":
			want(rv, reflect.String)
			rv.SetString(string(b))
		default:
			want(rv, reflect.Array)
			if rv.Len() != c.N {
				shape("%v has %d bytes, want %d", rv.Type(), rv.Len(), c.N)
			}
			reflect.Copy(rv, reflect.ValueOf(b))
		}
	case "varray", "array":
		if t.K == "varray" {
			want(rv, reflect.Slice)
			rv.Set(reflect.MakeSlice(rv.Type(), c.N, c.N))
		} else {
			want(rv, reflect.Array)
			if rv.Len() != c.N {
				shape("%v has %d elements, want %d", rv.Type(), rv.Len(), c.N)
			}
		}
		for k := 0; k < c.N; k++ {
			r.env.Inject(t.T, c.Cyc[k%len(c.Cyc)], rv.Index(k))
		}
	default:
		panic("model: no bulk values of " + t.K)
	}
}
