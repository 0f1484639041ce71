package codec

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// Mut is an encoding with one word replaced, and what the model says of it.
type Mut struct {
	P   int         `json:"p"`
	W   []int       `json:"w"`
	OK  bool        `json:"ok"`
	V   interface{} `json:"v"`
	N   int         `json:"n"`
	Lax bool        `json:"lax"`
	Why string      `json:"why"`
	At  int         `json:"at"`
}

type Case struct {
	ID   int           `json:"id"`
	Ty   string        `json:"ty"`
	Kind string        `json:"kind"`
	V    interface{}   `json:"v"`
	B    []interface{} `json:"b"`
	M    []Mut         `json:"m"`
	At   int           `json:"at"`
}

// Obs is a disagreement between the code and the model.
type Obs struct {
	Kind string `json:"kind"`
	Ty   string `json:"ty"`
	ID   int    `json:"id"`
	Msg  string `json:"msg"`
}

type ConstWant struct {
	N    string `json:"n"`
	V    int64  `json:"v"`
	Type string `json:"type"` // kind of the constant, or name of its enum type
}

type Input struct {
	Env          map[string]*Type `json:"env"`
	UnsignedEnum bool             `json:"unsignedEnum"`
	Shape        bool             `json:"shape"`
	Consts       []ConstWant      `json:"consts"`
}

type runner struct {
	env   Env
	out   *json.Encoder
	w     *bufio.Writer
	nobs  int
	stats map[string]int
	cur   Case
	last  map[reflect.Type][]byte // the encoding in the previous case of a type
}

func (r *runner) obs(kind, f string, a ...interface{}) {
	r.nobs++
	r.stats["obs-"+kind]++
	if r.stats["obs-"+kind] > 200 {
		return
	}
	r.out.Encode(Obs{kind, r.cur.Ty, r.cur.ID, fmt.Sprintf(f, a...)})
	r.w.Flush()
}

// guard runs f; a panic is an observation of the given kind.
func (r *runner) guard(kind string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if s, is := p.(ShapeError); is {
				r.obs("shape", "%s", s.Msg)
			} else {
				r.obs(kind, "panic: %v", p)
			}
			ok = false
		}
	}()
	f()
	return true
}

// Junk fills rv with data that no decoder should leave visible.
func Junk(rv reflect.Value, depth int) {
	switch rv.Kind() {
	case reflect.Bool:
		rv.SetBool(true)
	case reflect.Int32, reflect.Int64:
		rv.SetInt(0x5a5a5a5a)
	case reflect.Uint8:
		rv.SetUint(0xa5)
	case reflect.Uint32, reflect.Uint64:
		rv.SetUint(0x5a5a5a5a)
	case reflect.String:
		rv.SetString("junk")
	case reflect.Slice:
		n := 3
		if depth <= 0 {
			n = 0
		}
		s := reflect.MakeSlice(rv.Type(), n, n+2)
		for i := 0; i < n; i++ {
			Junk(s.Index(i), depth-1)
		}
		rv.Set(s)
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			Junk(rv.Index(i), depth)
		}
	case reflect.Ptr:
		if depth > 0 {
			p := reflect.New(rv.Type().Elem())
			Junk(p.Elem(), depth-1)
			rv.Set(p)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			Junk(rv.Field(i), depth)
		}
	}
}

// Shared fills rv with data of which all pointers of a type point to one
// object, and all slices of a type are slices of one array.
func Shared(rv reflect.Value) {
	ptrs := map[reflect.Type]reflect.Value{}
	slices := map[reflect.Type]reflect.Value{}
	var fill func(rv reflect.Value)
	fill = func(rv reflect.Value) {
		switch rv.Kind() {
		case reflect.Slice:
			s, ok := slices[rv.Type()]
			if !ok {
				s = reflect.MakeSlice(rv.Type(), 16, 16)
				slices[rv.Type()] = s
				for i := 0; i < s.Len(); i++ {
					fill(s.Index(i))
				}
			}
			rv.Set(s.Slice(0, 2))
		case reflect.Array:
			for i := 0; i < rv.Len(); i++ {
				fill(rv.Index(i))
			}
		case reflect.Ptr:
			p, ok := ptrs[rv.Type()]
			if !ok {
				p = reflect.New(rv.Type().Elem())
				ptrs[rv.Type()] = p
				fill(p.Elem())
			}
			rv.Set(p)
		case reflect.Struct:
			for i := 0; i < rv.NumField(); i++ {
				fill(rv.Field(i))
			}
		default:
			Junk(rv, 0)
		}
	}
	fill(rv)
}

// byteLeaves lists all decoded []byte fields in rv.
func byteLeaves(rv reflect.Value, out *[]reflect.Value) {
	switch rv.Kind() {
	case reflect.Slice:
		if rv.Type().Elem().Kind() == reflect.Uint8 {
			*out = append(*out, rv)
			return
		}
		for i := 0; i < rv.Len(); i++ {
			byteLeaves(rv.Index(i), out)
		}
	case reflect.Array:
		if rv.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < rv.Len(); i++ {
			byteLeaves(rv.Index(i), out)
		}
	case reflect.Ptr:
		if !rv.IsNil() {
			byteLeaves(rv.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			byteLeaves(rv.Field(i), out)
		}
	}
}

// scribble overwrites all data reachable from rv.
func scribble(rv reflect.Value) {
	switch rv.Kind() {
	case reflect.Slice:
		if rv.Type().Elem().Kind() == reflect.Uint8 {
			b := rv.Bytes()
			for i := range b {
				b[i] ^= 0xff
			}
			return
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			scribble(rv.Index(i))
		}
	case reflect.Ptr:
		if !rv.IsNil() {
			scribble(rv.Elem())
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			scribble(rv.Field(i))
		}
	case reflect.Bool:
		rv.SetBool(!rv.Bool())
	case reflect.Int32, reflect.Int64:
		rv.SetInt(^rv.Int())
	case reflect.Uint8, reflect.Uint32, reflect.Uint64:
		rv.SetUint(rv.Uint() ^ 0x7f)
	case reflect.String:
		rv.SetString("scribbled")
	}
}

func xd(rv reflect.Value) xdr.Xdrable { return rv.Addr().Interface().(xdr.Xdrable) }

// fresh copies b into a slice whose capacity is its length, so that reads
// beyond it panic.
func fresh(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c[:len(c):len(c)]
}

func same(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func show(v interface{}) string {
	b, _ := json.Marshal(v)
	if len(b) > 300 {
		return string(b[:300]) + "..."
	}
	return string(b)
}

func hex(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%x... (%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// tailIs reports whether exactly the bytes of tail remain in rd.
func tailIs(rd *xdr.XdrState, tail []byte) bool {
	got := make([]byte, len(tail))
	xdr.XdrArray(rd, got) // len(tail) is a multiple of 4
	if rd.Error() != nil || !bytes.Equal(got, tail) {
		return false
	}
	var one [1]byte
	xdr.XdrArray(rd, one[:])
	return rd.Error() != nil
}

func (r *runner) good(t *Type, g reflect.Type, c *Case) {
	b := Bytes(c.B)
	mk := func() reflect.Value {
		rv := reflect.New(g).Elem()
		r.env.Inject(t, c.V, rv)
		return rv
	}
	if !r.guard("panic-enc", func() { mk() }) {
		return
	}
	if p := r.env.Project(t, mk()); !same(p, c.V) {
		panic(fmt.Sprintf("driver: inject/project differ: %s %s", show(p), show(c.V)))
	}
	tail := []byte{0xde, 0xad, 0xbe, 0xef, 1, 2, 3, 4}

	r.guard("panic-enc", func() {
		got, err := xdr.EncodeBuf(xd(mk()))
		if err != nil {
			r.obs("enc", "encoding %s: error %v", show(c.V), err)
		} else if !bytes.Equal(got, b) {
			r.obs("enc", "encoding %s gives %s, want %s", show(c.V), hex(got), hex(b))
		}
	})
	for _, spare := range []int{0, 3, 64} {
		r.guard("panic-enc", func() {
			pre := make([]byte, 5, 5+spare)
			copy(pre, "HELLO")
			wr := xdr.MakeWriter(pre)
			xd(mk()).Xdr(wr)
			if wr.Error() != nil {
				r.obs("enc", "encoding %s after a prefix: error %v", show(c.V), wr.Error())
			} else if got := wr.WriteBuf(); !bytes.Equal(got, append([]byte("HELLO"), b...)) {
				r.obs("enc", "encoding %s after a prefix gives %s", show(c.V), hex(got))
			}
		})
	}
	// A failed writer emits nothing.
	r.guard("panic-enc", func() {
		wr := xdr.MakeWriter([]byte("AB"))
		wr.SetError("user")
		before := mk()
		xd(before).Xdr(wr)
		if wr.Error() == nil {
			r.obs("sticky", "encoding to a failed stream cleared its error")
		}
		if string(wr.WriteBuf()) != "AB" {
			r.obs("sticky", "encoding to a failed stream emitted %s", hex(wr.WriteBuf()))
		}
		if !same(r.env.Project(t, before), c.V) {
			r.obs("sticky", "encoding to a failed stream changed the value")
		}
	})
	// Encoding leaves the value alone, and the buffer does not depend on it later.
	r.guard("panic-enc", func() {
		v := mk()
		wr := xdr.MakeWriter(nil)
		xd(v).Xdr(wr)
		if !same(r.env.Project(t, v), c.V) {
			r.obs("enc", "encoding changed the value %s", show(c.V))
		}
		got := wr.WriteBuf()
		keep := append([]byte(nil), got...)
		scribble(v)
		wr2 := xdr.MakeWriter(nil)
		j := reflect.New(g).Elem()
		Junk(j, 2)
		r.guard("panic-enc", func() { xd(j).Xdr(wr2) })
		if !bytes.Equal(got, keep) || !bytes.Equal(wr.WriteBuf(), keep) {
			r.obs("alias", "encoded buffer changed with the value it came from, or with another writer")
		}
	})

	// Decoding, into a fresh and into three dirty destinations.
	for mode := 0; mode < 4; mode++ {
		r.guard("panic-dec", func() {
			rv := reflect.New(g).Elem()
			if mode == 3 {
				Shared(rv)
			} else if mode > 0 {
				Junk(rv, mode)
			}
			rd := xdr.MakeReader(fresh(append(append([]byte(nil), b...), tail...)))
			xd(rv).Xdr(rd)
			if rd.Error() != nil {
				r.obs("dec", "decoding %s: error %v", hex(b), rd.Error())
				return
			}
			if p := r.env.Project(t, rv); !same(p, c.V) {
				r.obs("dec", "decoding %s (destination %s) gives %s, want %s", hex(b),
					[]string{"fresh", "used", "used", "used, its parts sharing memory"}[mode], show(p), show(c.V))
			}
			if !tailIs(rd, tail) {
				r.obs("dec", "decoding %s does not consume exactly the encoding", hex(b))
			}
		})
	}
	r.guard("panic-dec", func() {
		rv := reflect.New(g).Elem()
		if err := xdr.DecodeBuf(fresh(b), xd(rv)); err != nil {
			r.obs("dec", "DecodeBuf %s: error %v", hex(b), err)
		} else if p := r.env.Project(t, rv); !same(p, c.V) {
			r.obs("dec", "DecodeBuf %s gives %s, want %s", hex(b), show(p), show(c.V))
		}
	})
	// Every strict prefix is an error, also where the rest lies beyond its end.
	for n := 0; n < len(b); n++ {
		if len(b) > 200 && n > 40 && n < len(b)-40 && n%16 > 4 {
			continue
		}
		for mode := 0; mode < 2; mode++ {
			p := fresh(b[:n])
			if mode == 1 {
				p = fresh(b)[:n:len(b)]
			}
			r.guard("panic-dec", func() {
				rv := reflect.New(g).Elem()
				rd := xdr.MakeReader(p)
				xd(rv).Xdr(rd)
				if rd.Error() == nil {
					r.obs("prefix", "decoding %s, cut from %d to %d bytes, is no error", hex(p), len(b), n)
				}
				if mode == 0 {
					r.failedReader(rd)
				}
			})
		}
	}
	// A failed reader stores nothing.
	r.guard("panic-dec", func() {
		rv, keep := reflect.New(g).Elem(), reflect.New(g).Elem()
		Junk(rv, 2)
		Junk(keep, 2)
		rd := xdr.MakeReader(fresh(b))
		rd.SetError("user")
		xd(rv).Xdr(rd)
		if rd.Error() == nil {
			r.obs("sticky", "decoding from a failed stream cleared its error")
		}
		if !reflect.DeepEqual(rv.Interface(), keep.Interface()) {
			r.obs("sticky", "decoding from a failed stream stored into the destination")
		}
	})
	// Decoded byte fields are independent.
	r.guard("panic-dec", func() {
		rv := reflect.New(g).Elem()
		rd := xdr.MakeReader(fresh(append(append([]byte(nil), b...), tail...)))
		xd(rv).Xdr(rd)
		if rd.Error() != nil {
			return
		}
		var leaves []reflect.Value
		byteLeaves(rv, &leaves)
		orig := make([][]byte, len(leaves))
		for i := range leaves {
			orig[i] = append([]byte(nil), leaves[i].Bytes()...)
		}
		check := func(i int, how string) {
			for j := range leaves {
				if j != i && !bytes.Equal(leaves[j].Bytes(), orig[j]) {
					r.obs("alias", "%s byte field %d of %s changed byte field %d", how, i, hex(b), j)
					copy(leaves[j].Bytes(), orig[j])
				}
			}
		}
		for i := range leaves {
			_ = append(leaves[i].Bytes(), "0123456789abcdefghijklmnopqrstuvwxyz"...)
			check(i, "appending to")
			lb := leaves[i].Bytes()
			for k := range lb {
				lb[k] = ^lb[k]
			}
			check(i, "overwriting")
			copy(lb, orig[i])
		}
		if p := r.env.Project(t, rv); !same(p, c.V) {
			r.obs("alias", "changing byte fields changed other fields: %s, want %s", show(p), show(c.V))
		}
		for i := range leaves {
			_ = append(leaves[i].Bytes(), "0123456789abcdefghijklmnopqrstuvwxyz"...)
			lb := leaves[i].Bytes()
			for k := range lb {
				lb[k] = ^lb[k]
			}
		}
		if !tailIs(rd, tail) {
			r.obs("alias", "changing byte fields of %s changed the bytes still to be decoded", hex(b))
		}
		r.stats["byte-fields"] += len(leaves)
	})
	// What was taken from a variable is not changed when it is decoded into again.
	if other := r.last[g]; other != nil {
		r.guard("panic-dec", func() {
			rv, taken := reflect.New(g).Elem(), reflect.New(g).Elem()
			if xdr.DecodeBuf(fresh(b), xd(rv)) != nil {
				return
			}
			taken.Set(rv)
			if xdr.DecodeBuf(fresh(other), xd(rv)) != nil {
				return
			}
			if p := r.env.Project(t, taken); !same(p, c.V) {
				r.obs("alias", "decoding into a variable again changes what was taken from it: %s, was %s", show(p), show(c.V))
			}
		})
	}
	if r.last == nil {
		r.last = map[reflect.Type][]byte{}
	}
	r.last[g] = b
	for i := range c.M {
		r.mutation(t, g, b, &c.M[i])
	}
}

// failedReader checks that rd, which has failed, stays failed and stores nothing.
func (r *runner) failedReader(rd *xdr.XdrState) {
	if rd.Error() == nil {
		return
	}
	u, s, by, bo := uint32(77), "keep", []byte("keep"), true
	arr := [5]byte{9, 9, 9, 9, 9}
	xdr.XdrU32(rd, &u)
	xdr.XdrString(rd, -1, &s)
	xdr.XdrVarArray(rd, -1, &by)
	xdr.XdrArray(rd, arr[:])
	xdr.XdrBool(rd, &bo)
	if u != 77 || s != "keep" || string(by) != "keep" || arr != [5]byte{9, 9, 9, 9, 9} || !bo {
		r.obs("sticky", "an operation on a failed reader stored into its destination")
	}
	if rd.Error() == nil || rd.Decoding() || rd.Encoding() {
		r.obs("sticky", "a failed reader no longer reports its error")
	}
}

func (r *runner) failedWriter(wr *xdr.XdrState) {
	keep := append([]byte(nil), wr.WriteBuf()...)
	u, s, by := uint32(77), "abc", []byte("keep")
	xdr.XdrU32(wr, &u)
	xdr.XdrString(wr, -1, &s)
	xdr.XdrVarArray(wr, -1, &by)
	xdr.XdrArray(wr, by)
	if !bytes.Equal(keep, wr.WriteBuf()) {
		r.obs("sticky", "an operation on a failed writer emitted bytes")
	}
	if wr.Error() == nil || wr.Encoding() || wr.Decoding() {
		r.obs("sticky", "a failed writer no longer reports its error")
	}
}

// measured runs f and reports the bytes it allocated.
func measured(f func()) uint64 {
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	f()
	runtime.ReadMemStats(&m1)
	return m1.TotalAlloc - m0.TotalAlloc
}

func allocLimit(n int) uint64 { return 1<<20 + 1024*uint64(n) }

func (r *runner) mutation(t *Type, g reflect.Type, b []byte, m *Mut) {
	mb := fresh(b)
	for i, w := range m.W {
		mb[(m.P-1)*4+i] = byte(w)
	}
	r.stats["mutations"]++
	r.guard("panic-dec", func() {
		rv := reflect.New(g).Elem()
		keep := reflect.New(g).Elem()
		if m.At > 0 {
			Junk(rv, 2)
			Junk(keep, 2)
		}
		rd := xdr.MakeReader(mb)
		if n := measured(func() { xd(rv).Xdr(rd) }); n > allocLimit(len(mb)) {
			r.obs("alloc", "decoding the %d bytes %s allocates %d bytes", len(mb), hex(mb), n)
		}
		err := rd.Error()
		switch {
		case err != nil && m.OK && !m.Lax:
			r.obs("dec", "decoding %s: error %v, want %s", hex(mb), err, show(m.V))
		case err == nil && !m.OK && m.Why == "bound":
			r.obs("bound-dec", "decoding %s, whose length exceeds the declared bound, is no error", hex(mb))
		case err == nil && !m.OK:
			r.obs("mut-short", "decoding %s, which ends too early, is no error", hex(mb))
		case err == nil:
			if p := r.env.Project(t, rv); !same(p, m.V) {
				r.obs("dec", "decoding %s gives %s, want %s", hex(mb), show(p), show(m.V))
			} else if rest := len(mb) - m.N; rest%4 == 0 && !tailIs(rd, mb[m.N:]) {
				r.obs("dec", "decoding %s does not consume exactly %d bytes", hex(mb), m.N)
			}
		default:
			r.failedReader(rd)
			if m.At > 0 && !m.Lax {
				r.laterFields(t, rv, keep, m.At, mb)
			}
		}
	})
}

// laterFields checks that decoding that failed in component at of a struct
// has not touched the components after it.
func (r *runner) laterFields(t *Type, rv, keep reflect.Value, at int, b []byte) {
	u := r.env.Resolve(t)
	if u.K != "struct" {
		return
	}
	for i := at; i < len(u.F); i++ {
		if u.F[i].T.K == "void" {
			continue
		}
		if !reflect.DeepEqual(field(rv, u.F[i].N).Interface(), field(keep, u.F[i].N).Interface()) {
			r.obs("sticky", "decoding %s fails in field %d but stored into field %d", hex(b), at, i+1)
		}
	}
}

func (r *runner) bad(t *Type, g reflect.Type, c *Case) {
	b := Bytes(c.B)
	r.guard("panic-enc", func() {
		rv := reflect.New(g).Elem()
		r.env.Inject(t, c.V, rv)
		if got, err := xdr.EncodeBuf(xd(rv)); err == nil {
			r.obs("bound-enc", "encoding %s, which exceeds a declared bound, is no error (%s)", show(c.V), hex(got))
		}
		wr := xdr.MakeWriter([]byte("AB"))
		xd(rv).Xdr(wr)
		if wr.Error() != nil {
			if got := wr.WriteBuf(); len(got) < 2 || string(got[:2]) != "AB" {
				r.obs("sticky", "a failed writer lost the bytes it already had")
			}
			r.failedWriter(wr)
		}
	})
	r.guard("panic-dec", func() {
		rv, keep := reflect.New(g).Elem(), reflect.New(g).Elem()
		Junk(rv, 2)
		Junk(keep, 2)
		rd := xdr.MakeReader(fresh(b))
		if n := measured(func() { xd(rv).Xdr(rd) }); n > allocLimit(len(b)) {
			r.obs("alloc", "decoding the %d bytes %s allocates %d bytes", len(b), hex(b), n)
		}
		if rd.Error() == nil {
			r.obs("bound-dec", "decoding %s, whose length exceeds the declared bound, is no error", hex(b))
			return
		}
		r.failedReader(rd)
		if c.At > 0 {
			r.laterFields(t, rv, keep, c.At, b)
		}
	})
}

// Main replays the cases of a file.  reg maps type names to Go types.
func Main(reg map[string]reflect.Type, consts map[string]interface{}) {
	if len(os.Args) > 1 && os.Args[1] == "stream" {
		StreamMain(reg, os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "big" {
		BigMain(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "bulk" {
		BulkMain(reg, os.Args[2:])
		return
	}
	in := flag.String("in", "", "environment")
	cases := flag.String("cases", "", "cases")
	only := flag.Int("only", -1, "only this case")
	outp := flag.String("out", "", "observations")
	progress := flag.String("progress", "", "file that always holds the case being run")
	flag.Parse()
	debug.SetGCPercent(400)
	var inp Input
	raw, err := os.ReadFile(*in)
	if err == nil {
		err = json.Unmarshal(raw, &inp)
	}
	if err != nil {
		panic(err)
	}
	of, err := os.Create(*outp)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(of)
	r := &runner{env: Env(inp.Env), out: json.NewEncoder(w), w: w, stats: map[string]int{}}
	if inp.Shape {
		for n, t := range inp.Env {
			g, ok := reg[n]
			if !ok {
				continue
			}
			r.cur = Case{Ty: n, ID: -1}
			r.stats["shapes"]++
			r.guard("shape", func() { r.env.CheckShape(t, g, inp.UnsignedEnum, true) })
			if g.Name() != GoName(n) {
				r.obs("shape", "type %s is called %s", n, g.Name())
			}
		}
		for _, c := range inp.Consts {
			v, ok := consts[c.N]
			if !ok {
				continue
			}
			r.cur = Case{Ty: c.N, ID: -1}
			r.stats["consts"]++
			rv := reflect.ValueOf(v)
			var got int64
			switch rv.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				got = rv.Int()
			default:
				got = int64(rv.Uint())
			}
			if got != c.V {
				r.obs("const", "constant %s is %d, want %d", c.N, got, c.V)
			}
			if rv.Type().Name() != c.Type {
				r.obs("const", "constant %s has type %s, want %s", c.N, rv.Type().Name(), c.Type)
			}
		}
	}
	var cf *os.File
	if *cases != "" {
		cf, err = os.Open(*cases)
		if err != nil {
			panic(err)
		}
		var pf *os.File
		if *progress != "" {
			pf, err = os.Create(*progress)
			if err != nil {
				panic(err)
			}
		}
		sc := bufio.NewScanner(cf)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		var beat int64 = time.Now().UnixNano()
		go func() { // a case that takes minutes hangs
			for {
				time.Sleep(time.Second)
				if time.Now().UnixNano()-atomic.LoadInt64(&beat) > int64(60*time.Second) {
					fmt.Fprintln(os.Stderr, "HUNG")
					os.Exit(3)
				}
			}
		}()
		for id := 0; sc.Scan(); id++ {
			if *only >= 0 && id != *only {
				continue
			}
			atomic.StoreInt64(&beat, time.Now().UnixNano())
			var c Case
			if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
				panic(err)
			}
			c.ID = id
			g, ok := reg[c.Ty]
			if !ok {
				continue
			}
			if pf != nil {
				var n [8]byte
				binary.BigEndian.PutUint64(n[:], uint64(id))
				pf.WriteAt(n[:], 0)
			}
			r.cur = c
			r.stats[c.Kind]++
			t := &Type{K: "ref", N: c.Ty}
			if c.Kind == "good" {
				r.good(t, g, &c)
			} else {
				r.bad(t, g, &c)
			}
		}
		if sc.Err() != nil {
			panic(sc.Err())
		}
	}
	st, _ := json.Marshal(r.stats)
	fmt.Fprintf(w, "{\"kind\":\"stats\",\"stats\":%s}\n", st)
	w.Flush()
	of.Close()
}
