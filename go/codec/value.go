// Package codec replays XDR cases emitted by the TLA+ specification into real
// Go types: it injects model values into Go values, projects Go values back to
// model values, and compares.
package codec

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"
)

// Type mirrors the type records of Xdr.tla.
type Type struct {
	K     string      `json:"k"`
	N     interface{} `json:"n"` // ref: string; fixed/array: number
	Max   int64       `json:"max"`
	T     *Type       `json:"t"`
	F     []Field     `json:"f"`
	D     *Field      `json:"d"`
	Arms  []Arm       `json:"arms"`
	Def   []Field     `json:"def"`
	Items []Item      `json:"items"`
}

type Field struct {
	N string `json:"n"`
	T *Type  `json:"t"`
}

type Arm struct {
	Cs []interface{} `json:"cs"`
	N  string        `json:"n"`
	T  *Type         `json:"t"`
}

type Item struct {
	N string        `json:"n"`
	V []interface{} `json:"v"`
}

func (t *Type) Size() int   { return int(t.N.(float64)) }
func (t *Type) Ref() string { return t.N.(string) }

// GoName is the documented mapping from XDR to Go identifiers.
func GoName(s string) string {
	switch s {
	case "TRUE":
		return "true"
	case "FALSE":
		return "false"
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

type Env map[string]*Type

func (e Env) Resolve(t *Type) *Type {
	for t.K == "ref" {
		u, ok := e[t.Ref()]
		if !ok {
			panic("model: unknown type " + t.Ref())
		}
		t = u
	}
	return t
}

func Bytes(v interface{}) []byte {
	a := v.([]interface{})
	b := make([]byte, len(a))
	for i, x := range a {
		b[i] = byte(x.(float64))
	}
	return b
}

func eqVal(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// ArmOf gives the name and type of the arm that discriminant d selects, nil if void.
func (e Env) ArmOf(t *Type, d interface{}) (string, *Type) {
	for i := range t.Arms {
		for _, c := range t.Arms[i].Cs {
			if eqVal(c, d) {
				if t.Arms[i].T.K == "void" {
					return "", nil
				}
				return t.Arms[i].N, t.Arms[i].T
			}
		}
	}
	if len(t.Def) == 1 && t.Def[0].T.K != "void" {
		return t.Def[0].N, t.Def[0].T
	}
	return "", nil
}

// ShapeError reports that a Go type does not have the shape of the model type.
type ShapeError struct{ Msg string }

func (e ShapeError) Error() string { return e.Msg }

func shape(f string, a ...interface{}) { panic(ShapeError{fmt.Sprintf(f, a...)}) }

func field(rv reflect.Value, name string) reflect.Value {
	if rv.Kind() != reflect.Struct {
		shape("%v is not a struct", rv.Type())
	}
	f := rv.FieldByName(GoName(name))
	if !f.IsValid() {
		shape("%v has no field %s", rv.Type(), GoName(name))
	}
	return f
}

// unwrap steps into the struct{P *T} that represents a typedef of optional data.
func unwrap(rv reflect.Value) reflect.Value {
	if rv.Kind() == reflect.Struct && rv.NumField() == 1 && rv.Type().Field(0).Name == "P" {
		return rv.Field(0)
	}
	return rv
}

func want(rv reflect.Value, kinds ...reflect.Kind) {
	for _, k := range kinds {
		if rv.Kind() == k {
			return
		}
	}
	shape("%v has kind %v, want one of %v", rv.Type(), rv.Kind(), kinds)
}

// Inject stores model value v of type t into rv.
func (e Env) Inject(t *Type, v interface{}, rv reflect.Value) {
	t = e.Resolve(t)
	switch t.K {
	case "int", "uint", "enum", "fussy":
		want(rv, reflect.Int32, reflect.Uint32)
		w := binary.BigEndian.Uint32(Bytes(v))
		if rv.Kind() == reflect.Int32 {
			rv.SetInt(int64(int32(w)))
		} else {
			rv.SetUint(uint64(w))
		}
	case "hyper", "uhyper":
		want(rv, reflect.Int64, reflect.Uint64)
		w := binary.BigEndian.Uint64(Bytes(v))
		if rv.Kind() == reflect.Int64 {
			rv.SetInt(int64(w))
		} else {
			rv.SetUint(w)
		}
	case "bool":
		want(rv, reflect.Bool)
		rv.SetBool(v.(bool))
	case "void", "fail":
	case "fixed":
		want(rv, reflect.Array)
		b := Bytes(v)
		if rv.Len() != len(b) {
			shape("%v has length %d, want %d", rv.Type(), rv.Len(), len(b))
		}
		for i := range b {
			rv.Index(i).SetUint(uint64(b[i]))
		}
	case "opaque":
		want(rv, reflect.Slice)
		rv.SetBytes(Bytes(v))
	case "string":
		want(rv, reflect.String)
		rv.SetString(string(Bytes(v)))
	case "array":
		want(rv, reflect.Array)
		a := v.([]interface{})
		if rv.Len() != len(a) {
			shape("%v has length %d, want %d", rv.Type(), rv.Len(), len(a))
		}
		for i := range a {
			e.Inject(t.T, a[i], rv.Index(i))
		}
	case "varray":
		want(rv, reflect.Slice)
		a := v.([]interface{})
		s := reflect.MakeSlice(rv.Type(), len(a), len(a))
		for i := range a {
			e.Inject(t.T, a[i], s.Index(i))
		}
		rv.Set(s)
	case "opt":
		rv = unwrap(rv)
		want(rv, reflect.Ptr)
		a := v.([]interface{})
		if len(a) == 0 {
			rv.Set(reflect.Zero(rv.Type()))
		} else {
			p := reflect.New(rv.Type().Elem())
			e.Inject(t.T, a[0], p.Elem())
			rv.Set(p)
		}
	case "struct":
		a := v.([]interface{})
		for i := range t.F {
			if t.F[i].T.K != "void" {
				e.Inject(t.F[i].T, a[i], field(rv, t.F[i].N))
			}
		}
	case "union":
		u := v.(map[string]interface{})
		e.Inject(t.D.T, u["d"], field(rv, t.D.N))
		if n, at := e.ArmOf(t, u["d"]); at != nil {
			e.Inject(at, u["a"].([]interface{})[0], field(rv, n))
		}
	default:
		panic("model: unknown kind " + t.K)
	}
}

func fromBytes(b []byte) interface{} {
	a := make([]interface{}, len(b))
	for i := range b {
		a[i] = float64(b[i])
	}
	return a
}

// Project reads the model value of type t out of rv.
func (e Env) Project(t *Type, rv reflect.Value) interface{} {
	t = e.Resolve(t)
	switch t.K {
	case "int", "uint", "enum", "fussy":
		want(rv, reflect.Int32, reflect.Uint32)
		var b [4]byte
		if rv.Kind() == reflect.Int32 {
			binary.BigEndian.PutUint32(b[:], uint32(rv.Int()))
		} else {
			binary.BigEndian.PutUint32(b[:], uint32(rv.Uint()))
		}
		return fromBytes(b[:])
	case "hyper", "uhyper":
		want(rv, reflect.Int64, reflect.Uint64)
		var b [8]byte
		if rv.Kind() == reflect.Int64 {
			binary.BigEndian.PutUint64(b[:], uint64(rv.Int()))
		} else {
			binary.BigEndian.PutUint64(b[:], rv.Uint())
		}
		return fromBytes(b[:])
	case "bool":
		want(rv, reflect.Bool)
		return rv.Bool()
	case "void":
		return []interface{}{}
	case "fixed":
		want(rv, reflect.Array)
		b := make([]byte, rv.Len())
		for i := range b {
			b[i] = byte(rv.Index(i).Uint())
		}
		return fromBytes(b)
	case "opaque":
		want(rv, reflect.Slice)
		return fromBytes(rv.Bytes())
	case "string":
		want(rv, reflect.String)
		return fromBytes([]byte(rv.String()))
	case "array", "varray":
		want(rv, reflect.Array, reflect.Slice)
		a := make([]interface{}, rv.Len())
		for i := range a {
			a[i] = e.Project(t.T, rv.Index(i))
		}
		return a
	case "opt":
		rv = unwrap(rv)
		want(rv, reflect.Ptr)
		if rv.IsNil() {
			return []interface{}{}
		}
		return []interface{}{e.Project(t.T, rv.Elem())}
	case "struct":
		a := make([]interface{}, len(t.F))
		for i := range t.F {
			if t.F[i].T.K == "void" {
				a[i] = []interface{}{}
			} else {
				a[i] = e.Project(t.F[i].T, field(rv, t.F[i].N))
			}
		}
		return a
	case "union":
		d := e.Project(t.D.T, field(rv, t.D.N))
		u := map[string]interface{}{"d": d, "a": []interface{}{}}
		if n, at := e.ArmOf(t, d); at != nil {
			u["a"] = []interface{}{e.Project(at, field(rv, n))}
		}
		return u
	}
	panic("model: unknown kind " + t.K)
}

// CheckShape verifies that Go type g is what the generator promises for t.
// top says that t is the definition of a named type.
func (e Env) CheckShape(t *Type, g reflect.Type, unsignedEnum, top bool) {
	k := func(kind reflect.Kind) {
		if g.Kind() != kind {
			shape("%v has kind %v, want %v", g, g.Kind(), kind)
		}
	}
	plain := func() { // not a named type
		if !top && g.PkgPath() != "" {
			shape("%v should be an unnamed type", g)
		}
	}
	switch t.K {
	case "int":
		k(reflect.Int32)
		plain()
	case "uint":
		k(reflect.Uint32)
		plain()
	case "hyper":
		k(reflect.Int64)
		plain()
	case "uhyper":
		k(reflect.Uint64)
		plain()
	case "enum":
		if unsignedEnum {
			k(reflect.Uint32)
		} else {
			k(reflect.Int32)
		}
	case "bool":
		k(reflect.Bool)
		plain()
	case "fixed":
		k(reflect.Array)
		if g.Len() != t.Size() || g.Elem().Kind() != reflect.Uint8 {
			shape("%v should be [%d]byte", g, t.Size())
		}
	case "opaque":
		k(reflect.Slice)
		if g.Elem().Kind() != reflect.Uint8 {
			shape("%v should be []byte", g)
		}
	case "string":
		k(reflect.String)
	case "array":
		k(reflect.Array)
		if g.Len() != t.Size() {
			shape("%v should have %d elements", g, t.Size())
		}
		e.CheckShape(t.T, g.Elem(), unsignedEnum, false)
	case "varray":
		k(reflect.Slice)
		e.CheckShape(t.T, g.Elem(), unsignedEnum, false)
	case "opt":
		if top {
			k(reflect.Struct)
			if g.NumField() != 1 || g.Field(0).Name != "P" {
				shape("%v should be struct{P *T}", g)
			}
			g = g.Field(0).Type
		}
		k(reflect.Ptr)
		e.CheckShape(t.T, g.Elem(), unsignedEnum, false)
	case "struct":
		k(reflect.Struct)
		n := 0
		for _, f := range t.F {
			if f.T.K == "void" {
				continue
			}
			if n >= g.NumField() || g.Field(n).Name != GoName(f.N) {
				shape("%v: field %d should be %s", g, n, GoName(f.N))
			}
			e.CheckShape(f.T, g.Field(n).Type, unsignedEnum, false)
			n++
		}
		if n != g.NumField() {
			shape("%v has %d fields, want %d", g, g.NumField(), n)
		}
	case "union":
		k(reflect.Struct)
		fs := []Field{*t.D}
		for _, a := range t.Arms {
			fs = append(fs, Field{a.N, a.T})
		}
		fs = append(fs, t.Def...)
		n := 0
		for _, f := range fs {
			if f.T.K == "void" {
				continue
			}
			sf, ok := g.FieldByName(GoName(f.N))
			if !ok {
				shape("%v has no field %s", g, GoName(f.N))
			}
			e.CheckShape(f.T, sf.Type, unsignedEnum, false)
			n++
		}
		if n != g.NumField() {
			shape("%v has %d fields, want %d", g, g.NumField(), n)
		}
	case "ref":
		if top { // a typedef of a named type has that type's shape
			e.CheckShape(e[t.Ref()], g, unsignedEnum, true)
		} else if g.Name() != GoName(t.Ref()) {
			shape("%v should be %s", g, GoName(t.Ref()))
		}
	}
}
