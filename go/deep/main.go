// deep TYPE N: decodes a linked list of N elements and counts them.
package main

import (
	"fmt"
	"os"
	"strconv"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/rfc1813"
	"github.com/zeldovich/go-rpcgen/xdr"
)

func main() {
	n, err := strconv.Atoi(os.Args[2])
	if err != nil {
		panic(err)
	}
	var elem, end []byte
	got := 0
	switch os.Args[1] {
	case "groups":
		// an export entry whose group list has n elements with empty names
		elem = []byte{0, 0, 0, 1, 0, 0, 0, 0}
		end = []byte{0, 0, 0, 0, 0, 0, 0, 0}
		buf := []byte{0, 0, 0, 0}
		for i := 0; i < n; i++ {
			buf = append(buf, elem...)
		}
		buf = append(buf, end...)
		var v rfc1813.Exports3
		err = xdr.DecodeBuf(buf, &v)
		for g := v.Ex_groups; g != nil; g = g.Gr_next {
			got++
		}
	case "pmap":
		elem = append([]byte{0, 0, 0, 1}, make([]byte, 16)...)
		var buf []byte
		for i := 0; i < n; i++ {
			buf = append(buf, elem...)
		}
		buf = append(buf, 0, 0, 0, 0)
		var v rfc1057.Pmaplist
		err = xdr.DecodeBuf(buf, &v)
		for p := v.P; p != nil; p = p.Next.P {
			got++
		}
	default:
		panic("unknown type")
	}
	if err != nil {
		fmt.Println("ERROR", err)
		return
	}
	fmt.Println("DECODED", got)
}
