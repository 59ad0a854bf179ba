// Package spew is a stand-in for github.com/davecgh/go-spew/spew.
package spew

import (
	"fmt"
	"io"
	"os"
)

func Dump(a ...interface{}) { Fdump(os.Stdout, a...) }
func Fdump(w io.Writer, a ...interface{}) {
	for _, x := range a {
		fmt.Fprintf(w, "(%T) %v\n", x, x)
	}
}
func Sdump(a ...interface{}) string {
	s := ""
	for _, x := range a {
		s += fmt.Sprintf("(%T) %v\n", x, x)
	}
	return s
}
