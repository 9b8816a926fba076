// Package spew is an offline stand-in for github.com/davecgh/go-spew/spew.
package spew

import (
	"fmt"
	"io"
	"os"
)

func Fdump(w io.Writer, a ...interface{}) {
	for _, v := range a {
		fmt.Fprintf(w, "%#v\n", v)
	}
}

func Dump(a ...interface{}) { Fdump(os.Stdout, a...) }

func Sdump(a ...interface{}) string {
	s := ""
	for _, v := range a {
		s += fmt.Sprintf("%#v\n", v)
	}
	return s
}

func Sprint(a ...interface{}) string                 { return fmt.Sprint(a...) }
func Sprintf(f string, a ...interface{}) string      { return fmt.Sprintf(f, a...) }
func Printf(f string, a ...interface{}) (int, error) { return fmt.Printf(f, a...) }
func Println(a ...interface{}) (int, error)          { return fmt.Println(a...) }
