prop="K04"
needs="A second argument of complex that is not real."
breaks="The imaginary part of the second argument is dropped silently."
edits=[("tpl/cmplx/cmplx.go","""	if imag(a) != 0 || imag(b) != 0 {
		panic("function `complex` ""","""	if imag(a) != 0 {
		panic("function `complex` """)]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/cmplx"
	"github.com/qiniu/text/tpl/interpreter"
)

func main() {
	c := cmplx.New()
	e, err := interpreter.New(c, nil)
	if err != nil {
		panic(err)
	}
	failed := false
	func() {
		defer func() { failed = recover() != nil }()
		failed = e.Eval("complex(1, 2i)") != nil
	}()
	if !failed {
		panic("complex accepts an imaginary argument")
	}
}
'''
