prop='K01'
needs='A hexadecimal literal written with an uppercase X.'
breaks='The literal is an error instead of its value.'
edits=[('tpl/interpreter/interpreter.go', "\t\tcase 'x', 'X':\n\t\t\tv1, err1", "\t\tcase 'x':\n\t\t\tv1, err1")]
demo=r'''
package main

import (
	"github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/number"
)

func main() {
	c := number.New()
	e, err := interpreter.New(c, nil)
	if err != nil {
		panic(err)
	}
	if err := e.Eval("1 + 0XfF"); err != nil {
		panic(err)
	}
	if v, _ := c.Ret(); v != 256 {
		panic(v)
	}
}
'''
