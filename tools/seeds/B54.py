prop='K03'
needs='An expression that fails after an operand was computed, then a good expression whose values are all taken.'
breaks='The value that was left over from the failed expression is a second value of the next one.'
edits=[('tpl/rat/big.go', '\tv, ok = p.stk.Pop()\n\tp.stk.Clear()\n\treturn\n', '\tif v, ok = p.stk.Pop(); len(*p.stk) > 1 {\n\t\tp.stk.Clear()\n\t}\n\treturn\n')]
demo=r'''
package main

import (
	"github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/rat"
)

func main() {
	c := rat.New()
	e, err := interpreter.New(c, nil)
	if err != nil {
		panic(err)
	}
	func() {
		defer func() { recover() }()
		e.Eval("2 + +")
	}()
	if err := e.Eval("3"); err != nil {
		panic(err)
	}
	v, ok := c.Ret()
	if !ok || v.RatString() != "3" {
		panic(v)
	}
	if v, ok = c.Ret(); ok {
		panic("a second value: " + v.RatString())
	}
}
'''
