prop="K02"
needs="An expression that fails half-way, then a good one, then a look at whether anything else is left."
breaks="Operands of an earlier expression are left over in the calculator."
edits=[("tpl/number/number.go","	v, ok = p.stk.Pop()\n	p.stk.Clear()\n	return","	v, ok = p.stk.Pop()\n	return")]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/number"
)

func main() {
	c := number.New()
	e, err := interpreter.New(c, nil)
	if err != nil {
		panic(err)
	}
	func() {
		defer func() { recover() }()
		e.Eval("1 + 2 + nope(3)")
	}()
	if err := e.Eval("4"); err != nil {
		panic(err)
	}
	if v, ok := c.Ret(); !ok || v != 4 {
		panic("wrong value")
	}
	if v, ok := c.Ret(); ok {
		println(v)
		panic("an operand is left over")
	}
}
'''
