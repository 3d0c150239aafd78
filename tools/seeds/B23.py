prop='Q04'
needs='A loop that is an operand of an expression, with a first part and values below it on the stack.'
breaks='The value of the first part stays on the stack and shifts the operands.'
edits=[('tpl/qlang/cl/ctrl.go', '\t\t\t\tevalCode(e, p, "s", initCode)\n\t\t\t\tstk.Pop()\n', '\t\t\t\tevalCode(e, p, "s", initCode)\n')]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func eval(l qlang.Qlang, s string) interface{} {
	if err := l.SafeEval(s); err != nil {
		panic(err)
	}
	v, _ := l.Ret()
	return v
}

func main() {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	if v := eval(l, `s = [7, for i = 5; i < 6; i++ {}, 9]; s[0]`); v != 7 {
		panic(v)
	}
}
'''
