prop='Q02'
needs='An and operator in the right operand of an or operator whose left operand is false.'
breaks='The right operand is rejected.'
edits=[('tpl/qlang/cl/ctrl.go', '\tevalCode(e, p, "term4", bCode)', '\tevalCode(e, p, "term3", bCode)')]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func eval(l qlang.Qlang, s string) interface{} {
	if err := l.SafeEval(s); err != nil {
		panic(err)
	}
	v, _ := l.Ret()
	return v
}

func main() {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	if v := eval(l, `1 > 2 || 1 < 2 && 2 < 3`); v != true {
		panic(v)
	}
}
'''
