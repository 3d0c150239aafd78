prop='Q01'
needs='An integer compared to a float that is not whole.'
breaks='The float is truncated before the comparison.'
edits=[('tpl/qlang/lib/builtin/boolean.go', '\t\tcase float64:\n\t\t\treturn float64(a1) >= b1', '\t\tcase float64:\n\t\t\treturn a1 >= int(b1)')]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func eval(l qlang.Qlang, s string) interface{} {
	if err := l.SafeEval(s); err != nil {
		panic(err)
	}
	v, _ := l.Ret()
	return v
}

func main() {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	if v := eval(l, `1 >= 1.5`); v != false {
		panic(v)
	}
}
'''
