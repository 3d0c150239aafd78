prop='Q03'
needs='A switch with a default whose matching case has an empty body.'
breaks='The default runs although a case matched.'
edits=[('tpl/qlang/cl/ctrl.go', '\t\t\tbodyCode := casebr[(i<<1)+1]\n\t\t\tif bodyCode == nil {\n\t\t\t\tstk.Push(nil)\n\t\t\t} else {\n\t\t\t\tevalCode(e, p, "doc", bodyCode)\n\t\t\t}\n\t\t\treturn\n\t\t}\n\t}\n\tif defaultCode == nil {', '\t\t\tbodyCode := casebr[(i<<1)+1]\n\t\t\tif bodyCode != nil {\n\t\t\t\tevalCode(e, p, "doc", bodyCode)\n\t\t\t\treturn\n\t\t\t}\n\t\t\tbreak\n\t\t}\n\t}\n\tif defaultCode == nil {')]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func eval(l qlang.Qlang, s string) interface{} {
	if err := l.SafeEval(s); err != nil {
		panic(err)
	}
	v, _ := l.Ret()
	return v
}

func main() {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	eval(l, `x = 0; y = switch 2 { case 1: x = 1; case 2: default: x = 9 }`)
	if v, _ := l.Var("x"); v != 0 {
		panic(v)
	}
}
'''
