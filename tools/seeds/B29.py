prop='Q05'
needs='A call that spreads an empty slice.'
breaks='The function gets a nil argument.'
edits=[('tpl/qlang/cl/qlang.go', '\t\t\tn := v.Len()\n\t\t\tfor i := 0; i < n; i++ {\n\t\t\t\tstk.Push(v.Index(i).Interface())\n\t\t\t}\n\t\t\tarity += (n - 1)', '\t\t\tn := v.Len()\n\t\t\tif n == 0 {\n\t\t\t\tstk.Push(nil)\n\t\t\t\tn++\n\t\t\t}\n\t\t\tfor i := 0; i < v.Len(); i++ {\n\t\t\t\tstk.Push(v.Index(i).Interface())\n\t\t\t}\n\t\t\tarity += (n - 1)')]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func eval(l qlang.Qlang, s string) interface{} {
	if err := l.SafeEval(s); err != nil {
		panic(err)
	}
	v, _ := l.Ret()
	return v
}

func main() {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	if v := eval(l, `f = fn(a...) { return len(a) }; f([]...)`); v != 0 {
		panic(v)
	}
}
'''
