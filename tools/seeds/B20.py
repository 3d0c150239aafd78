prop='Q09'
needs='A part with open end of a slice that is itself a part that ends before the end of the whole.'
breaks='The part has elements beyond the end of the slice.'
edits=[('tpl/qlang/lib/builtin/builtin.go', '\t\tj1 = va.Len()', '\t\tj1 = va.Cap()')]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func eval(l qlang.Qlang, s string) interface{} {
	if err := l.SafeEval(s); err != nil {
		panic(err)
	}
	v, _ := l.Ret()
	return v
}

func main() {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	if v := eval(l, `s = [1, 2, 3]; t = s[:2]; u = t[1:]; len(u)`); v != 1 {
		panic(v)
	}
}
'''
