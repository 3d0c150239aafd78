prop='Q10'
needs='A host function that returns a 64 bit integer of that very type.'
breaks='The result is no integer to the script.'
edits=[('tpl/qlang/cl/qlang.go', '\tcase kind > reflect.Int && kind <= reflect.Int64:', '\tcase kind > reflect.Int && kind < reflect.Int64:')]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func eval(l qlang.Qlang, s string) interface{} {
	if err := l.SafeEval(s); err != nil {
		panic(err)
	}
	v, _ := l.Ret()
	return v
}

func main() {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	l.SetVar("f", func() int64 { return 41 })
	if v := eval(l, `f() + 1`); v != 42 {
		panic(v)
	}
}
'''
