prop='Q06'
needs='A variable read through two levels of functions: the middle function reads it first, the inner one reads it twice.'
breaks='The second read yields an internal value instead of the variable.'
edits=[('tpl/qlang/cl/function.go', '\t\t\t\t\tp.vars[name] = e // 缓存访问过的变量', '\t\t\t\t\tif !ok1 {\n\t\t\t\t\t\te = externVar{t.vars}\n\t\t\t\t\t}\n\t\t\t\t\tp.vars[name] = externVar{t.vars} // 缓存访问过的变量')]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func eval(l qlang.Qlang, s string) interface{} {
	if err := l.SafeEval(s); err != nil {
		panic(err)
	}
	v, _ := l.Ret()
	return v
}

func main() {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	if v := eval(l, `x = 3; f = fn() { a = x; g = fn() { b = x; return x }; return g() }; f()`); v != 3 {
		panic(v)
	}
}
'''
