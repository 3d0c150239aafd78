prop='Q12'
needs='A script that fails inside an expression, then a script whose value is a statement that leaves none.'
breaks='The second script gets a value the failed one left.'
edits=[('tpl/qlang/cl/qlang.go', '\tv, ok = p.stk.Pop()\n\tp.Clear()\n\treturn', '\tv, ok = p.stk.Pop()\n\treturn')]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func eval(l qlang.Qlang, s string) interface{} {
	if err := l.SafeEval(s); err != nil {
		panic(err)
	}
	v, _ := l.Ret()
	return v
}

func main() {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	if l.SafeEval(`[1, 2, nosuch]`) == nil {
		panic("no error")
	}
	l.Ret()
	eval(l, `x = 3`)
	if v, ok := l.Ret(); ok {
		panic(v)
	}
}
'''
