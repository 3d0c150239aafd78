prop='Q06'
needs='unset of a variable of an outer function that was read before.'
breaks='The variable of the outer function is removed, too.'
edits=[('tpl/qlang/cl/function.go', '\tdelete(p.vars, name)\n', '\tif e, ok := p.vars[name].(externVar); ok {\n\t\tdelete(e.vars, name)\n\t}\n\tdelete(p.vars, name)\n')]
demo=r'''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func main() {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	if err := l.SafeEval("x = 1; f = fn() { _y = x; unset(\"x\"); return _y }; f()"); err != nil {
		panic(err)
	}
	l.Ret()
	if v, ok := l.Var("x"); !ok || v != 1 {
		panic(v)
	}
}
'''
