prop='Q11'
needs='A script that assigns to a variable with the name of a module, and another interpreter that uses the module afterwards.'
breaks='The module is replaced for everybody.'
edits=[('tpl/qlang/cl/function.go', '\tvars := p.getVars(name)\n\tif v, ok := p.stk.Pop(); ok {\n\t\tvars[name] = v\n\t\tp.stk.Push(v)\n\t\treturn nil\n\t}\n\treturn ErrAssignWithoutVal', '\tvars := p.getVars(name)\n\tif _, ok := vars[name]; !ok {\n\t\tif _, ok = qlang.Fntable[name].(map[string]interface{}); ok {\n\t\t\tvars = qlang.Fntable\n\t\t}\n\t}\n\tif v, ok := p.stk.Pop(); ok {\n\t\tvars[name] = v\n\t\tp.stk.Push(v)\n\t\treturn nil\n\t}\n\treturn ErrAssignWithoutVal')]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func eval(s string) interface{} {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	if err := l.SafeEval(s); err != nil {
		panic(err)
	}
	v, _ := l.Ret()
	return v
}

func main() {
	qlang.Import("m", map[string]interface{}{"n": 7})
	if v := eval("m = 1; m + 1"); v != 2 {
		panic(v)
	}
	if v := eval("m.n"); v != 7 {
		panic(v)
	}
}
'''
