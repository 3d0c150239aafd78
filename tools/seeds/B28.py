prop='Q07'
needs='Two deferred functions that both call recover after an error.'
breaks='The second one gets the error that was already stopped.'
edits=[('tpl/qlang/cl/function.go', '\t\te := parent.Recov\n\t\tparent.Recov = nil\n\t\tp.stk.Push(e)', '\t\te := parent.Recov\n\t\tif e != nil {\n\t\t\tparent.recovered = true\n\t\t}\n\t\tp.stk.Push(e)'), ('tpl/qlang/cl/function.go', '\t\t\tstk.SetFrame(base)\n\t\t\tif calc', '\t\t\tstk.SetFrame(base)\n\t\t\tif calc.recovered {\n\t\t\t\tcalc.Recov = nil\n\t\t\t}\n\t\t\tif calc'), ('tpl/qlang/cl/qlang.go', '\tdefers *Defer\n\tbase   int\n}', '\tdefers *Defer\n\tbase   int\n\n\trecovered bool\n}')]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func eval(l qlang.Qlang, s string) interface{} {
	if err := l.SafeEval(s); err != nil {
		panic(err)
	}
	v, _ := l.Ret()
	return v
}

func main() {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	l.SetVar("fail", func() { panic("failed") })
	if v := eval(l, `n = 0; f = fn() { defer fn() { n; if recover() != nil { n = n + 1 } }(); defer fn() { n; if recover() != nil { n = n + 1 } }(); fail() }; f(); n`); v != 1 {
		panic(v)
	}
}
'''
