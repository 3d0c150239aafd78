prop='Q09'
needs='A slice literal of an integer, a float and then something that is no number.'
breaks='The literal is rejected.'
edits=[('tpl/qlang/lib/builtin/number.go', '\t\t\t\tif t == reflect.Float64 {\n\t\t\t\t\tkind = reflect.Float64\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn reflect.Invalid\n\t\t}\n\t}\n\treturn kind\n}\n\nfunc kindOf2Args', '\t\t\t\tif t == reflect.Float64 {\n\t\t\t\t\treturn reflect.Float64\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn reflect.Invalid\n\t\t}\n\t}\n\treturn kind\n}\n\nfunc kindOf2Args')]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func eval(l qlang.Qlang, s string) interface{} {
	if err := l.SafeEval(s); err != nil {
		panic(err)
	}
	v, _ := l.Ret()
	return v
}

func main() {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	if v := eval(l, `s = [1, 2.5, "a"]; s[2]`); v != "a" {
		panic(v)
	}
}
'''
