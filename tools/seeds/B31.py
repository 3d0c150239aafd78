prop='Q13'
needs='The smallest of an integer and a float of which the float comes first.'
breaks='The result is an integer for floats.'
edits=[('tpl/qlang/lib/builtin/number.go', '\t\t\tif kind == reflect.Float64 || kind == reflect.Int {\n\t\t\t\tif t == reflect.Int {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tif t == reflect.Float64 {\n\t\t\t\t\tkind = reflect.Float64\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn reflect.Invalid\n\t\t}\n\t}\n\treturn kind\n}\n\nfunc kindOf2Args', '\t\t\tif kind == reflect.Float64 || kind == reflect.Int {\n\t\t\t\tif t == reflect.Int || t == reflect.Float64 {\n\t\t\t\t\tkind = t\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn reflect.Invalid\n\t\t}\n\t}\n\treturn kind\n}\n\nfunc kindOf2Args')]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func eval(l qlang.Qlang, s string) interface{} {
	if err := l.SafeEval(s); err != nil {
		panic(err)
	}
	v, _ := l.Ret()
	return v
}

func main() {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	if v := eval(l, `min(2.5, 3)`); v != 2.5 {
		panic(v)
	}
}
'''
