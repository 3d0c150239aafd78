prop='Q16'
needs='A character literal of a rune that is no byte, not an ASCII escape.'
breaks='The literal gets the low byte of its rune instead of being rejected.'
edits=[('tpl/qlang/cl/qlang.go', '\tif tail != "" || multibyte {\n', '\tif tail != "" || multibyte && v < 0x100 {\n')]
demo=r'''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func main() {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	if err := l.SafeEval(`x = '\u4e16'`); err == nil {
		panic("not rejected")
	}
	if err := l.SafeEval(`x = 'a'`); err != nil {
		panic(err)
	}
}
'''
