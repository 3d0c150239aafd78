prop='M06'
needs='A source that ends with a semicolon that was inserted.'
breaks='What follows the match is taken for matched.'
edits=[('tpl/match.go', '\tif len(next) != 0 {', '\tif len(next) > 1 || len(next) == 1 && next[0].Literal != "\\n" {')]
demo=r'''
package main

import (
	"github.com/qiniu/text/tpl"
)

func main() {
	m := &tpl.Matcher{Grammar: tpl.Gr(tpl.IDENT), ScanMode: tpl.InsertSemis}
	if m.Eval("a\n") == nil {
		panic("too many tokens")
	}
}
'''
