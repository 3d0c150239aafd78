prop="M07"
needs="A choice of which two alternatives get equally far, past the first token."
breaks="The error blames one of the alternatives instead of the choice."
edits=[("tpl/grammar.go","""			if n == nMax {
				multiErr = true
			} else {""","""			if n == nMax {
				multiErr = errMax == nil
			} else {""")]
demo='''
package main

import (
	"strings"

	"github.com/qiniu/text/tpl"
)

func main() {
	g := tpl.Or(tpl.And(tpl.Gr(tpl.IDENT), tpl.Gr('=')), tpl.And(tpl.Gr(tpl.IDENT), tpl.Gr('(')))
	m := &tpl.Matcher{Grammar: g}
	err := m.Eval("a + b")
	if err == nil || !strings.Contains(err.Error(), "|") {
		panic("the choice is not reported")
	}
}
'''
