prop="C01"
needs="A repetition directly inside a repetition, with a mark that takes its length."
breaks="Nested repetitions are merged into one, so the count the mark sees is another one."
edits=[("tpl/compiler.go","""		a := stk[n-1]
		stk[n-1] = Repeat0(a)""","""		a := stk[n-1]
		if _, ok := a.(*grRepeat0); ok {
			return
		}
		stk[n-1] = Repeat0(a)""")]
demo='''
package main

import "github.com/qiniu/text/tpl"

func main() {
	n := -1
	c := &tpl.Compiler{Grammar: []byte("doc = **IDENT/count\\n"), Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
		return tpl.Action(g, func(toks []tpl.Token, g tpl.Grammar) { n = g.Len() })
	}}
	ret, err := c.Cl()
	if err != nil {
		panic(err)
	}
	if err := ret.Eval("a b c"); err != nil || n != 2 { // three at once, then none
		panic("wrong count")
	}
}
'''
