prop="M04"
needs="An action on a grammar that can match nothing and has no length (the empty grammar, a lookahead)."
breaks="The action of a successful match of no tokens is not run."
edits=[("tpl/grammar.go","	p.act(src[:n], g)\n","	if n > 0 || g.Len() >= 0 {\n		p.act(src[:n], g)\n	}\n")]
demo='''
package main

import "github.com/qiniu/text/tpl"

func main() {
	calls := 0
	g := tpl.And(tpl.Action(tpl.Not(tpl.Gr(tpl.INT)), func(toks []tpl.Token, g tpl.Grammar) { calls++ }), tpl.Gr(tpl.IDENT))
	m := &tpl.Matcher{Grammar: g}
	if err := m.Eval("a"); err != nil || calls != 1 {
		panic("the action of a lookahead is not run")
	}
}
'''
