prop="M03"
needs="A sequence with the fail-fast mark and at least two parts after it, of which the first matches and a later one does not."
breaks="Matching is not abandoned and the next alternative is tried."
edits=[("tpl/grammar.go","			return n + n1, err1\n		}\n		n += n1\n","			return n + n1, err1\n		}\n		failFast = false\n		n += n1\n")]
demo='''
package main

import "github.com/qiniu/text/tpl"

func main() {
	seq := tpl.And(tpl.Gr(tpl.IDENT), nil, tpl.Gr('='), tpl.Gr(tpl.INT))
	g := tpl.Or(seq, tpl.Repeat0(tpl.Not(tpl.GrEOF)))
	m := &tpl.Matcher{Grammar: g}
	defer func() {
		if recover() == nil {
			panic("matching goes on after the mark")
		}
	}()
	m.Match([]byte("a = b"), "")
}
'''
