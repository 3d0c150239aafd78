prop="M01"
needs="An optional sequence whose first part matches and whose second part does not."
breaks="An optional part that does not match consumes the tokens of its partial match."
edits=[("tpl/grammar.go","""		p.len = 0
		return 0, nil
	}
	p.len = 1
	return
}

func (p *grRepeat01) Marshal""","""		p.len = 0
		return n, nil
	}
	p.len = 1
	return
}

func (p *grRepeat01) Marshal""")]
demo='''
package main

import "github.com/qiniu/text/tpl"

func main() {
	g := tpl.And(tpl.Repeat01(tpl.And(tpl.Gr(tpl.IDENT), tpl.Gr('='))), tpl.Gr(tpl.IDENT), tpl.Gr('+'))
	m := &tpl.Matcher{Grammar: g}
	if err := m.Eval("a +"); err != nil {
		panic(err)
	}
}
'''
