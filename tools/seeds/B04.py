prop="M02"
needs="A recursive rule: a repetition that is entered again while it is matching its own element."
breaks="The number of elements of an outer repetition is the one of the inner one plus the rest."
edits=[("tpl/grammar.go","""	g := p.g
	len := 0
	for {
		n1, err1 := g.Match(src, ctx)
		if err1 != nil {
			p.len = len
			return
		}
		len++
		n += n1
		src = src[n1:]
		if n1 == 0 { // no progress
			p.len = len
			return
		}
	}
}

func (p *grRepeat0) Marshal""","""	g := p.g
	p.len = 0
	for {
		n1, err1 := g.Match(src, ctx)
		if err1 != nil {
			return
		}
		p.len++
		n += n1
		src = src[n1:]
		if n1 == 0 { // no progress
			return
		}
	}
}

func (p *grRepeat0) Marshal""")]
demo='''
package main

import (
	"fmt"

	"github.com/qiniu/text/tpl"
)

func main() {
	c := &tpl.Compiler{}
	var lens []int
	c.Grammar = []byte("list = '(' *item/count ')'\\nitem = INT | list\\ndoc = list\\n")
	c.Marker = func(g tpl.Grammar, mark string) tpl.Grammar {
		return tpl.Action(g, func(toks []tpl.Token, g tpl.Grammar) { lens = append(lens, g.Len()) })
	}
	ret, err := c.Cl()
	if err != nil {
		panic(err)
	}
	if err := ret.Eval("(1 (2 3 4) 5)"); err != nil {
		panic(err)
	}
	if fmt.Sprint(lens) != "[3 3]" {
		panic(fmt.Sprint("wrong counts: ", lens))
	}
}
'''
