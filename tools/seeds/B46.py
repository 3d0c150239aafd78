prop='M05'
needs='A list whose element and separator both match no token, at the end of the document.'
breaks='Matching never ends.'
edits=[('tpl/grammar.go', '\t\tlen++\n\t\tn += n1\n\t\tsrc = src[n1:]\n\t\tif n1 == 0 { // no progress\n\t\t\tp.len = len\n\t\t\treturn\n\t\t}\n\t}\n}\n\nfunc (p *grList) Marshal', '\t\tlen++\n\t\tn += n1\n\t\tsrc = src[n1:]\n\t\tif n == 0 { // no progress\n\t\t\tp.len = len\n\t\t\treturn\n\t\t}\n\t}\n}\n\nfunc (p *grList) Marshal')]
demo=r'''
package main

import (
	"time"
	"github.com/qiniu/text/tpl"
)

func main() {
	m := &tpl.Matcher{Grammar: tpl.List(tpl.Repeat0(tpl.Gr(tpl.INT)), tpl.Repeat0(tpl.Gr(tpl.COMMA)))}
	done := make(chan error)
	go func() { done <- m.Eval("1, 2") }()
	select {
	case err := <-done:
		if err != nil {
			panic(err)
		}
	case <-time.After(10 * time.Second):
		panic("does not end")
	}
}
'''
