prop='M06'
needs='A source that is a list of tokens and does not match to its end, where what is left is one token.'
breaks='The rest of the tokens is ignored.'
edits=[('tpl/compiler.go', '\t\tif len(doc) != matched {\n', '\t\tif len(doc) > matched+1 || matched == 0 && len(doc) != 0 {\n')]
demo=r'''
package main

import (
	"github.com/qiniu/text/tpl"
)

func main() {
	c := &tpl.Compiler{Grammar: []byte("item = *INT\ndoc = item\n")}
	ret, err := c.Cl()
	if err != nil {
		panic(err)
	}
	toks, err := ret.Tokenize([]byte("1 2 a"), "")
	if err != nil {
		panic(err)
	}
	if ret.EvalSub("item", toks) == nil {
		panic("matches")
	}
	if err := ret.EvalSub("item", toks[:2]); err != nil {
		panic(err)
	}
}
'''
