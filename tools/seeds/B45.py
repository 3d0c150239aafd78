prop='S04'
needs='A comment that is never closed at the end of the source.'
breaks='The source is taken for a good one.'
edits=[('tpl/match.go', '\t\tif errTok != nil {\n\t\t\treturn tokens, errTok\n\t\t}\n\t\ttokens = append(tokens, token)\n', '\t\ttokens = append(tokens, token)\n'), ('tpl/match.go', '\t\t\ttokens = tokens[:len(tokens)-1]\n\t\t\tbreak\n\t\t}\n', '\t\t\ttokens = tokens[:len(tokens)-1]\n\t\t\tbreak\n\t\t}\n\t\tif errTok != nil {\n\t\t\treturn tokens[:len(tokens)-1], errTok\n\t\t}\n')]
demo=r'''
package main

import (
	"github.com/qiniu/text/tpl"
)

func main() {
	m := &tpl.Matcher{}
	if toks, err := m.Tokenize([]byte("a /* b"), ""); err == nil {
		panic(toks)
	}
}
'''
