prop='S05'
needs='The length of the operator with the largest kind.'
breaks='Its length is 0.'
edits=[('tpl/token.go', '\trtokens = make(map[string]uint, 64)\n\tfor i, s := range tokens {', '\trtokens = make(map[string]uint, 64)\n\tfor i, s := range tokens[:ELLIPSIS] {')]
demo=r'''
package main

import (
	"github.com/qiniu/text/tpl"
)

func main() {
	if k := tpl.Lit2Token("\"...\""); k != tpl.ELLIPSIS {
		panic(k)
	}
}
'''
