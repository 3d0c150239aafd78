prop='S01'
needs='An imaginary number that begins with the digit 0.'
breaks='It is scanned as a number and a name.'
edits=[('tpl/scanner.go', "s.ch == 'E' || s.ch == 'i' {\n\t\t\t\tgoto fraction", "s.ch == 'E' {\n\t\t\t\tgoto fraction")]
demo=r'''
package main

import (
	"github.com/qiniu/text/tpl"
)

func main() {
	m := &tpl.Matcher{}
	toks, err := m.Tokenize([]byte("017i"), "")
	if err != nil || len(toks) != 1 || toks[0].Kind != tpl.IMAG || toks[0].Literal != "017i" {
		panic(toks)
	}
}
'''
