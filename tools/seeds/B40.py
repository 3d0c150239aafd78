prop='S02'
needs='A scanner that was stopped in the middle of a line by an error, then a source that begins with an empty line, in the mode that inserts semicolons.'
breaks='The second source gets a semicolon that belongs to the first one.'
edits=[('tpl/scanner.go', '\ts.lineOffset = 0\n\ts.insertSemi = false\n', '\ts.lineOffset = 0\n')]
demo=r'''
package main

import (
	"github.com/qiniu/text/tpl"
)

func main() {
	m := &tpl.Matcher{ScanMode: tpl.InsertSemis}
	if _, err := m.Tokenize([]byte("a \x00"), ""); err == nil {
		panic("no error")
	}
	toks, err := m.Tokenize([]byte("\nb"), "")
	if err != nil || len(toks) != 2 || toks[0].Kind != tpl.IDENT {
		panic(toks)
	}
}
'''
