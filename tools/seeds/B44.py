prop='S03'
needs='A line end inside of the second of two comments that follow the last token of a line.'
breaks='No semicolon is inserted.'
edits=[('tpl/scanner.go', "\t\t\t// non-comment token\n\t\t\treturn false\n\t\t}\n\t\ts.next() // consume '/'\n\t}\n", "\t\t\t// non-comment token\n\t\t\treturn false\n\t\t}\n\t\ts.next() // consume '/'\n\t\tif s.ch == '*' && offs+4 < s.offset {\n\t\t\treturn false\n\t\t}\n\t}\n"), ('tpl/scanner.go', "func (s *Scanner) findLineEnd() bool {\n\t// initial '/' already consumed\n", "func (s *Scanner) findLineEnd() bool {\n\t// initial '/' already consumed\n\toffs := s.offset\n")]
demo=r'''
package main

import (
	"github.com/qiniu/text/tpl"
)

func main() {
	m := &tpl.Matcher{ScanMode: tpl.InsertSemis}
	toks, err := m.Tokenize([]byte("a /*x*/ /*\n*/ b"), "")
	if err != nil || len(toks) != 4 || toks[1].Kind != tpl.SEMICOLON {
		panic(toks)
	}
}
'''
