prop='S01'
needs='An identifier with a character that is a number but no decimal digit, as a superscript.'
breaks='The character becomes part of the identifier.'
edits=[('tpl/scanner.go', "ch >= 0x80 && unicode.IsDigit(ch)", "ch >= 0x80 && unicode.IsNumber(ch)")]
demo='''
package main

import (
	"go/token"

	"github.com/qiniu/text/tpl"
)

func main() {
	src := []byte("x²")
	s := new(tpl.Scanner)
	s.Init(token.NewFileSet().AddFile("", -1, len(src)), src, nil, 0)
	if t := s.Scan(); t.Literal != "x" {
		panic(t.Literal)
	}
	if t := s.Scan(); t.Kind != tpl.ILLEGAL {
		panic(t.Kind)
	}
}
'''
