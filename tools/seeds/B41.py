prop='S06'
needs='A scanner is used again and the second source begins with a line comment that names a position.'
breaks='The comment is not taken for one, positions are off.'
edits=[('tpl/scanner.go', '\ts.rdOffset = 0\n\ts.lineOffset = 0\n', '\ts.rdOffset = 0\n')]
demo=r'''
package main

import (
	"go/token"
	"github.com/qiniu/text/tpl"
)

func line(s *tpl.Scanner, src string) int {
	fset := token.NewFileSet()
	f := fset.AddFile("x", -1, len(src))
	s.Init(f, []byte(src), nil, 0)
	t := s.Scan()
	p := f.Position(t.Pos)
	for s.Scan().Kind != tpl.EOF {
	}
	return p.Line
}

func main() {
	var s tpl.Scanner
	const src = "//line y:42\nb"
	line(&s, "a\nb\nc")
	if n := line(&s, src); n != 42 {
		panic(n)
	}
}
'''
