prop='S06'
needs='A scanner that is used for a second source in another directory, with a line comment that names a relative file.'
breaks='The place is reported in the directory of the first source.'
edits=[('tpl/scanner.go', '	s.dir, _ = filepath.Split(file.Name())', '	if s.dir == "" {\n		s.dir, _ = filepath.Split(file.Name())\n	}')]
demo='''
package main

import (
	"go/token"

	"github.com/qiniu/text/tpl"
)

func main() {
	s := new(tpl.Scanner)
	fs := token.NewFileSet()
	s.Init(fs.AddFile("a/x", -1, 1), []byte("x"), nil, 0)
	for s.Scan().Kind != tpl.EOF {
	}
	src := []byte("//line y:10\\nz")
	f := fs.AddFile("b/x", -1, len(src))
	s.Init(f, src, nil, 0)
	if p := fs.Position(s.Scan().Pos).String(); p != "b/y:10:1" {
		panic(p)
	}
}
'''
