prop="S03"
needs="Automatic semicolons; a token that ends a statement and, on its line, a block comment in which the line break lies, followed by more on the line where it ends."
breaks="The semicolon that the line break inside the comment stands for is lost."
edits=[("tpl/scanner.go","			ch := s.ch\n			if ch == '\\n' {\n				return true\n			}\n			s.next()\n","			ch := s.ch\n			s.next()\n")]
demo='''
package main

import "github.com/qiniu/text/tpl"

func main() {
	m := &tpl.Matcher{ScanMode: tpl.InsertSemis}
	toks, err := m.Tokenize([]byte("a /* x\\n */ b\\n"), "")
	if err != nil || len(toks) != 4 || toks[1].Kind != ';' {
		panic("the line break does not end the statement")
	}
}
'''
