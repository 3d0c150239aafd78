prop="S04"
needs="An escape sequence with eight hexadecimal digits above the Unicode range in a string or character literal."
breaks="A literal with an invalid code point is scanned without an error."
edits=[("tpl/scanner.go","		n, base, max = 8, 16, unicode.MaxRune","		n, base, max = 8, 16, 1<<32-1")]
demo='''
package main

import "github.com/qiniu/text/tpl"

func main() {
	m := &tpl.Matcher{}
	if _, err := m.Tokenize([]byte(`"\\U00110000"`), ""); err == nil {
		panic("an invalid code point is accepted")
	}
}
'''
