prop='M07'
needs='A mismatch more than nine lines after the start of the sequence that failed.'
breaks='The text that is shown ends before the mismatch.'
edits=[('tpl/grammar.go', '\tif len(text) < errpos-start {\n', '\tif len(text) < errpos-start && idxErr == 0 {\n')]
demo=r'''
package main

import (
	"strings"

	"github.com/qiniu/text/tpl"
)

func main() {
	c := &tpl.Compiler{Grammar: []byte("doc = IDENT ! *INT IDENT\n")}
	ret, err := c.Cl()
	if err != nil {
		panic(err)
	}
	func() {
		defer func() {
			err = recover().(error)
		}()
		err = ret.MatchExactly([]byte("a\n1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n+ b"), "")
		panic(err)
	}()
	if !strings.Contains(err.Error(), "11\n") {
		panic(err)
	}
}
'''
