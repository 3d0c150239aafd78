prop="C02"
needs="A number other than 1 that starts with the digit 1 as a factor in a grammar."
breaks="A malformed grammar compiles."
edits=[("tpl/compiler.go","		if tokens[0].Literal != \"1\" {","		if tokens[0].Literal[0] != '1' {")]
demo='''
package main

import (
	"os"

	"github.com/qiniu/text/tpl"
)

func main() {
	defer func() {
		recover() // rejected
	}()
	c := &tpl.Compiler{Grammar: []byte("doc = IDENT 12\\n")}
	if _, err := c.Cl(); err == nil {
		println("a malformed grammar compiles")
		os.Exit(1)
	}
}
'''
