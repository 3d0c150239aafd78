prop="C03"
needs="A list whose element is an alternative."
breaks="The text of the grammar loses the parentheses around the element and denotes another grammar."
edits=[("tpl/grammar.go","	b = p.a.Marshal(b, t, lvlList)\n	b = append(b, ' ', '%')","	b = p.a.Marshal(b, t, 0)\n	b = append(b, ' ', '%')")]
demo='''
package main

import "github.com/qiniu/text/tpl"

func main() {
	c := &tpl.Compiler{Grammar: []byte("doc = (IDENT | INT) % ','\\n")}
	ret, err := c.Cl()
	if err != nil {
		panic(err)
	}
	d := &tpl.Compiler{Grammar: []byte("doc = " + ret.Code() + "\\n")}
	ret2, err := d.Cl()
	if err != nil {
		panic(err)
	}
	if ret.MatchExactly([]byte("a, 1"), "") != nil || ret2.MatchExactly([]byte("a, 1"), "") != nil {
		panic("the code denotes another grammar: " + ret.Code())
	}
}
'''
