prop="I01"
needs="A mark on a match of several tokens whose function asks for the context."
breaks="The context ends with the first token of the match."
edits=[("tpl/interpreter/interpreter.go","		ctx.End = tokens[len(tokens)-1].End()","		ctx.End = tokens[0].End()")]
demo='''
package main

import (
	"reflect"

	"github.com/qiniu/text/tpl/interpreter"
	util "github.com/qiniu/text/tpl/interpreter.util"
)

type stk struct{}

func (stk) PopArgs(n int) ([]reflect.Value, bool) { return nil, n == 0 }
func (stk) PushRet([]reflect.Value) error         { return nil }

type ip struct{ n int }

func (p *ip) Grammar() string { return "doc = (INT % ',')/x\\n" }
func (p *ip) Fntable() map[string]interface{} {
	return map[string]interface{}{"$x": func(p *ip, c *util.Context) { p.n = int(c.End - c.Pos) }}
}
func (p *ip) Stack() util.Stack { return stk{} }

func main() {
	p := &ip{}
	e, err := interpreter.New(p, nil)
	if err != nil {
		panic(err)
	}
	if err = e.Eval("7, 8"); err != nil {
		panic(err)
	}
	if p.n != 4 {
		panic("the context does not span the match")
	}
}
'''
