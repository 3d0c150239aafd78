prop='I04'
needs='A mark in a nested evaluation that ends while marks are muted in the outer one.'
breaks='Marks of the outer evaluation run although they are muted.'
edits=[('tpl/interpreter/interpreter.go', '\t\tp.Interpreter = old\n\t\tp.mute = mute\n', '\t\tp.Interpreter = old\n\t\tif p.mute != 0 {\n\t\t\tp.mute = mute\n\t\t}\n')]
demo=r'''
package main

import (
	"reflect"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/interpreter"
	util "github.com/qiniu/text/tpl/interpreter.util"
)

type stack struct{}

func (*stack) PopArgs(n int) ([]reflect.Value, bool) { return nil, false }
func (*stack) PushRet(r []reflect.Value) error        { return nil }

type ip struct {
	log []string
	stk stack
}

func (p *ip) Grammar() string { return "item = INT/num | IDENT/_sub\ndoc = '{'/_mute *item '}'/_unmute *item\n" }
func (p *ip) Fntable() map[string]interface{} {
	return map[string]interface{}{
		"$num": func(p *ip, s string) { p.log = append(p.log, s) },
		"$_sub": func(p *ip, c *util.Context) {
			if err := c.Engine.EvalCode(p, "item", "7"); err != nil {
				panic(err)
			}
		},
	}
}
func (p *ip) Stack() util.Stack { return &p.stk }

var _ tpl.Token

func main() {
	p := &ip{}
	e, err := interpreter.New(p, nil)
	if err != nil {
		panic(err)
	}
	if err := e.Eval("{ 1 x 2 } 3"); err != nil {
		panic(err)
	}
	if len(p.log) != 2 || p.log[0] != "7" || p.log[1] != "3" {
		panic(len(p.log))
	}
}
'''
