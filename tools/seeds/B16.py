prop="I02"
needs="An evaluation that fails while muted, followed by another evaluation."
breaks="The second evaluation starts muted and executes no ordinary marks."
edits=[("tpl/interpreter/interpreter.go","		p.mute = 0 // bugfix","		// p.mute = 0 // bugfix")]
demo='''
package main

import (
	"reflect"

	"github.com/qiniu/text/tpl/interpreter"
	util "github.com/qiniu/text/tpl/interpreter.util"
)

type stk struct{}

func (stk) PopArgs(n int) ([]reflect.Value, bool) { return nil, n == 0 }
func (stk) PushRet([]reflect.Value) error         { return nil }

type ip struct{ n int }

func (p *ip) Grammar() string { return "doc = *('+'/_mute | '-'/_unmute | INT/x)\\n" }
func (p *ip) Fntable() map[string]interface{} {
	return map[string]interface{}{"$x": func(p *ip) { p.n++ }}
}
func (p *ip) Stack() util.Stack { return stk{} }

func main() {
	p := &ip{}
	e, err := interpreter.New(p, nil)
	if err != nil {
		panic(err)
	}
	func() {
		defer func() { recover() }()
		e.Eval("+ 1 )")
	}()
	if err = e.Eval("1"); err != nil {
		panic(err)
	}
	if p.n != 1 {
		panic("the mark was not executed")
	}
}
'''
