prop="I04"
needs="A part that mutes and then fails, evaluated by a mark function that goes on after the failure."
breaks="The whole stays muted, so marks after the part are not executed."
edits=[("tpl/interpreter/interpreter.go","""	defer func() { // 正常的 return 使用了 panic，所以需要保护
		p.Interpreter = old
		p.mute = mute
	}()
	return p.EvalSub(name, src)""","""	defer func() { // 正常的 return 使用了 panic，所以需要保护
		p.Interpreter = old
	}()
	err := p.EvalSub(name, src)
	p.mute = mute
	return err""")]
demo='''
package main

import (
	"errors"
	"reflect"

	"github.com/qiniu/text/tpl/interpreter"
	util "github.com/qiniu/text/tpl/interpreter.util"
)

type stk struct{}

func (stk) PopArgs(n int) ([]reflect.Value, bool) { return nil, n == 0 }
func (stk) PushRet([]reflect.Value) error         { return nil }

type ip struct{ fns map[string]interface{} }

func (p *ip) Grammar() string {
	return "doc = *(IDENT/ord | INT/_sub)\\nrun = '+'/_mute INT/_fail\\n"
}
func (p *ip) Fntable() map[string]interface{} { return p.fns }
func (p *ip) Stack() util.Stack               { return stk{} }

func main() {
	n := 0
	p := &ip{}
	var e *interpreter.Engine
	p.fns = map[string]interface{}{
		"$ord":   func(*ip) { n++ },
		"$_fail": func(*ip) error { return errors.New("fail") },
		"$_sub": func(*ip) {
			defer func() { recover() }()
			e.EvalCode(p, "run", "+ 1")
		},
	}
	e, err := interpreter.New(p, nil)
	if err != nil {
		panic(err)
	}
	if err = e.Eval("a 1 b"); err != nil {
		panic(err)
	}
	if n != 2 {
		panic("a mark after the failed part was not executed")
	}
}
'''
