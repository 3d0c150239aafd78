prop='I04'
needs='A failing function of a mark whose tokens are on more than one line.'
breaks='The line where the tokens of the mark end is named.'
edits=[('tpl/grammar.go', '\treturn f.Name(), f.Line(doc[0].Pos)\n', '\treturn f.Name(), f.Line(doc[n-1].Pos)\n')]
demo=r'''
package main

import (
	"errors"
	"reflect"
	"strings"

	"github.com/qiniu/text/tpl/interpreter"
	util "github.com/qiniu/text/tpl/interpreter.util"
)

type stack struct{}

func (*stack) PopArgs(n int) ([]reflect.Value, bool) { return nil, false }
func (*stack) PushRet(r []reflect.Value) error        { return nil }

type ip struct{ stk stack }

func (p *ip) Grammar() string { return "doc = IDENT (INT INT)/bad\n" }
func (p *ip) Fntable() map[string]interface{} {
	return map[string]interface{}{"$bad": func(p *ip) error { return errors.New("why") }}
}
func (p *ip) Stack() util.Stack { return &p.stk }

func main() {
	e, err := interpreter.New(&ip{}, nil)
	if err != nil {
		panic(err)
	}
	defer func() {
		err := recover().(error)
		if !strings.HasPrefix(err.Error(), "f:2: ") {
			panic(err)
		}
	}()
	e.MatchExactly([]byte("a\n1\n2"), "f")
	panic("no error")
}
'''
