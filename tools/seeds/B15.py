prop="I05"
needs="A variadic function of floats after a fixed parameter, called with an integer as first variadic argument."
breaks="The first variadic argument is not checked and converted, the call blows up."
edits=[("tpl/interpreter.util/call.go","""	var ok bool
	var in []reflect.Value
	if arity > 0 {
		if in, ok = stk.PopArgs(arity); !ok {
			return ErrStackDamaged
		}
		if isVariadic {
			n--
			t := tfn.In(n).Elem()
			for i := n; i < arity; i++ {""","""	var ok bool
	var in []reflect.Value
	if arity > 0 {
		if in, ok = stk.PopArgs(arity); !ok {
			return ErrStackDamaged
		}
		if isVariadic {
			t := tfn.In(n - 1).Elem()
			n--
			for i := arity - 1; i > n; i-- {""")]
demo='''
package main

import (
	"reflect"

	util "github.com/qiniu/text/tpl/interpreter.util"
)

type stk struct{ v []reflect.Value }

func (p *stk) PopArgs(n int) ([]reflect.Value, bool) {
	if n > len(p.v) {
		return nil, false
	}
	r := p.v[len(p.v)-n:]
	p.v = p.v[:len(p.v)-n]
	return r, true
}
func (p *stk) PushRet(r []reflect.Value) error { p.v = append(p.v, r...); return nil }

func main() {
	p := &stk{}
	p.v = []reflect.Value{reflect.ValueOf("a"), reflect.ValueOf(1), reflect.ValueOf(2)}
	f := func(s string, x ...float64) float64 { return x[0] - x[1] }
	if err := util.Call(p, f, 3); err != nil {
		panic(err)
	}
	if len(p.v) != 1 || p.v[0].Float() != -1 {
		panic("wrong result")
	}
}
'''
