prop='Q08'
needs='A method value of one object that is called after the same method was looked up on another object of the class.'
breaks='The method value acts on the other object.'
edits=[('tpl/qlang/cl/class.go', '\t\t\t\tt := &thisDeref{\n\t\t\t\t\tthis: o,\n\t\t\t\t\tfn:   fn,\n\t\t\t\t}\n\t\t\t\tval = t', '\t\t\t\tt, ok := o.Cls.bound[name]\n\t\t\t\tif !ok {\n\t\t\t\t\tt = &thisDeref{fn: fn}\n\t\t\t\t\to.Cls.bound[name] = t\n\t\t\t\t}\n\t\t\t\tt.this = o\n\t\t\t\tval = t'), ('tpl/qlang/cl/class.go', '\tcls := &Class{Fns: fns, engine: e, parent: p}', '\tcls := &Class{Fns: fns, engine: e, parent: p, bound: make(map[string]*thisDeref)}'), ('tpl/qlang/cl/class.go', 'type Class struct {\n', 'type Class struct {\n\tbound  map[string]*thisDeref\n')]
demo='''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func eval(l qlang.Qlang, s string) interface{} {
	if err := l.SafeEval(s); err != nil {
		panic(err)
	}
	v, _ := l.Ret()
	return v
}

func main() {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	if v := eval(l, `A = class { fn _init(n) { set(this, "n", n) }; fn get() { return this.n } }; p = new A(1); q = new A(2); m = p.get; q.get(); m()`); v != 1 {
		panic(v)
	}
}
'''
