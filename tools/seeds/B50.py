prop='Q15'
needs='Code that is evaluated for another object by a method of the interpreter itself.'
breaks='The methods are called on the interpreter instead of the object.'
edits=[('tpl/qlang/cl/interpreter/interpret.go', '\t\t\t\t\targs[0] = p.Interpreter\n', '\t\t\t\t\targs[0] = ip\n')]
demo=r'''
package main

import (
	"github.com/qiniu/text/tpl/qlang"
	qip "github.com/qiniu/text/tpl/qlang/cl/interpreter"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

const classes = `
Stack = class {
	fn _init() { set(this, "s", []) }
	fn push(v) { set(this, "s", append(this.s, v)) }
	fn popArgs(n) {
		_m = len(this.s) - n;
		_v = this.s[_m:];
		set(this, "s", this.s[:_m]);
		return _v
	}
};
Ip = class {
	fn _init() { set(this, "st", new Stack, "log", []) }
	fn stack() { return this.st }
	fn grammar() { return text }
	fn fntable() { return marks }
	fn note(v) { set(this, "log", append(this.log, v)) }
	fn run(e) { set(this, "err", e.evalCode(this.other, "seq", "7")) }
};
`

func engine(text, marks string) (qlang.Qlang, *qip.Engine) {
	l, err := qlang.New(nil)
	if err != nil {
		panic(err)
	}
	l.SetVar("text", text)
	if err := l.SafeEval(classes + "marks = " + marks + "; x = new Ip; y = new Ip; set(x, \"other\", y)"); err != nil {
		panic(err)
	}
	x, _ := l.Var("x")
	e, err := qip.New(x, nil)
	if err != nil {
		panic(err)
	}
	return l, e
}

func eval(l qlang.Qlang, s string) interface{} {
	if err := l.SafeEval(s); err != nil {
		panic(err)
	}
	v, _ := l.Ret()
	return v
}

func main() {
	l, e := engine(`seq = INT/note; doc = IDENT/_runEngine`, `{"$note": Ip.note, "$_runEngine": Ip.run}`)
	if err := e.Eval("go"); err != nil {
		panic(err)
	}
	if v := eval(l, "len(x.log) * 10 + len(y.log)"); v != 1 {
		panic(v)
	}
}
'''
