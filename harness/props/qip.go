package props

import (
	"strconv"

	"verif/sym"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/qlang"
	qip "github.com/qiniu/text/tpl/qlang/cl/interpreter"
)

// ---- Q14, Q15: interpreters that are defined by a script ----

const q14Stack = `
Stack = class {
	fn _init() { set(this, "s", STK) }
	fn push(v) { set(this, "s", append(this.s, v)) }
	fn popArgs(n) {
		_m = len(this.s) - n;
		_v = this.s[_m:];
		set(this, "s", this.s[:_m]);
		return _v
	}
	fn dup() { this.push(this.s[len(this.s) - 1]) }
};
`

const q14Ip = `
Ip = class {
	fn _init() { set(this, "st", new Stack, "log", []) }
	fn stack() { return this.st }
	fn grammar() { return text }
	fn fntable() { return {
		"$pushInt": Stack.push, "$pushFloat": Stack.push, "$push": Stack.push, "$LEN": Stack.push, "$dup": Stack.dup,
		"$name": Ip.one, "$strSrc": Ip.one, "$touch": Ip.none, "$_note": Ip.one, "$_LEN": Ip.one, "$fail": Ip.fail,
		"$pushTheFloat": Stack.push, "$strTheSrc": Ip.one, "$selfOwnEngine": Ip.self, "$theName": Ip.one,
		"$eng": Ip.one, "$selfEngine": Ip.self, "$_runEngine": Ip.run,
		"$add": fn(a, b) { return a + b }, "$drop": fn(a) {}, "$sub": hsub, "$put": hput, "$pair": hpair
	} }
	fn one(v) { set(this, "log", append(this.log, v)) }
	fn none() { set(this, "log", append(this.log, "none")) }
	fn fail(v) { this.one(v); panic("fail") }
	fn run(e) { set(this, "err", e.evalCode(this.other, "seq", code)) }
	fn self(e) { set(this, "eng", e) }
};
x = new Ip
`

const q14Grammar = `
item =
	INT/pushInt | FLOAT/pushFloat | CHAR/push | IDENT/name | STRING/strSrc |
	'+'/add | '-'/sub | '~'/drop | '='/dup | '^'/put | '!'/touch | '?'/fail | ':'/pair |
	('[' *INT/LEN ']') | ('<' *INT/_LEN '>') | (',' INT % '.')/strSrc |
	'{'/_mute *item '}'/_unmute | '@'/_note
doc = *item
`

type q14 struct {
	l    qlang.Qlang
	e    *qip.Engine
	puts []interface{}
	// what it should be
	stk, log, put []interface{}
	mute          int
	bad           bool
	src           []byte
	n             int
}

func newQ14(stk, grammar string) *q14 {
	p := &q14{l: newQ()}
	p.l.SetVar("text", grammar)
	p.l.SetVar("code", "")
	p.l.SetVar("hsub", func(a, b int) int { return a - b })
	p.l.SetVar("hput", func(a interface{}) { p.puts = append(p.puts, a) })
	p.l.SetVar("hpair", func(a, b interface{}) (int, int) { return 7, 8 })
	i := len(q14Stack)
	for k := 0; k < i; k++ {
		if q14Stack[k:k+3] == "STK" {
			i = k
			break
		}
	}
	_, failed := qeval(p.l, q14Stack[:i]+stk+q14Stack[i+3:]+q14Ip)
	sym.Assert(!failed, "classes are declared")
	x, _ := p.l.Var("x")
	e, err := qip.New(x, nil)
	sym.Assert(err == nil && e != nil, "an interpreter can be made from an object")
	p.e = e
	return p
}

func (p *q14) pop(n int) (v []interface{}) {
	k := len(p.stk) - n
	if k < 0 {
		p.bad = true
		return nil
	}
	v = p.stk[k:]
	p.stk = p.stk[:k:k]
	return
}

func (p *q14) off() bool { return p.bad || p.mute > 0 }

func (p *q14) push(v interface{}) {
	if !p.off() {
		p.stk = append(p.stk, v)
	}
}

func (p *q14) note(v interface{}) {
	if !p.off() {
		p.log = append(p.log, v)
	}
}

func (p *q14) digit() int {
	b := sym.Byte("d" + strconv.Itoa(p.n))
	p.n++
	sym.Assume(b >= '0')
	sym.Assume(b <= '9')
	p.src = append(p.src, b)
	return int(b - '0')
}

func (p *q14) text(s string) { p.src = append(p.src, s...) }

// ints appends no or two numbers
func (p *q14) ints() int {
	k := 2 * sym.Choice("length", 2)
	for i := 0; i < k; i++ {
		p.digit()
		p.text(" ")
	}
	return k
}

func (p *q14) token(kinds int) {
	k := sym.Choice("token", kinds)
	switch k {
	case 0:
		p.push(p.digit())
		p.text(" ")
	case 1:
		p.text("+ ")
		if !p.off() {
			v := p.pop(2)
			if p.bad {
				break
			}
			a, aok := v[0].(int)
			b, bok := v[1].(int)
			if !aok || !bok {
				p.bad = true
				break
			}
			p.push(a + b)
		}
	case 2:
		p.text("- ")
		if !p.off() {
			v := p.pop(2)
			if p.bad {
				break
			}
			a, aok := v[0].(int)
			b, bok := v[1].(int)
			if !aok || !bok {
				p.bad = true
				break
			}
			p.push(a - b)
		}
	case 3:
		p.text("{ ")
		p.mute++
	case 4:
		if p.mute == 0 {
			sym.Skip()
		}
		p.text("} ")
		p.mute--
	case 5:
		p.text("@ ")
		if !p.bad && p.mute <= 1 {
			p.log = append(p.log, "")
		}
	case 6:
		b := sym.Byte("i" + strconv.Itoa(p.n))
		p.n++
		sym.Assume(b >= 'a')
		sym.Assume(b <= 'z')
		p.src = append(p.src, b, ' ')
		p.note(string([]byte{b}))
	case 7:
		p.text("~ ")
		if !p.off() {
			if p.pop(1); !p.bad {
				p.push(nil)
			}
		}
	case 8:
		p.text("? ")
		if !p.off() {
			p.note("")
			p.bad = true
		}
	case 9:
		p.text("[")
		k := p.ints()
		p.text("] ")
		p.push(k)
	case 10:
		p.text("<")
		k := p.ints()
		p.text("> ")
		if !p.bad && p.mute <= 1 {
			p.log = append(p.log, k)
		}
	case 11:
		p.text("= ")
		if !p.off() {
			v := p.pop(1)
			if !p.bad {
				p.push(v[0])
				p.push(v[0])
			}
		}
	case 12:
		p.text("^ ")
		if !p.off() {
			v := p.pop(1)
			if !p.bad {
				p.put = append(p.put, v[0])
				p.push(nil)
			}
		}
	case 13:
		p.text("! ")
		p.note("none")
	case 14:
		p.text(": ")
		if !p.off() {
			if p.pop(2); !p.bad {
				p.push(7)
			}
		}
	case 15:
		p.text("'")
		b := sym.Byte("c" + strconv.Itoa(p.n))
		p.n++
		sym.Assume(b >= 'a')
		sym.Assume(b <= 'z')
		p.src = append(p.src, b, '\'')
		p.push(string([]byte{'\'', b, '\''}))
	}
}

func (p *q14) list(expr string) []interface{} {
	v, failed := qeval(p.l, expr)
	sym.Assert(!failed, "the objects of an interpreter can be used")
	l, ok := v.([]interface{})
	sym.Assert(ok, "the objects of an interpreter can be used")
	return l
}

func q14list(got, want []interface{}, msg string) {
	sym.Assert(len(got) == len(want), msg)
	for i, w := range want {
		sym.Assert(sym.TypeName(got[i]) == sym.TypeName(w), msg)
		sym.Assert(got[i] == nil || sym.Same(got[i], w), msg)
	}
}

func (p *q14) check(failed bool) {
	sym.Assert(failed == p.bad, "exactly what goes wrong is reported")
	q14list(p.list("x.log"), p.log, "methods are called in order with what their mark asks for")
	q14list(p.puts, p.put, "functions get what the stack gives them")
	if !p.bad { // what is left of the operands of a call that failed is up to the stack
		q14list(p.list("x.st.s"), p.stk, "functions work on the stack")
	}
}

// run evaluates the source
func (p *q14) run() {
	for m := p.mute; m > 0; m-- {
		p.text("} ")
	}
	p.mute = 0
	err := p.e.Exec(p.src, "")
	p.check(err != nil)
	p.src = nil
}

func Q14_marks() {
	p := newQ14("[]", q14Grammar)
	for i, k := 0, sym.Choice("operands", 3); i < k; i++ {
		p.push(p.digit())
		p.text(" ")
	}
	n := 1 + sym.Choice("tokens", sym.Bound("tokens", 2+sym.Tier()))
	for i := 0; i < n; i++ {
		p.token(16)
	}
	p.run()
}

func Q14_mute() {
	p := newQ14("[]", q14Grammar)
	n := sym.Bound("tokens", 4+sym.Tier())
	for i := 0; i < n; i++ {
		p.token(6)
	}
	p.run()
}

// the next source is evaluated as if it were the first
func Q14_reuse() {
	p := newQ14("[]", q14Grammar)
	for i := 0; i < 2; i++ {
		if p.bad {
			_, failed := qeval(p.l, "set(x.st, \"s\", [])")
			sym.Assert(!failed, "the objects of an interpreter can be used")
			p.bad, p.stk = false, nil
		}
		switch sym.Choice("first", 5) {
		case 0:
			p.text("5 {")
			p.push(5)
			p.mute++
		case 1:
			p.text("] ")
			err := p.e.Exec(p.src, "")
			sym.Assert(err != nil, "a source that does not match is reported")
			p.src = nil
		case 2:
			p.text("{ 99999999999999999999999 } 1 99999999999999999999999")
			err := p.e.Exec(p.src, "")
			sym.Assert(err != nil, "a number that is out of range is reported")
			p.src = nil
			p.push(1)
		case 3:
			p.text("5 { @ } ( ")
			err := p.e.Exec(p.src, "")
			sym.Assert(err != nil, "a source that does not match is reported")
			p.src = nil
			p.push(5)
			p.note("")
		case 4:
			p.text("{ 5 (")
			err := p.e.Exec(p.src, "")
			sym.Assert(err != nil, "a source that does not match is reported")
			p.src = nil
		}
		p.token(9)
		p.run()
	}
}

// marks that ask for source, engine and float
func Q14_args() {
	p := newQ14("[]", []string{`
doc = FLOAT/pushFloat *(('.' INT)/strSrc) ?('='/selfEngine) ?(';' IDENT/name) ?(','/strSrc 1/strSrc)
`, `
doc = FLOAT/pushTheFloat *(('.' INT)/strTheSrc) ?('='/selfOwnEngine) ?(';' IDENT/theName) ?(','/strTheSrc 1/strSrc)
`}[sym.Choice("words", 2)])
	i := sym.Choice("float", 4)
	f := []float64{0.5, 12.25, 3, 70}[i]
	p.text([]string{"0.5", "12.25", "3.", "7e1"}[i])
	k := sym.Choice("items", 3)
	for i := 0; i < k; i++ {
		p.text(" .")
		p.text(" ")
		p.digit()
	}
	eng := sym.Choice("engine", 2) == 1
	if eng {
		p.text(" =")
	}
	name := sym.Choice("name", 2) == 1
	if name {
		p.text(" ; q")
	}
	none := sym.Choice("empty", 2) == 1
	if none {
		p.text(" ,")
	}
	err := p.e.Exec(p.src, "f")
	sym.Assert(err == nil, "a source that matches is evaluated")
	s := p.list("x.st.s")
	sym.Assert(len(s) == 1 && sym.TypeName(s[0]) == "float64" && sym.Same(s[0], f), "a mark that asks for a float gets it")
	log := p.list("x.log")
	for i := 0; i < k; i++ {
		sym.Assert(len(log) > 0, "a mark that asks for the source gets it")
		t, ok := log[0].([]tpl.Token)
		sym.Assert(ok && len(t) == 2 && t[0].Kind == '.' && t[1].Kind == uint(tpl.INT), "a mark that asks for the source gets it")
		log = log[1:]
	}
	if eng {
		v, failed := qeval(p.l, "x.eng")
		g, ok := v.(*qip.Engine)
		sym.Assert(!failed && ok && g == p.e, "a mark that asks for the engine gets it")
	}
	if name {
		sym.Assert(len(log) > 0 && log[0] == interface{}("q"), "a mark gets the text of its token")
		log = log[1:]
	}
	if none {
		sym.Assert(len(log) == 2, "a mark that asks for the source gets it")
		t, ok := log[0].([]tpl.Token)
		sym.Assert(ok && len(t) == 1 && t[0].Kind == ',', "a mark that asks for the source gets it")
		sym.Assert(log[1] == nil, "a mark on nothing gets no source")
		log = nil
	}
	sym.Assert(len(log) == 0, "functions are called once")
}

// a calculator that is written in a script, over a stack of floats
const q14Calc = `
term = factor *('*' factor/mul | '/' factor/quo)
doc = term *('+' term/add | '-' term/sub)
factor = IDENT/ref | '-' factor/neg | '(' doc ')'
`

func Q14_calc() {
	l := newQ()
	l.SetVar("text", q14Calc)
	vals := map[string]float64{"a": sym.Float64("a"), "b": sym.Float64("b"), "c": sym.Float64("c")}
	l.SetVar("vals", vals)
	l.SetVar("two", func(a, b float64) float64 { return a - b })
	l.SetVar("neg", func(a float64) float64 { return -a })
	i := len(q14Stack)
	for k := 0; k < i; k++ {
		if q14Stack[k:k+3] == "STK" {
			i = k
			break
		}
	}
	stk := []string{"[]", "slice(\"float\")"}[sym.Choice("stack", 2)]
	_, failed := qeval(l, q14Stack[:i]+stk+q14Stack[i+3:]+`
Ip = class {
	fn _init() { set(this, "st", new Stack) }
	fn stack() { return this.st }
	fn grammar() { return text }
	fn fntable() { return {
		"$ref": Ip.ref,
		"$add": fn(a, b) { return a + b }, "$sub": two, "$mul": fn(a, b) { return a * b }, "$quo": fn(a, b) { return a / b }, "$neg": neg
	} }
	fn ref(name) { this.st.push(get(vals, name)) }
};
x = new Ip
`)
	sym.Assert(!failed, "classes are declared")
	x, _ := l.Var("x")
	e, err := qip.New(x, nil)
	sym.Assert(err == nil, "an interpreter can be made from an object")
	p := &q14calc{vals: vals, left: sym.Bound("operators", 2+sym.Tier())}
	want := p.expr(0)
	err = e.Eval(string(p.src))
	sym.Assert(err == nil, "an expression is evaluated")
	v, failed := qeval(l, "x.st.s")
	sym.Assert(!failed, "the objects of an interpreter can be used")
	switch v := v.(type) {
	case []float64:
		sym.Assert(len(v) == 1 && sym.Same(v[0], want), "an expression has its value")
	case []interface{}:
		sym.Assert(len(v) == 1, "an expression has its value")
		f, ok := v[0].(float64)
		sym.Assert(ok && sym.Same(f, want), "an expression has its value")
	default:
		sym.Assert(false, "an expression has its value")
	}
}

type q14calc struct {
	vals map[string]float64
	src  []byte
	left int
	n    int
}

// expr makes an expression of at least level lvl: 0 sum, 1 product, 2 factor
func (p *q14calc) expr(lvl int) float64 {
	k := 0
	if p.left > 0 {
		k = sym.Choice("op", 6)
	}
	if k == 0 {
		name := "abc"[p.n%3]
		p.n++
		p.src = append(p.src, name)
		return p.vals[string([]byte{name})]
	}
	p.left--
	if k == 5 {
		p.src = append(p.src, " - "...)
		return -p.expr(2)
	}
	my := (k - 1) / 2
	if my < lvl {
		p.src = append(p.src, '(')
	}
	a := p.expr(my)
	p.src = append(p.src, "+-*/"[k-1])
	b := p.expr(my + 1)
	if my < lvl {
		p.src = append(p.src, ')')
	}
	switch k {
	case 1:
		return a + b
	case 2:
		return a - b
	case 3:
		return a * b
	}
	return a / b
}

// ---- Q15: nested evaluation, and objects that define no interpreter ----

const q15Grammar = `
item = INT/pushInt | IDENT/name | '+'/add | '?'/fail | '{'/_mute | '}'/_unmute | '@'/_note | '*'/_runEngine
seq = *item
doc = seq
`

// the engine evaluates code for another object in the middle of a source
func Q15_code() {
	p := newQ14("[]", q15Grammar)
	_, failed := qeval(p.l, "y = new Ip; set(y, \"st\", x.st); set(x, \"other\", y); 1")
	sym.Assert(!failed, "an object can be made")
	var log, other []interface{}
	mute := sym.Choice("mute", 3)
	same := sym.Choice("same", 2) == 1 // the code is evaluated for the object itself
	outer := "{{"[:mute] + " a * b 7 @"
	if mute == 0 {
		log = append(log, "a")
	}
	run := mute < 2
	var src []byte
	n := sym.Bound("tokens", 2+sym.Tier())
	bad, left := false, false
	m := 0
	for i := 0; i < n; i++ {
		switch sym.Choice("token", 7) {
		case 0:
			b := sym.Byte("d" + strconv.Itoa(i))
			sym.Assume(b >= '0')
			sym.Assume(b <= '9')
			src = append(src, b, ' ')
			if run && !bad && m <= 0 {
				p.stk = append(p.stk, int(b-'0'))
			}
		case 1:
			src = append(src, "q "...)
			if !bad && m <= 0 {
				other = append(other, "q")
			}
		case 2:
			src = append(src, "? "...)
			if !bad && m <= 0 {
				other = append(other, "")
				bad = true
			}
		case 3:
			src = append(src, "{ "...)
			if !bad {
				m++
			}
		case 4:
			src = append(src, "} "...)
			if !bad {
				m--
			}
		case 5:
			src = append(src, "@ "...)
			if !bad && m <= 1 {
				other = append(other, "")
			}
		case 6:
			src = append(src, ") "...)
			i = n
			left = !bad
		}
	}
	if !run {
		other, bad, left = nil, false, false
	}
	if sym.Choice("text", 2) == 1 {
		p.l.SetVar("code", string(src))
	} else {
		toks, err := p.e.Tokenize(src, "")
		sym.Assert(err == nil, "tokens are read")
		p.l.SetVar("code", toks)
	}
	if same {
		_, failed = qeval(p.l, "set(x, \"other\", x); 1")
		sym.Assert(!failed, "an object can be changed")
		log = append(log, other...)
		other = nil
	}
	err := p.e.Exec([]byte(outer), "")
	if left { // a method may do as it likes with an error it is given
		r, failed := qeval(p.l, "x.err")
		_, isErr := r.(error)
		sym.Assert(!failed && isErr, "code that does not match is reported")
	}
	sym.Assert((err != nil) == bad, "exactly what goes wrong is reported")
	if !bad {
		if mute == 0 {
			log = append(log, "b")
			p.stk = append(p.stk, 7)
		}
		if mute < 2 {
			log = append(log, "")
		}
	}
	q14list(p.list("x.log"), log, "an engine goes on with its own object where it was")
	q14list(p.list("y.log"), other, "code is evaluated for the object it is given")
	q14list(p.list("x.st.s"), p.stk, "functions work on the stack")
	// the engine evaluates for its own object again
	err = p.e.Exec([]byte("w 3"), "")
	sym.Assert(err == nil, "a source that matches is evaluated")
	log = append(log, "w")
	p.stk = append(p.stk, 3)
	q14list(p.list("x.log"), log, "an engine evaluates for its own object afterwards")
	q14list(p.list("y.log"), other, "an engine evaluates for its own object afterwards")
	q14list(p.list("x.st.s"), p.stk, "functions work on the stack")
}

// objects that are no interpreters
func Q15_reject() {
	l := newQ()
	l.SetVar("gofn", func(n int) int { return n })
	l.SetVar("govar", func(n ...int) int { return 0 })
	l.SetVar("gonone", func() int { return 0 })
	const stk = "Stack = class { fn push(v) {} fn popArgs(n) { return [] } fn two(a) {} fn three(a, b) {} fn many(a...) {} fn none() {} };\n"
	k := sym.Choice("object", 26)
	fns, grammar, extra := "{\"$f\": Stack.push, \"$g\": Stack.none}", "doc = INT/f", ""
	stack := "st"
	ok := false
	switch k {
	case 0:
		ok = true
	case 1:
		grammar = "doc = INT/h"
	case 2:
		grammar = "doc = INT/f/"
	case 3:
		grammar = "dox = INT/f"
	case 4:
		grammar = "doc = INT/f | nosuch"
	case 5:
		fns = "{\"$f\": Stack.many}"
	case 6:
		fns = "{\"$f\": Stack.three}"
	case 7:
		fns = "{\"$f\": gofn}"
		ok = true
	case 8:
		fns = "{\"$f\": govar}"
	case 9:
		fns = "{\"$f\": gonone}"
	case 10:
		fns = "{\"$f\": fn(a, b, c) {}}"
		ok = true
	case 11:
		fns = "{\"$f\": fn() {}}"
	case 12:
		fns = "{\"$f\": fn(a...) {}}"
	case 13:
		fns = "{\"$f\": 1, \"$g\": \"x\"}"
	case 14:
		fns = "[1]"
	case 15:
		stack = "1"
	case 16:
		fns = "{\"$f\": nil, \"$g\": Stack.push}"
	case 17:
		fns = "{\"$f\": st.push}"
	case 18:
		fns = "{\"f\": Stack.push}"
	case 19:
		fns = "{\"$f\": Stack.none}"
		ok = true
	case 20:
		grammar, fns = "doc = INT/_mute IDENT/_unmute", "{}"
		ok = true
	case 21:
		fns = "{\"$f\": 1}"
	case 22:
		fns = "{\"$f\": Ip.three}"
		extra = "fn three(a, b) {}"
	case 23:
		fns = "{\"$f\": Ip.two}"
		extra = "fn two(a) {}"
		ok = true
	}
	l.SetVar("text", grammar)
	switch k { // the grammar is no text
	case 24:
		l.SetVar("text", 1)
	case 25:
		l.SetVar("text", []byte(grammar))
	}
	methods := []string{"fn stack() { return " + stack + " }\n", "fn grammar() { return text }\n", "fn fntable() { return " + fns + " }\n"}
	miss := sym.Choice("missing", 5)
	s := stk + "st = new Stack;\nIp = class {\n" + extra + "\n"
	for i, m := range methods {
		if i == miss {
			ok = false
			continue
		}
		s += m
	}
	if miss == 4 {
		s = s + "};\nx = Ip"
		ok = false
	} else {
		s = s + "};\nx = new Ip"
	}
	_, failed := qeval(l, s)
	sym.Assert(!failed, "classes are declared")
	x, _ := l.Var("x")
	opt := qip.InsertSemis
	if sym.Choice("options", 2) == 1 {
		opt = nil
	}
	e, err := qip.New(x, opt)
	if !ok {
		sym.Assert(err != nil, "an object that defines no interpreter is rejected")
		return
	}
	sym.Assert(err == nil && e != nil, "an object that defines an interpreter is accepted")
}

// what a mark asks for has to be there
func Q14_convert() {
	mark := []string{"pushInt", "pushFloat"}[sym.Choice("mark", 2)]
	p := newQ14("[]", "doc = (INT | FLOAT | IDENT | CHAR | STRING)/"+mark+" ?('!'/touch)")
	i := sym.Choice("token", 9)
	src := []string{"12", "1.5", "q", "'a'", `"12"`, "9223372036854775807", "9223372036854775808", "1e400", "1e5"}[i]
	p.text(src)
	err := p.e.Exec(p.src, "f")
	var want interface{}
	switch {
	case mark == "pushInt" && i == 0:
		want = 12
	case mark == "pushInt" && i == 5:
		want = 9223372036854775807
	case mark == "pushFloat" && i == 0:
		want = 12.0
	case mark == "pushFloat" && i == 1:
		want = 1.5
	case mark == "pushFloat" && (i == 5 || i == 6):
		want = 9223372036854775808.0
	case mark == "pushFloat" && i == 8:
		want = 1e5
	}
	sym.Assert((err == nil) == (want != nil), "a token that is no number is reported, and no other")
	s := p.list("x.st.s")
	if want == nil {
		sym.Assert(len(s) == 0, "no function is called with a number that is not there")
		sym.Reach("reported")
	} else {
		sym.Assert(len(s) == 1 && sym.TypeName(s[0]) == sym.TypeName(want) && sym.Same(s[0], want), "a mark that asks for a number gets it")
		sym.Reach("number")
	}
}

// the operands are what the stack of the object says
func Q14_operands() {
	l := newQ()
	var got []interface{}
	l.SetVar("hget", func(a, b interface{}) { got = append(got, a, b) })
	l.SetVar("hadd", func(a, b int) int { got = append(got, a, b); return a + b })
	l.SetVar("host", []int{4, 5, 6})
	k := sym.Choice("popArgs", 11)
	pop := []string{
		"return [1, 2]", "return [1, \"a\"]", "return [1.5, 2]", "return [1]", "return [1, 2, 3]", "return 5",
		"return nil", "return host[1:]", "return this.vals", "return \"ab\"", "nosuch()",
	}[k]
	m := sym.Choice("fn", 3)
	body := ""
	if miss := sym.Choice("missing", 3); miss != 1 {
		body += "fn popArgs(n) { set(this, \"n\", n); " + pop + " }\n"
		if miss == 0 {
			body += "fn push(v) { set(this, \"out\", v) }\n"
		} else {
			k += 100
		}
	} else {
		k += 200
	}
	_, failed := qeval(l, "Stack = class {\nfn _init() { set(this, \"vals\", slice(\"var\"), \"n\", 0, \"out\", \"none\"); set(this, \"vals\", append(this.vals, 7, 8)) }\n"+body+"};\n"+
		"Ip = class {\nfn _init() { set(this, \"st\", new Stack) }\nfn stack() { return this.st }\nfn grammar() { return \"doc = INT/f\" }\n"+
		"fn fntable() { return {\"$f\": "+[]string{"fn(a, b) { hget(a, b); return [a, b] }", "hget", "hadd"}[m]+"} }\n};\nx = new Ip")
	sym.Assert(!failed, "classes are declared")
	x, _ := l.Var("x")
	e, err := qip.New(x, nil)
	sym.Assert(err == nil, "an object that defines an interpreter is accepted")
	err = e.Eval("1")
	var a, b interface{}
	good := true
	switch k % 100 {
	case 0:
		a, b = 1, 2
	case 1:
		a, b = 1, "a"
		good = m != 2
	case 2:
		a, b = 1.5, 2.0
		good = m != 2
	case 7:
		a, b = 5, 6
	case 8:
		a, b = 7, 8
	default:
		good = false
	}
	called := good && k < 200
	sym.Assert((err == nil) == (good && k < 100), "operands that cannot be had are reported")
	sym.Assert((len(got) == 2) == called && (called || len(got) == 0), "a function is called once if its operands are there")
	if called {
		sym.Assert(qeq(got[0], a) && qeq(got[1], b), "a function gets the operands of the stack")
	}
	if err != nil {
		sym.Reach("reported")
		return
	}
	n, _ := qeval(l, "x.st.n")
	sym.Assert(qeq(n, 2), "the stack is asked for as many operands as the function takes")
	out, _ := qeval(l, "x.st.out")
	switch m {
	case 0:
		sl, ok := out.([]interface{})
		if !ok {
			v, _ := qeval(l, "x.st.out[1]")
			sym.Assert(qeq(v, b), "the result of the function is pushed")
		} else {
			sym.Assert(len(sl) == 2 && qeq(sl[0], a) && qeq(sl[1], b), "the result of the function is pushed")
		}
	case 1:
		sym.Assert(out == nil, "nothing is pushed as nil")
	case 2:
		sym.Assert(qeq(out, a.(int)+b.(int)), "the result of the function is pushed")
	}
	sym.Reach("called")
}

// what the package gives to scripts
func Q15_exports() {
	l := newQ()
	for _, name := range []string{"classof", "newRuntimeError", "interpreter", "insertSemis"} {
		l.SetVar(name, qip.Exports[name])
	}
	_, failed := qeval(l, "A = class { fn m() { return 1 } };\nB = class { fn m() { return 2 } };\na = new A; b = new B")
	sym.Assert(!failed, "classes are declared")
	v := []string{"a", "b", "nil", "1", "\"a\"", "A"}
	i, j := sym.Choice("v", len(v)), sym.Choice("w", 2)
	c, failed := qeval(l, "classof("+v[i]+")")
	sym.Assert(!failed, "every value can be asked for its class")
	want, _ := l.Var([]string{"A", "B"}[j])
	sym.Assert((c == want) == (i == j), "an object has its class, another value has none")
	sym.Assert((c == nil) == (i > 1), "an object has its class, another value has none")
	m := "m" + string(sym.Bytes("msg", sym.Choice("len", 3)))
	l.SetVar("msg", m)
	e, failed := qeval(l, "newRuntimeError(msg)")
	err, ok := e.(error)
	sym.Assert(!failed && ok, "an error can be made")
	_, ok = err.(*interpreter.RuntimeError)
	sym.Assert(ok, "the error is a runtime error")
	t := err.Error()
	sym.Assert(len(t) >= len(m) && t[len(t)-len(m):] == m, "the error says what it was given")
	x, failed := qeval(l, "interpreter(1, insertSemis)[1]")
	_, ok = x.(error)
	sym.Assert(!failed && ok, "what is no interpreter is rejected")
}
