package props

import (
	"errors"
	"strconv"
	"strings"

	"verif/sym"

	"github.com/qiniu/text/tpl/qlang"
	qcl "github.com/qiniu/text/tpl/qlang/cl"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

// ---- scripts and what they mean ----

// qn is a node of a script
type qn struct {
	op   string
	s    string
	n    int
	args []string
	kids []*qn
}

func nd(op string, kids ...*qn) *qn    { return &qn{op: op, kids: kids} }
func qvar(s string) *qn                { return &qn{op: "var", s: s} }
func qint(n int) *qn                   { return &qn{op: "int", n: n} }
func qset(s string, e *qn) *qn         { return &qn{op: "=", s: s, kids: []*qn{e}} }
func qdoc(kids ...*qn) *qn             { return &qn{op: "doc", kids: kids} }
func qtrace(n int) *qn                 { return &qn{op: "t", n: n} }
func qlog(n int, e *qn) *qn            { return &qn{op: "u", n: n, kids: []*qn{e}} }
func qcall(f *qn, args ...*qn) *qn     { return &qn{op: "call", kids: append([]*qn{f}, args...)} }
func qfn(body *qn, args ...string) *qn { return &qn{op: "fn", kids: []*qn{body}, args: args} }

func qlevel(op string) int {
	switch op {
	case "||":
		return 0
	case "&&":
		return 1
	case "<", ">", "<=", ">=", "==", "!=":
		return 2
	case "+", "-":
		return 3
	case "*", "/", "%":
		return 4
	}
	return 5
}

func qbody(x *qn) string {
	if x == nil {
		return "{}"
	}
	return "{ " + qtext(x, 0) + " }"
}

// qtext renders a script with as few parentheses as the usual precedence allows
func qtext(x *qn, lvl int) string {
	switch x.op {
	case "int":
		return strconv.Itoa(x.n)
	case "str":
		return strconv.Quote(x.s)
	case "var":
		return x.s
	case "t":
		return "t(" + strconv.Itoa(x.n) + ")"
	case "u":
		return "u(" + strconv.Itoa(x.n) + ", " + qtext(x.kids[0], 0) + ")"
	case "raw":
		return x.s
	case "recover":
		return "recover()"
	case "unset":
		return "unset(" + strconv.Quote(x.s) + ")"
	case "neg":
		return "- " + qtext(x.kids[0], 5)
	case "!":
		return "! " + qtext(x.kids[0], 5)
	case "slice":
		return "[" + qlist(x.kids) + "]"
	case "call":
		sp := ""
		if x.n == 1 {
			sp = "..."
		}
		return qtext(x.kids[0], 5) + "(" + qlist(x.kids[1:]) + sp + ")"
	case "fn":
		sp := ""
		if x.n == 1 {
			sp = "..."
		}
		return "fn(" + strings.Join(x.args, ", ") + sp + ") " + qbody(x.kids[0])
	case "if":
		s := ""
		for i := 0; i < len(x.kids); i += 2 {
			switch {
			case i+1 == len(x.kids):
				s += " else " + qbody(x.kids[i])
				continue
			case i == 0:
				s += "if "
			default:
				s += " elif "
			}
			s += qtext(x.kids[i], 0) + " " + qbody(x.kids[i+1])
		}
		return s
	case "switch": // kids: value or nil, (case, body)..., default if n == 1
		s := "switch "
		if x.kids[0] != nil {
			s += qtext(x.kids[0], 0) + " "
		}
		s += "{"
		for i := 1; i < len(x.kids); i += 2 {
			if i+1 == len(x.kids) {
				s += " default:"
			} else {
				s += " case " + qtext(x.kids[i], 0) + ":"
				i++
			}
			if x.kids[i] != nil {
				s += " " + qtext(x.kids[i], 0)
			}
			i--
		}
		return s + " }"
	case "for":
		s := "for "
		for i, k := range x.kids[:len(x.kids)-1] {
			if i > 0 {
				s += "; "
			}
			s += qtext(k, 0)
		}
		return s + " " + qbody(x.kids[len(x.kids)-1])
	case "=", "+=", "-=", "*=", "/=", "%=":
		return x.s + " " + x.op + " " + qtext(x.kids[0], 0)
	case "++", "--":
		return x.s + x.op
	case "massign":
		return strings.Join(x.args, ", ") + " = " + qtext(x.kids[0], 0)
	case "return":
		if len(x.kids) == 0 {
			return "return"
		}
		return "return " + qtext(x.kids[0], 0)
	case "defer":
		return "defer " + qtext(x.kids[0], 0)
	case "doc":
		var ss []string
		for _, k := range x.kids {
			ss = append(ss, qtext(k, 0))
		}
		s := strings.Join(ss, "; ")
		if x.n == 1 {
			s += ";"
		}
		return s
	}
	own := qlevel(x.op)
	s := qtext(x.kids[0], own) + " " + x.op + " " + qtext(x.kids[1], own+1)
	if own < lvl {
		return "(" + s + ")"
	}
	return s
}

func qlist(kids []*qn) string {
	var ss []string
	for _, k := range kids {
		ss = append(ss, qtext(k, 0))
	}
	return strings.Join(ss, ", ")
}

type qerr struct {
	msg  string
	name string // of the variable that is not there
}
type qret struct{}

func qfail(msg string) { panic(&qerr{msg: msg}) }

func qmissing(name string) { panic(&qerr{"symbol not found: " + name, name}) }

type qclosure struct {
	x   *qn
	env *qenv
}

// qenv is a function being called, or the script itself
type qenv struct {
	vars   map[string]interface{}
	known  map[string]*qenv // variables of functions around this one that it has read
	parent *qenv
	defers []*qn
	ret    interface{}
	recov  *qerr
	w      *qworld
}

type qworld struct {
	tv  []interface{}
	log []interface{}
}

func newEnv(parent *qenv, w *qworld) *qenv {
	return &qenv{vars: map[string]interface{}{}, known: map[string]*qenv{}, parent: parent, w: w}
}

// owner is where a variable lives, as far as this function knows
func (p *qenv) owner(name string) *qenv {
	if _, ok := p.vars[name]; ok {
		return p
	}
	return p.known[name]
}

func (p *qenv) outer(name string) *qenv {
	if name[0] != '_' {
		for t := p.parent; t != nil; t = t.parent {
			if o := t.owner(name); o != nil {
				return o
			}
		}
	}
	return nil
}

func (p *qenv) get(name string) interface{} {
	o := p.owner(name)
	if o == nil {
		if o = p.outer(name); o == nil {
			switch name {
			case "true":
				return true
			case "false":
				return false
			case "nil":
				return nil
			}
			qmissing(name)
		}
		p.known[name] = o
	}
	v, ok := o.vars[name]
	if !ok {
		qmissing(name)
	}
	return v
}

func (p *qenv) set(name string, v interface{}) {
	o := p.owner(name)
	if o == nil {
		if p.outer(name) != nil {
			qfail("variable `" + name + "` exists in extern function")
		}
		o = p
	}
	if _, ok := o.vars[name]; !ok && o != p {
		sym.Skip() // where a variable is made again that was known and is gone is not said
	}
	o.vars[name] = v
}

func qbin(op string, a, b interface{}) interface{} {
	switch op {
	case "==":
		return a == b
	case "!=":
		return a != b
	}
	x, ok1 := a.(int)
	y, ok2 := b.(int)
	if !ok1 || !ok2 {
		qfail("unsupported operator: " + sym.TypeName(a) + op + sym.TypeName(b))
	}
	switch op {
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	case "/", "%":
		if y == 0 {
			qfail("runtime error: integer divide by zero")
		}
		if op == "/" {
			return x / y
		}
		return x % y
	case "<":
		return x < y
	case ">":
		return x > y
	case "<=":
		return x <= y
	case ">=":
		return x >= y
	}
	panic("qbin " + op)
}

func (p *qenv) body(x *qn) interface{} {
	if x == nil {
		return nil
	}
	return p.eval(x)
}

func (p *qenv) eval(x *qn) interface{} {
	switch x.op {
	case "int":
		return x.n
	case "str":
		return x.s
	case "var":
		return p.get(x.s)
	case "t":
		p.get("t")
		p.w.log = append(p.w.log, x.n)
		return p.w.tv[x.n]
	case "u":
		p.get("u")
		v := p.eval(x.kids[0])
		p.w.log = append(p.w.log, x.n, v)
		return v
	case "unset":
		delete(p.vars, x.s)
		delete(p.known, x.s)
		return nil
	case "recover":
		if p.parent == nil || p.parent.recov == nil {
			return nil
		}
		e := p.parent.recov
		p.parent.recov = nil
		return e
	case "neg":
		v, ok := p.eval(x.kids[0]).(int)
		if !ok {
			qfail("unsupported operator: -")
		}
		return -v
	case "!":
		v, ok := p.eval(x.kids[0]).(bool)
		if !ok {
			qfail("unsupported operator: !")
		}
		return !v
	case "&&", "||":
		v, ok := p.eval(x.kids[0]).(bool)
		if !ok {
			qfail("left operand of " + x.op + " operator isn't a boolean expression")
		}
		if v == (x.op == "||") {
			return v
		}
		return p.eval(x.kids[1])
	case "slice":
		r := []interface{}{}
		for _, k := range x.kids {
			r = append(r, p.eval(k))
		}
		return r
	case "call":
		f := p.eval(x.kids[0])
		var args []interface{}
		for _, k := range x.kids[1:] {
			args = append(args, p.eval(k))
		}
		if x.n == 1 {
			s, ok := args[len(args)-1].([]interface{})
			if !ok {
				qfail("apply `...` on non-slice object")
			}
			args = append(args[:len(args)-1:len(args)-1], s...)
		}
		c, ok := f.(*qclosure)
		if !ok {
			qfail("not a function")
		}
		return c.call(args)
	case "fn":
		return &qclosure{x, p}
	case "if":
		i := 0
		for ; i+1 < len(x.kids); i += 2 {
			c, ok := p.eval(x.kids[i]).(bool)
			if !ok {
				qfail("if condition isn't a boolean expression")
			}
			if c {
				return p.body(x.kids[i+1])
			}
		}
		if i < len(x.kids) {
			return p.body(x.kids[i])
		}
		return nil
	case "switch":
		var v interface{} = true
		if x.kids[0] != nil {
			v = p.eval(x.kids[0])
		}
		i := 1
		for ; i+1 < len(x.kids); i += 2 {
			if p.eval(x.kids[i]) == v {
				return p.body(x.kids[i+1])
			}
		}
		if i < len(x.kids) {
			return p.body(x.kids[i])
		}
		return nil
	case "for":
		k := x.kids
		var cond, step *qn
		switch len(k) {
		case 2:
			cond = k[0]
		case 4:
			p.eval(k[0])
			cond, step = k[1], k[2]
		}
		for {
			if cond != nil {
				c, ok := p.eval(cond).(bool)
				if !ok {
					qfail("for loop condition isn't a boolean expression")
				}
				if !c {
					return nil
				}
			}
			p.body(k[len(k)-1])
			if step != nil {
				p.eval(step)
			}
		}
	case "=":
		v := p.eval(x.kids[0])
		p.set(x.s, v)
		return v
	case "+=", "-=", "*=", "/=", "%=":
		v := p.eval(x.kids[0])
		o := p.owner(x.s)
		if o == nil {
			qfail("variable `" + x.s + "` not found")
		}
		o.vars[x.s] = qbin(x.op[:1], o.vars[x.s], v)
		return o.vars[x.s]
	case "++", "--":
		o := p.owner(x.s)
		if o == nil {
			qfail("variable `" + x.s + "` not found")
		}
		v, ok := o.vars[x.s].(int)
		if !ok {
			qfail("unsupported operator: " + x.op)
		}
		if x.op == "++" {
			v++
		} else {
			v--
		}
		o.vars[x.s] = v
		return v
	case "massign":
		v, ok := p.eval(x.kids[0]).([]interface{})
		if !ok {
			qfail("expression of multi assignment must return slice")
		}
		if len(v) != len(x.args) {
			qfail("multi assignment error")
		}
		for i, n := range x.args {
			p.set(n, v[i])
		}
		return v
	case "return":
		p.ret = nil
		if len(x.kids) > 0 {
			p.ret = p.eval(x.kids[0])
		}
		panic(qret{})
	case "defer":
		p.defers = append(p.defers, x.kids[0])
		return nil
	case "doc":
		var v interface{}
		for _, k := range x.kids {
			v = p.eval(k)
		}
		if x.n == 1 {
			return nil
		}
		return v
	}
	return qbin(x.op, p.eval(x.kids[0]), p.eval(x.kids[1]))
}

// guard runs f; how it ended is in p.recov
func (p *qenv) guard(f func()) {
	defer func() {
		switch e := recover().(type) {
		case nil, qret:
		case *qerr:
			p.recov = e
		default:
			panic(e)
		}
	}()
	f()
}

func (p *qenv) finish() {
	for n := len(p.defers); n > 0; n = len(p.defers) {
		d := p.defers[n-1]
		p.defers = p.defers[:n-1]
		p.guard(func() { p.eval(d) })
	}
}

func (c *qclosure) call(args []interface{}) interface{} {
	names := c.x.args
	n := len(names)
	p := newEnv(c.env, c.env.w)
	if c.x.n == 1 {
		if len(args) < n-1 {
			qfail("function requires arguments")
		}
		rest := append([]interface{}{}, args[n-1:]...)
		args = append(append([]interface{}{}, args[:n-1]...), interface{}(rest))
	} else if len(args) != n {
		qfail("function requires arguments")
	}
	for i, a := range args {
		p.vars[names[i]] = a
	}
	if c.x.kids[0] == nil {
		return nil
	}
	p.guard(func() { p.eval(c.x.kids[0]) })
	p.finish()
	if p.recov != nil {
		panic(p.recov)
	}
	return p.ret
}

// qsame tells whether a value of the script is the value it should be
func qsame(v, want interface{}) bool {
	switch want := want.(type) {
	case *qclosure:
		_, ok := v.(*qcl.Function)
		return ok
	case *qerr:
		err, ok := v.(error)
		return ok && (want.name == "" || strings.Contains(err.Error(), want.name))
	case []interface{}:
		switch v := v.(type) {
		case []interface{}:
			if len(v) != len(want) {
				return false
			}
			for i := range v {
				if !qsame(v[i], want[i]) {
					return false
				}
			}
			return true
		case []int:
			if len(v) != len(want) {
				return false
			}
			for i := range v {
				if !qsame(v[i], want[i]) {
					return false
				}
			}
			return true
		}
		return false
	}
	return v == want
}

func newQ() qlang.Qlang {
	l, err := qlang.New(nil)
	sym.Assert(err == nil, "the language compiles")
	return l
}

// qtest is a script under test: the real one and what it should do
type qtest struct {
	direct bool // Exec instead of SafeEval
	l      qlang.Qlang
	w      *qworld
	env    *qenv
	log    []interface{}
}

func newQtest() *qtest {
	p := &qtest{l: newQ(), w: &qworld{}}
	p.env = newEnv(nil, p.w)
	p.set("t", func(n int) interface{} { p.log = append(p.log, n); return p.w.tv[n] })
	p.set("u", func(n int, v interface{}) interface{} { p.log = append(p.log, n, v); return v })
	return p
}

func (p *qtest) set(name string, v interface{}) {
	p.l.SetVar(name, v)
	p.env.vars[name] = v
}

// run evaluates x and compares everything that can be observed
func (p *qtest) run(x *qn) (want interface{}, failed bool) {
	p.log, p.w.log = nil, nil
	var err error
	if p.direct {
		err = attempt(func() error { return p.l.Exec([]byte(qtext(x, 0)), "f.ql") })
	} else {
		err = p.l.SafeEval(qtext(x, 0))
	}
	p.env.recov, p.env.defers = nil, nil
	broken := false // the text ends with something that is no statement
	if n := len(x.kids); x.op == "doc" && n > 0 && x.kids[n-1].op == "raw" {
		whole := x
		x, broken = &qn{}, true
		*x = *whole
		x.kids = x.kids[:n-1]
	}
	p.env.guard(func() { want = p.env.eval(x) })
	ended := p.env.recov != nil
	p.env.finish()
	failed = p.env.recov != nil
	if broken && !ended && !failed {
		failed, p.env.recov = true, &qerr{msg: "no statement"}
	}
	sym.Assert((err != nil) == failed, "a script fails exactly if a step of it cannot be done")
	sym.Assert(!failed || qsame(err, p.env.recov), "a script reports what failed, the last of several")
	sym.Assert(len(p.log) == len(p.w.log), "exactly the steps that should be executed are executed")
	for i := range p.log {
		sym.Assert(qsame(p.log[i], p.w.log[i]), "steps are executed in order, with the values they should have")
	}
	if !failed {
		v, ok := p.l.Ret()
		// the value of a script that failed and recovered is not said
		sym.Assert(ended || ok && qsame(v, want), "a script has the value it should have")
		_, ok = p.l.Ret()
		sym.Assert(!ok, "a script has one value")
	}
	for name, want := range p.env.vars {
		if name != "t" && name != "u" {
			v, ok := p.l.Var(name)
			sym.Assert(ok && qsame(v, want), "the variables have the values they should have afterwards")
		}
	}
	sym.Assert(len(p.l.Vars()) == len(p.env.vars), "no other variables are left afterwards")
	return
}

var errQ = errors.New("q")

// ---- Q01: operators ----

func qvalue(name string, kind int) interface{} {
	switch kind {
	case 0:
		return sym.Int(name)
	case 1:
		return sym.Float64(name)
	case 2:
		return string(sym.Bytes(name, sym.Choice(name+" len", 3)))
	case 3:
		return sym.Bool(name)
	case 4:
		return sym.Byte(name)
	}
	return nil
}

func qnum(v interface{}) (float64, bool) {
	switch v := v.(type) {
	case int:
		return float64(v), true
	case float64:
		return v, true
	}
	return 0, false
}

func Q01_binary() {
	l := newQ()
	op := []string{"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!="}[sym.Choice("op", 11)]
	a := qvalue("a", sym.Choice("kind a", 6))
	b := qvalue("b", sym.Choice("kind b", 6))
	l.SetVar("a", a)
	l.SetVar("b", b)
	err := l.SafeEval("a " + op + " b")
	var want interface{}
	ok := true
	switch op {
	case "==", "!=":
		if sym.TypeName(a) != sym.TypeName(b) { // how numbers of different kinds compare is not said
			_, ok1 := qnum(a)
			_, ok2 := qnum(b)
			_, ok3 := a.(byte)
			_, ok4 := b.(byte)
			if (ok1 || ok3) && (ok2 || ok4) { // but both ways the same
				v, failed := qeval(l, "[a == b, b == a, a != b, b != a]")
				r, ok := v.([]interface{})
				sym.Assert(!failed && ok && r[0] == r[1] && r[2] == r[3], "the order of what is compared does not matter")
				sym.Reach("symmetric")
				return
			}
		}
		want = (a == b) == (op == "==")
	case "<", ">", "<=", ">=":
		if v, ok := a.(byte); ok {
			a = int(v)
		}
		if v, ok := b.(byte); ok {
			b = int(v)
		}
	}
	if want == nil {
		x, ok1 := a.(int)
		y, ok2 := b.(int)
		s, ok3 := a.(string)
		t, ok4 := b.(string)
		f, ok5 := qnum(a)
		g, ok6 := qnum(b)
		switch {
		case ok1 && ok2:
			switch op {
			case "+":
				want = x + y
			case "-":
				want = x - y
			case "*":
				want = x * y
			case "/", "%":
				if y == 0 {
					ok = false
				} else if op == "/" {
					want = x / y
				} else {
					want = x % y
				}
			case "<":
				want = x < y
			case ">":
				want = x > y
			case "<=":
				want = x <= y
			case ">=":
				want = x >= y
			}
		case ok5 && ok6:
			switch op {
			case "+":
				want = f + g
			case "-":
				want = f - g
			case "*":
				want = f * g
			case "/":
				want = f / g
			case "%":
				ok = false
			case "<":
				want = f < g
			case ">":
				want = f > g
			case "<=":
				want = f <= g
			case ">=":
				want = f >= g
			}
		case ok3 && ok4:
			switch op {
			case "+":
				want = s + t
			case "<":
				want = s < t
			case ">":
				want = s > t
			case "<=":
				want = s <= t
			case ">=":
				want = s >= t
			default:
				ok = false
			}
		default:
			ok = false
		}
	}
	sym.Assert((err == nil) == ok, "an operator fails exactly where it has no meaning")
	if !ok {
		sym.Reach("reported")
		return
	}
	v, _ := l.Ret()
	sym.Assert(sym.TypeName(v) == sym.TypeName(want), "the result of an operator has the type it should have")
	sym.Assert(sym.Same(v, want), "an operator has the value it should have")
	sym.Reach("value")
}

func Q01_unary() {
	l := newQ()
	op := []string{"- a", "+ a", "! a", "- - a", "! ! a", "a++", "a--"}[sym.Choice("op", 7)]
	a := qvalue("a", sym.Choice("kind", 6))
	l.SetVar("a", a)
	err := l.SafeEval(op)
	var want interface{}
	ok := true
	switch op {
	case "+ a":
		want = a
	case "! a", "! ! a":
		v, is := a.(bool)
		ok = is
		want = v == (op != "! a")
	case "a++", "a--":
		d := 1
		if op == "a--" {
			d = -1
		}
		switch a := a.(type) {
		case int:
			want = a + d
		case byte:
			want = a + byte(d)
		default:
			ok = false
		}
	default:
		switch a := a.(type) {
		case int:
			want = -a
			if op != "- a" {
				want = a
			}
		case float64:
			want = -a
			if op != "- a" {
				want = a
			}
		default:
			ok = false
		}
	}
	sym.Assert((err == nil) == ok, "an operator fails exactly where it has no meaning")
	if !ok {
		sym.Reach("reported")
		return
	}
	v, _ := l.Ret()
	sym.Assert(sym.TypeName(v) == sym.TypeName(want), "the result of an operator has the type it should have")
	sym.Assert(sym.Same(v, want), "an operator has the value it should have")
	if op[0] == 'a' {
		v, _ := l.Var("a")
		sym.Assert(sym.Same(v, want), "an increment changes the variable")
	}
	sym.Reach("value")
}

type qgen struct {
	left, nint, nbool, nt int
}

// expr generates an expression of a type
func (g *qgen) expr(t byte) *qn {
	if g.left > 0 {
		if t == 'i' {
			switch c := sym.Choice("op", 7); c {
			case 0:
			case 6:
				g.left--
				return nd("neg", g.expr('i'))
			case 4, 5:
				g.left--
				g.nint++
				return nd([]string{"/", "%"}[c-4], g.expr('i'), qvar("x"+strconv.Itoa(g.nint-1)))
			default:
				g.left--
				return nd([]string{"", "+", "-", "*"}[c], g.expr('i'), g.expr('i'))
			}
		} else {
			switch c := sym.Choice("op", 7); c {
			case 0:
			case 1, 2:
				g.left--
				return nd([]string{"", "&&", "||"}[c], g.expr('b'), g.expr('b'))
			case 3:
				g.left--
				return nd("!", g.expr('b'))
			case 4, 5:
				g.left--
				return nd([]string{"<", ">="}[c-4], g.expr('i'), g.expr('i'))
			case 6:
				g.left--
				t := "ib"[sym.Choice("type", 2)]
				return nd("==", g.expr(t), g.expr(t))
			}
		}
	}
	if t == 'i' {
		g.nint++
		return qvar("x" + strconv.Itoa(g.nint-1))
	}
	g.nbool++
	return qvar("b" + strconv.Itoa(g.nbool-1))
}

func Q01_precedence() {
	p := newQtest()
	g := &qgen{left: sym.Bound("operators", 3)}
	x := g.expr("ib"[sym.Choice("type", 2)])
	for i := 0; i < g.nint; i++ {
		n := "x" + strconv.Itoa(i)
		p.set(n, sym.Int(n))
	}
	for i := 0; i < g.nbool; i++ {
		n := "b" + strconv.Itoa(i)
		p.set(n, sym.Bool(n))
	}
	_, failed := p.run(x)
	if failed {
		sym.Reach("division by zero")
	} else {
		sym.Reach("value")
	}
}
