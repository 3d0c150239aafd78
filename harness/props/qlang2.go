package props

import (
	"strconv"
	"strings"

	"verif/sym"
)

// traces adds n values a script gets from t(k): booleans, with one that is something else at times
func (p *qtest) traceBool(odd bool) *qn {
	k := len(p.w.tv)
	name := "t" + strconv.Itoa(k)
	if odd && sym.Choice(name+" odd", 2) == 1 {
		p.w.tv = append(p.w.tv, []interface{}{7, nil}[k&1])
	} else {
		p.w.tv = append(p.w.tv, sym.Bool(name))
	}
	return qtrace(k)
}

func (p *qtest) traceInt() *qn {
	k := len(p.w.tv)
	p.w.tv = append(p.w.tv, sym.Int("t"+strconv.Itoa(k)))
	return qtrace(k)
}

// ---- Q02: short circuit ----

type q02 struct {
	p    *qtest
	left int
	odd  int
}

func (g *q02) gen() *qn {
	if g.left > 0 {
		switch sym.Choice("op", 4) {
		case 1:
			g.left--
			return nd("&&", g.gen(), g.gen())
		case 2:
			g.left--
			return nd("||", g.gen(), g.gen())
		case 3:
			g.left--
			return nd("!", g.gen())
		}
	}
	k := len(g.p.w.tv)
	if k == g.odd {
		g.p.w.tv = append(g.p.w.tv, 7)
	} else {
		g.p.w.tv = append(g.p.w.tv, sym.Bool("t"+strconv.Itoa(k)))
	}
	return qtrace(k)
}

func Q02_circuit() {
	p := newQtest()
	g := &q02{p: p, left: sym.Bound("operators", 3+sym.Tier()), odd: sym.Choice("odd", 4) - 1}
	_, failed := p.run(g.gen())
	if failed {
		sym.Reach("reported")
	} else {
		sym.Reach("value")
	}
}

// with code that leaves things on the stack, assigns, and returns
func Q02_nested() {
	p := newQtest()
	a, b, c := p.traceBool(false), p.traceBool(false), p.traceBool(false)
	op := func(n string) string { return []string{"&&", "||"}[sym.Choice(n, 2)] }
	var x *qn
	switch sym.Choice("shape", 5) {
	case 0:
		x = nd("+", qlog(1, qint(1)), nd("if", nd(op("1"), a, nd(op("2"), b, c)), qdoc(qint(2)), qdoc(qint(3))))
		x = nd("+", nd("if", nd(op("3"), a, c), qdoc(qint(20)), qdoc(qint(30))), x)
	case 1:
		x = qcall(qfn(qdoc(nd("return", nd(op("1"), a, qcall(qfn(qdoc(nd("return", nd(op("2"), b, c))))))))))
	case 2:
		x = nd("slice", qint(1), nd(op("1"), a, nd("if", b, qdoc(qset("y", qint(1)), c))), nd(op("2"), c, nd("==", a, b)))
	case 3:
		x = qdoc(qset("y", nd(op("1"), a, b)), nd("if", nd(op("2"), qvar("y"), c), qdoc(qlog(5, qvar("y")))))
	case 4:
		x = qcall(qfn(qdoc(nd(op("1"), a, nd("if", b, qdoc(nd("return", qint(1))))), nd("return", qint(2)))))
	}
	if _, failed := p.run(x); !failed {
		sym.Reach("value")
	}
}

// ---- Q03: if and switch ----

type q03 struct {
	p     *qtest
	k     int
	depth int
	odd   bool
	top   bool

	nested int
}

func (g *q03) body(name string) *qn {
	g.k++
	k := g.k
	n := 4
	switch {
	case g.depth > 0 && g.nested < 1+sym.Tier():
		n = 6
		g.nested++
	case g.nested > 0:
		n = 2
	}
	switch sym.Choice(name, n) {
	case 0:
		return nil
	case 1:
		return qdoc(qlog(k, qint(k)))
	case 2:
		return qdoc(qlog(k, qint(k)), qset("y", qint(k)), qint(-k))
	case 3:
		x := qdoc(qlog(k, qint(k)))
		x.n = 1
		return x
	case 4:
		g.depth--
		x := g.gen()
		g.depth++
		return qdoc(x)
	}
	g.depth--
	x := g.gen()
	g.depth++
	return qdoc(qlog(k, qint(k)), x, qset("z", qint(k)))
}

func (g *q03) gen() *qn {
	name := "if" + strconv.Itoa(g.k)
	n := 1
	if g.top {
		g.top = false
		n += sym.Choice(name+" conditions", 3-g.depth)
	}
	x := nd("if")
	for i := 0; i < n; i++ {
		c := g.p.traceBool(g.odd && i == n-1 && g.depth > 0)
		x.kids = append(x.kids, c, g.body(name+" body"))
	}
	if sym.Choice(name+" else", 2) == 1 {
		x.kids = append(x.kids, g.body(name+" else body"))
	}
	return x
}

func Q03_if() {
	p := newQtest()
	g := &q03{p: p, odd: true, top: true, depth: sym.Choice("nested", 2)}
	x := g.gen()
	if sym.Choice("used", 2) == 1 {
		x = qdoc(qset("r", nd("slice", qint(5), x, qint(6))), qvar("r"))
	}
	if _, failed := p.run(x); failed {
		sym.Reach("reported")
	} else {
		sym.Reach("value")
	}
}

func Q03_switch() {
	p := newQtest()
	g := &q03{p: p}
	x := nd("switch", nil)
	tag := sym.Choice("tag", 2) == 1
	if tag {
		x.kids[0] = p.traceInt()
	}
	n := sym.Choice("cases", 1+sym.Bound("cases", 2+sym.Tier()))
	for i := 0; i < n; i++ {
		var c *qn
		if tag {
			c = p.traceInt()
		} else {
			c = p.traceBool(i == 1)
		}
		x.kids = append(x.kids, c, g.body("body"))
	}
	if sym.Choice("default", 2) == 1 {
		x.kids = append(x.kids, g.body("default body"))
	}
	if sym.Choice("used", 2) == 1 {
		x = qdoc(qset("r", nd("slice", qint(5), x, qint(6))), qvar("r"))
	}
	if _, failed := p.run(x); !failed {
		sym.Reach("value")
	}
}

// a switch in a switch, in an if, in a switch
func Q03_nested() {
	p := newQtest()
	sw := func(k int, body *qn) *qn {
		return nd("switch", p.traceInt(), p.traceInt(), qdoc(qlog(k, qint(k))), p.traceInt(), body, qdoc(qlog(k+1, qint(-k))))
	}
	inner := sw(1, qdoc(qlog(9, qint(9))))
	x := sw(3, qdoc(nd("if", p.traceBool(false), qdoc(inner), qdoc(qlog(8, qint(8))))))
	if sym.Choice("in a function", 2) == 1 {
		x = qcall(qfn(qdoc(sw(5, qdoc(nd("return", inner))), nd("return", qint(77)))))
	}
	p.run(x)
	sym.Reach("value")
}

// ---- Q04: for ----

type q04 struct {
	p     *qtest
	depth int
	fn    bool
}

func (g *q04) loop(v, n string) *qn {
	inc := nd("++")
	inc.s = v
	inner := v == "j" && sym.Tier() == 0
	choice := func(name string, n int) int {
		if inner {
			return n / 3
		}
		return sym.Choice(v+name, n)
	}
	if choice(" step", 2) == 1 {
		inc = qset(v, nd("+", qvar(v), qint(1)))
	}
	cond := nd("<", qvar(v), qvar(n))
	switch choice(" condition", 3) {
	case 1:
		cond = qlog(3, cond)
	case 2:
		cond = qset("c", cond)
	}
	var body *qn
	nb := 4
	if g.fn {
		nb++
	}
	switch sym.Choice(v+" body", nb) {
	case 0:
	case 1:
		body = qdoc(qlog(1, qvar(v)))
	case 2:
		body = qdoc(qlog(1, qvar(v)), nd("if", nd("==", qvar(v), qvar("k")), qdoc(qset(v, nd("+", qvar(v), qint(1))), qlog(2, qvar(v)))))
	case 3:
		if g.depth > 0 {
			g.depth--
			body = qdoc(qlog(4, qvar(v)), g.loop("j", "m"), qlog(5, qvar(v)))
			g.depth++
		} else {
			body = qdoc(qset("s", nd("+", qvar("s"), qvar(v))))
		}
	case 4:
		body = qdoc(nd("if", nd("==", qvar(v), qvar("k")), qdoc(nd("return", qvar(v)))), qlog(6, qvar(v)))
	}
	switch sym.Choice(v+" form", 3) {
	case 0:
		return nd("for", qset(v, qint(0)), cond, inc, body)
	case 1:
		b := qdoc(inc)
		if body != nil {
			b = qdoc(append(append([]*qn{}, body.kids...), inc)...)
		}
		return qdoc(qset(v, qint(0)), nd("for", cond, b))
	}
	// without condition
	if !g.fn {
		sym.Skip()
	}
	b := []*qn{nd("if", nd("!", cond), qdoc(nd("return", qint(-1))))}
	if cond.op == "=" {
		b = []*qn{cond, nd("if", nd("!", qvar("c")), qdoc(nd("return", qint(-2))))}
	}
	if body != nil {
		b = append(b, body.kids...)
	}
	return qdoc(qset(v, qint(0)), nd("for", qdoc(append(b, inc)...)))
}

func (g *q04) run(max int) {
	small := func(name string, max int) int {
		n := sym.Int(name)
		sym.Assume(n >= 0)
		sym.Assume(n <= max)
		return n
	}
	p := g.p
	p.set("n", small("n", max))
	p.set("m", small("m", 2))
	p.set("k", sym.Int("k"))
	p.set("s", 0)
	p.set("c", nil)
	x := g.loop("i", "n")
	if g.fn {
		x = qcall(qfn(qdoc(qvar("c"), qvar("s"), x, nd("return", qlog(7, qvar("i"))))))
	} else if x.op == "for" && sym.Choice("used", 2) == 1 {
		x = qset("r", nd("slice", qint(5), x, qint(6)))
	}
	if _, failed := p.run(x); !failed {
		sym.Reach("value")
	}
}

func Q04_top() {
	g := &q04{p: newQtest(), depth: 1}
	g.run(sym.Bound("iterations", 2+sym.Tier()))
}

func Q04_fn() {
	g := &q04{p: newQtest(), fn: true, depth: 1}
	g.run(sym.Bound("iterations", 2+sym.Tier()))
}

// any statement can be the first part or the step, whatever its value
func Q04_steps() {
	p := newQtest()
	n := sym.Int("n")
	sym.Assume(n >= 0)
	sym.Assume(n <= sym.Bound("iterations", 2))
	p.set("n", n)
	p.set("i", 0)
	next := qset("i", nd("+", qvar("i"), qint(1)))
	quiet := &qn{op: "if", kids: []*qn{nd("<", qvar("i"), qint(-5)), qdoc(next)}} // no else part: no value
	run := func(part string, st *qn) *qn {
		switch sym.Choice(part, 6) {
		case 1:
			return qcall(qfn(qdoc(st)))
		case 2:
			return qcall(qfn(qdoc(st, nd("return", p.traceBool(false)))))
		case 3:
			return nd("if", nd("<", qvar("i"), qint(100)), qdoc(st))
		case 4:
			return nd("if", nd("<", qvar("i"), qint(100)), qdoc(st, quiet))
		case 5:
			return nd("slice", qint(1), qcall(qfn(qdoc(st))))
		}
		return st
	}
	init := run("first part", qset("i", qint(0)))
	cond := nd("<", qvar("i"), qvar("n"))
	step := run("step", next)
	var body *qn
	switch sym.Choice("body", 4) {
	case 1:
		body = qdoc(qlog(1, qvar("i")))
	case 2:
		body = qdoc(quiet)
	case 3:
		body = qdoc(qlog(1, qvar("i")), p.traceBool(false))
	}
	x := qdoc(nd("for", init, cond, step, body), qlog(2, qvar("i")))
	if sym.Choice("inside", 2) == 1 {
		x = qcall(qfn(qdoc(qvar("i"), qvar("n"), x)))
	}
	if _, failed := p.run(x); !failed {
		sym.Reach("value")
	}
}

func Q04_odd() {
	p := newQtest()
	c := []*qn{qint(1), p.traceBool(true), qvar("nosuch"), qcall(qfn(nil)), qset("c", qint(1)), nd("slice")}[sym.Choice("condition", 6)]
	i := nd("++")
	i.s = "i"
	p.set("i", 0)
	form := sym.Choice("form", 3)
	var x *qn
	body := qdoc(i, qlog(1, qvar("i")), nd("if", nd(">", qvar("i"), qint(3)), qdoc(qvar("nosuch"))))
	switch form {
	case 0:
		x = nd("for", c, body)
	case 1:
		x = nd("for", qset("j", qint(1)), c, i, body)
	case 2:
		x = nd("for", qvar("nosuch"), c, i, body)
	}
	_, failed := p.run(x)
	if failed {
		sym.Reach("reported")
	}
}

// ---- Q05: functions ----

func Q05_args() {
	p := newQtest()
	nParam := sym.Choice("parameters", 4)
	nArg := sym.Choice("arguments", 1+sym.Bound("arguments", 4))
	f := &qn{op: "fn"}
	for i := 0; i < nParam; i++ {
		f.args = append(f.args, string(rune('a'+i)))
	}
	if nParam > 0 {
		f.n = sym.Choice("variadic", 2)
	}
	ps := nd("slice", qint(100))
	for _, a := range f.args {
		ps.kids = append(ps.kids, qvar(a))
	}
	body := qdoc(qlog(50, ps), nd("return", ps))
	switch sym.Choice("body", 4) {
	case 1:
		body = nil
	case 2:
		body = qdoc(qlog(50, ps), ps)
	case 3:
		body = qdoc(nd("if", p.traceBool(false), qdoc(nd("return", ps))), qlog(51, qint(1)), nd("return"))
	}
	f.kids = []*qn{body}
	spread := 0
	if nArg > 0 {
		spread = sym.Choice("spread", 2)
	}
	call := qcall(f)
	for i := 0; i < nArg; i++ {
		a := p.traceInt()
		if spread == 1 && i == nArg-1 {
			a = nd("slice")
			for j := sym.Choice("spread arguments", 3); j > 0; j-- {
				a.kids = append(a.kids, p.traceInt())
			}
		}
		call.kids = append(call.kids, a)
	}
	call.n = spread
	x := call
	switch sym.Choice("use", 4) {
	case 1:
		x = qdoc(qset("f", f), qcall(qvar("f"), call.kids[1:]...))
		x.kids[1].n = spread
	case 2:
		x = nd("slice", qint(1), call, qint(2))
	case 3:
		x = qdoc(qset("f", qfn(qdoc(nd("return", f)))), qcall(qcall(qvar("f")), call.kids[1:]...))
		x.kids[1].n = spread
	}
	if _, failed := p.run(x); failed {
		sym.Reach("reported")
	} else {
		sym.Reach("value")
	}
}

func Q05_recursion() {
	p := newQtest()
	n := sym.Int("n")
	sym.Assume(n >= 0)
	sym.Assume(n <= sym.Bound("depth", 4))
	p.set("n", n)
	ret := func(x *qn) *qn { return nd("return", x) }
	less := func(m *qn) *qn { return nd("-", qvar("a"), m) }
	var f *qn
	x := qcall(qvar("f"), qvar("n"))
	switch sym.Choice("function", 4) {
	case 0: // factorial
		f = qfn(qdoc(nd("if", nd("<", qvar("a"), qint(1)), qdoc(ret(qint(1)))), ret(nd("*", qvar("a"), qcall(qvar("f"), less(qint(1)))))), "a")
	case 1: // two calls pending
		f = qfn(qdoc(nd("if", nd("<", qvar("a"), qint(2)), qdoc(ret(qlog(1, qvar("a"))))), ret(nd("+", qcall(qvar("f"), less(qint(1))), qcall(qvar("f"), less(qint(2)))))), "a")
	case 2: // locals of each call, changed after the inner call
		f = qfn(qdoc(qset("l", qvar("a")), nd("if", nd(">", qvar("a"), qint(0)), qdoc(qcall(qvar("f"), less(qint(1))), qlog(1, qvar("l")))), qset("l", nd("+", qvar("l"), qint(10))), ret(qvar("l"))), "a")
	case 3: // two functions
		f = qfn(qdoc(nd("if", nd("<", qvar("a"), qint(1)), qdoc(ret(qint(0)))), ret(nd("+", qint(1), qcall(qvar("g"), less(qint(1)))))), "a")
		x = nd("-", x, qcall(qvar("g"), qvar("n")))
	}
	g := qfn(qdoc(ret(nd("if", nd("<", qvar("a"), qint(1)), qdoc(qint(7)), qdoc(qcall(qvar("f"), less(qint(1))))))), "a")
	if _, failed := p.run(qdoc(qset("f", f), qset("g", g), x)); !failed {
		sym.Reach("value")
	}
}

// what a function got for its last parameter stays what it is when the function is called again
func Q05_rest() {
	l := newQ()
	a, b := sym.Int("a"), sym.Int("b")
	l.SetVar("a", a)
	l.SetVar("b", b)
	k := sym.Choice("call", 6)
	code := []string{
		"x = f(a, b); y = f(b, 7, 8)",
		"x = f([a, b]...); y = f([b, 7]...)",
		"s = [a, b]; x = f(s...); set(s, 0, 9); y = f(b, 7)",
		"x = g(1, a, b); y = g(2, b, 7)",
		"x = h(a, b); y = h(b)",
		"m = o.rest; x = m(a, b); y = m(b, 7)",
	}[k]
	_, failed := qeval(l, "f = fn(r...) { return r }; g = fn(p, r...) { return r }; h = fn(r...) { if len(r) > 1 { f(3, 4, 5); return r }; return f(6) }; "+
		"C = class { fn rest(r...) { return r } }; o = new C; "+code)
	sym.Assert(!failed, "a function with any number of arguments can be called")
	for i, w := range []int{a, b} {
		v, failed := qeval(l, "x["+strconv.Itoa(i)+"]")
		sym.Assert(!failed && v == interface{}(w), "arguments stay what they are when the function is called again")
	}
	v, failed := qeval(l, "len(x)")
	sym.Assert(!failed && v == interface{}(2), "a function gets all its arguments")
	v, _ = qeval(l, "y[0]")
	if k == 4 {
		sym.Assert(v == interface{}(6), "a function gets all its arguments")
	} else {
		sym.Assert(v == interface{}(b), "a function gets all its arguments")
	}
	sym.Reach("kept")
}

// a function does the same wherever it was made and wherever it is called
func Q05_depth() {
	l := newQ()
	a := sym.Int("a")
	l.SetVar("a", a)
	body := []string{"r = x + 1; 5; return r", "x; r = [x, [x + 1]]; return r[1][0]", "if x == x { 3; return x + 1 }; 4", "y = 7; for i = 0; i < 1; i++ { 8; y }; return x + 1"}[sym.Choice("body", 4)]
	f := "fn(x) { " + body + " }"
	if sym.Choice("made in a call", 2) == 1 {
		f = "(fn() { _k = 2; return " + f + " })()"
	}
	deep := []string{"f = " + f, "f = [1, 2, 3, 4, " + f + "][4]", "f = [1, [2, [3, [4, " + f + "]]]][1][1][1][1]", "id = fn(a, b, c, d) { return [a, b, c, d] }; f = id(1, 2, 3, " + f + ")[3]"}[sym.Choice("made", 4)]
	_, failed := qeval(l, deep)
	sym.Assert(!failed, "a function is made")
	use := []string{"f(a)", "[f(a)][0]", "[1, 2, 3, 4, 5, 6, f(a), 7][6]", "f(f(a - 1))", "g = fn() { return [0, f(a)] }; [1, g()][1][1]", "1; 2; f(a)"}[sym.Choice("called", 6)]
	for i := 0; i < 2; i++ {
		v, failed := qeval(l, use)
		sym.Assert(!failed && v == interface{}(a+1), "a function does the same wherever it was made and wherever it is called")
	}
	if strings.Contains(use, ";") {
		return
	}
	v, failed := qeval(l, "[9, "+use+", 8, "+use+"]")
	vs, ok := v.([]int)
	sym.Assert(!failed && ok && len(vs) == 4, "a call leaves nothing but its value")
	sym.Assert(sym.And(sym.And(vs[0] == 9, vs[2] == 8), sym.And(vs[1] == a+1, vs[3] == a+1)), "a call leaves nothing but its value")
	sym.Reach("value")
}

// return leaves everything it is in, and nothing else
func Q05_return() {
	p := newQtest()
	c := p.traceBool(false)
	k := qset("d", qint(4))
	ret := nd("return", qlog(1, qint(11)))
	if sym.Choice("value", 2) == 0 {
		ret = nd("return")
	}
	inner := nd("if", c, qdoc(k, ret), qdoc(k))
	wrap := func(name string, x *qn) *qn {
		switch sym.Choice(name, 6) {
		case 0:
			return nd("for", qset("i", qint(0)), nd("<", qvar("i"), qint(2)), qset("i", nd("+", qvar("i"), qint(1))), qdoc(qlog(2, qvar("i")), x))
		case 1:
			return nd("switch", qint(3), qint(2), nil, qint(3), qdoc(qlog(3, qint(1)), x), qdoc(qint(5)))
		case 2:
			return nd("if", nd("==", qint(1), qint(1)), qdoc(x, qlog(4, qint(1))))
		case 3:
			return nd("slice", qint(1), x, qlog(5, qint(5)))
		case 4:
			return qcall(qfn(qdoc(x, qlog(6, qint(6)), nd("return", qint(12)))))
		}
		return x
	}
	x := wrap("outer", wrap("inner", inner))
	f := qfn(qdoc(x, qlog(7, qint(7)), nd("return", qint(13))))
	call := qcall(f)
	if sym.Choice("pending", 2) == 1 {
		call = nd("slice", qint(1), call, qcall(qfn(qdoc(nd("return", qint(14))))))
	}
	if _, failed := p.run(qdoc(call, qset("r", call), qvar("r"))); !failed {
		sym.Reach("value")
	}
}

// ---- Q06: variables of functions ----

func qstep(name string, k int, vars ...string) *qn {
	v := vars[0]
	if len(vars) > 1 {
		v = vars[sym.Choice(name+" variable", len(vars))]
	}
	c := sym.Choice(name, 5)
	op := nd("+=", qint(100))
	op.s = v
	inc := nd("++")
	inc.s = v
	switch c {
	case 1:
		return qlog(k, qvar(v))
	case 2:
		return qset(v, qlog(k, qint(k)))
	case 3:
		return op
	case 4:
		return qset(v, nd("+", qvar(v), qint(k)))
	}
	return qlog(k, qint(0))
}

func Q06_scope() {
	p := newQtest()
	p.set("x", sym.Int("x"))
	v := []string{"x", "y", "_p", "a"}[sym.Choice("variable", 4)]
	second := qlog(2, qint(0))
	if sym.Tier() > 0 {
		second = qstep("inner 2", 2, v)
	}
	g := qfn(qdoc(qstep("inner 1", 1, v), second))
	f := qfn(qdoc(qstep("outer 1", 3, v), qset("g", g), qcall(qvar("g")), qstep("outer 2", 4, v), qcall(qvar("g")), nd("return", qlog(5, qint(1)))), "a")
	x := qdoc(qset("f", f), qcall(qvar("f"), qint(40)), qstep("top", 6, v), qcall(qvar("f"), qint(41)))
	if _, failed := p.run(x); failed {
		sym.Reach("reported")
	} else {
		sym.Reach("value")
	}
}

// functions made by the same function share nothing, functions made by the same call share its variables
func Q06_closures() {
	p := newQtest()
	op := nd("+=", qvar("d"))
	op.s = "n"
	get := qfn(qdoc(nd("return", qvar("n"))))
	add := qfn(qdoc(qvar("n"), op, nd("return", qvar("n"))), "d")
	mk := qfn(qdoc(qset("n", qvar("a")), nd("return", nd("slice", get, add))), "a")
	ma := func(x string) *qn {
		m := nd("massign", qcall(qvar("mk"), p.traceInt()))
		m.args = []string{"get" + x, "add" + x}
		return m
	}
	x := qdoc(qset("mk", mk), ma("1"), ma("2"))
	n := sym.Bound("calls", 4)
	for i := 0; i < n; i++ {
		switch c := sym.Choice("call", 5); c {
		case 1, 2:
			x.kids = append(x.kids, qlog(c, qcall(qvar("get"+strconv.Itoa(c)))))
		case 3, 4:
			x.kids = append(x.kids, qlog(c, qcall(qvar("add"+strconv.Itoa(c-2)), p.traceInt())))
		}
	}
	x.kids = append(x.kids, nd("slice", qcall(qvar("get1")), qcall(qvar("get2"))))
	p.run(x)
	sym.Reach("value")
}

// ---- Q07: defer, panic, recover ----

type q07 struct {
	p *qtest
	k int
}

// step is a statement of a function: log, defer, fail, return
func (g *q07) step(name string) *qn {
	g.k++
	k := g.k
	handler := qfn(qdoc(qset("e", nd("recover")), qlog(k, qvar("e"))))
	nosuch := qvar("nosuch" + strconv.Itoa(k))
	switch sym.Choice(name, 11) {
	case 1:
		return nd("defer", qlog(k, qint(1)))
	case 2:
		return nd("defer", qcall(handler))
	case 3:
		return nd("defer", nosuch)
	case 4:
		return nosuch
	case 5:
		return nd("return", qlog(k, qint(2)))
	case 6:
		return nd("defer", qcall(qfn(qdoc(qlog(k, qint(3)), nd("return", qint(5))))))
	case 7:
		return nd("if", nd("==", qint(1), qint(1)), qdoc(nd("defer", qlog(k, qvar("v"))), qset("v", qint(k))))
	case 8:
		return nd("defer", nd("if", nd("==", qint(1), qint(1)), qdoc(nd("return", qlog(k, qint(4))))))
	case 9: // a deferred step that defers another one
		return nd("defer", nd("if", nd("==", qint(1), qint(1)), qdoc(nd("defer", qlog(-k, qvar("v"))), qlog(k, qint(5)))))
	case 10: // what is deferred inside a deferred function has nothing to stop there
		return nd("defer", qcall(qfn(qdoc(nd("defer", qcall(handler)), qlog(-k, qint(6))))))
	}
	return qlog(k, qint(0))
}

// qbroken is text that is no statement, and what may come before it is executed
func qbroken(name string) *qn {
	return &qn{op: "raw", s: []string{")", "[1, 2", "if 1 < 2 { 3", "t(1, 2", "fn(", "1 +", "for 1 < 2; 3 {"}[sym.Choice(name, 7)]}
}

// a script that ends with something that is no statement has executed what came before
func Q07_broken() {
	p := newQtest()
	g := &q07{p: p}
	p.set("v", 0)
	x := qdoc()
	for i := 0; i < 2; i++ {
		s := g.step("step")
		if s.op == "return" || s.op == "defer" && s.kids[0].op == "if" && s.kids[0].kids[1].kids[0].op == "return" {
			sym.Skip() // ends the process
		}
		if strings.Contains(qtext(s, 0), "recover") {
			sym.Skip() // whether text that is no statement can be recovered from is not said
		}
		x.kids = append(x.kids, s)
	}
	x.kids = append(x.kids, qbroken("broken"))
	if _, failed := p.run(x); failed {
		sym.Reach("failure")
	}
	p.run(qdoc(qlog(99, qint(1))))
}

func Q07_function() {
	p := newQtest()
	g := &q07{p: p}
	body := qdoc(qset("v", qint(0)))
	n := sym.Bound("steps", 3+sym.Tier())
	for i := 0; i < n; i++ {
		body.kids = append(body.kids, g.step("step"))
	}
	body.kids = append(body.kids, qlog(90, qint(0)), nd("return", qint(9)))
	x := qset("r", nd("slice", qint(1), qcall(qfn(body)), qint(2)))
	if _, failed := p.run(x); failed {
		sym.Reach("failure")
	} else {
		sym.Reach("value")
	}
}

// a failure passes through functions that do not recover, and runs their deferred steps
func Q07_outer() {
	p := newQtest()
	g := &q07{p: p}
	inner := qfn(qdoc(g.step("inner"), g.step("inner"), nd("return", qlog(91, qint(1)))))
	mid := qfn(qdoc(g.step("middle"), qset("w", qcall(inner)), qlog(92, qvar("w")), nd("return", qint(2))))
	x := qdoc(qset("r", qcall(qfn(qdoc(nd("defer", qcall(qfn(qdoc(qlog(93, nd("recover")), qlog(94, nd("recover")))))), qset("z", qcall(mid)), qlog(95, qvar("z")), nd("return", qint(3)))))), qvar("r"))
	if _, failed := p.run(x); failed {
		sym.Reach("failure")
	} else {
		sym.Reach("value")
	}
}

// deferred steps of the script itself
func Q07_script() {
	p := newQtest()
	g := &q07{p: p}
	step := func() *qn {
		x := g.step("step")
		if x.op == "return" || x.op == "defer" && x.kids[0].op == "if" && x.kids[0].kids[1].kids[0].op == "return" {
			sym.Skip() // ends the process
		}
		return x
	}
	p.set("v", 0)
	n := sym.Bound("steps", 3)
	x := qdoc()
	for i := 0; i < n; i++ {
		x.kids = append(x.kids, step())
	}
	_, failed := p.run(x)
	if failed {
		sym.Reach("failure")
	} else {
		sym.Reach("value")
	}
	// and nothing of it is left for the next script
	_, failed = p.run(qdoc(step(), qlog(99, qint(1))))
	_ = failed
}

// ---- Q12: one script after another ----

func qscript(name string, k int) *qn {
	nosuch := qvar("nosuch")
	switch sym.Choice(name, 13) {
	case 12:
		return qdoc(qset("x", qint(k)), qint(5), qbroken(name+" broken"))
	case 0:
		return qset("x", qint(k))
	case 1:
		return qdoc(qset("x", qint(k)), nd("if", nd("==", qint(1), qint(1)), qdoc(nosuch)))
	case 2:
		return nd("slice", qint(1), qint(2), nd("if", nd("==", qint(1), qint(1)), qdoc(qset("y", qint(k)), nosuch)))
	case 3:
		return qdoc(qset("f", qfn(qdoc(nd("for", qdoc(nosuch))))), nd("slice", qint(1), qcall(qvar("f"))))
	case 4:
		return nd("slice", qint(1), nd("switch", nosuch, qint(1), nil))
	case 5:
		return nd("slice", qint(1), qint(2), qcall(qvar("t"), qint(1), qint(2)))
	case 6:
		return qdoc(qint(1), nd("&&", nd("==", qint(1), qint(1)), nd("slice", qint(2), nosuch)))
	case 7:
		return nd("return") // of a function that is there or not
	case 8:
		return qdoc(qint(k), qint(k+1))
	case 9:
		return qdoc(nd("if", nd("==", qint(1), qint(1)), qdoc(qint(k), qint(k+1))))
	case 10:
		return nd("for", nd("slice", qint(1), nosuch), nil)
	}
	return qdoc(qlog(k, qint(k)), nd("slice", qint(3), qcall(qfn(qdoc(nd("defer", nosuch), nd("return", qint(1)))))))
}

func Q12_reuse() {
	p := newQtest()
	n := sym.Bound("scripts", 3)
	direct := sym.Choice("direct", n)
	for i := 0; i < n; i++ {
		p.direct = i < n-1 && i == direct
		x := qscript("script", i+1)
		if x.op == "return" {
			x = qcall(qvar("f"))
		}
		if x.op == "slice" && x.kids[len(x.kids)-1].op == "call" && len(x.kids) == 4 {
			x.kids[2] = qint(2)
		}
		p.run(x)
	}
	sym.Reach("done")
}

// any number of conditions or cases
func Q03_many() {
	p := newQtest()
	n := 3 + sym.Choice("branches", 4)
	x := nd("if")
	if sym.Choice("switch", 2) == 1 {
		x = nd("switch", []*qn{nil, p.traceInt()}[sym.Choice("value", 2)])
	}
	sw := x.op == "switch" && x.kids[0] != nil
	for i := 0; i < n; i++ {
		c := p.traceBool(false)
		if sw {
			c = p.traceInt()
		}
		x.kids = append(x.kids, c, qdoc(qlog(i, qint(10+i))))
	}
	if sym.Choice("else", 2) == 1 {
		x.kids = append(x.kids, qdoc(qlog(9, qint(9))))
	}
	p.run(x)
	sym.Reach("value")
}

// a name of the library is a variable where it is assigned, and nowhere else
func Q06_library() {
	l := newQ()
	a := sym.Int("a")
	l.SetVar("a", a)
	scripts := []string{
		"max(1, 2); f = fn() { max = a; return max }; [f(), max(1, 2)]",
		"f = fn() { max(1, 2); max = a; return max }; [f(), max(1, 2)]",
		"g = fn() { max(1, 2); h = fn() { max(3, 4); max = a; return max }; return [h(), max(1, 2)] }; g()",
		"m = max; f = fn(max) { return max }; [f(a), m(1, 2)]",
		"max(1, 2); max = a; f = fn() { return max }; [f(), 2]",
		"max = a; f = fn() { max; max = max + 1 }; f(); [max - 1, 2]",
		"f = fn(x) { if x { max = a }; return max }; [f(true), f(false)(1, 2)]",
	}
	k := sym.Choice("script", len(scripts)+2)
	if k >= len(scripts) {
		_, failed := qeval(l, []string{"max(1, 2); max++", "max; max += 1"}[k-len(scripts)])
		sym.Assert(failed, "what was never assigned is no variable")
		_, ok := l.Var("max")
		sym.Assert(!ok, "what was never assigned is no variable")
		return
	}
	v, failed := qeval(l, scripts[k])
	sym.Assert(!failed, "a name of the library is a variable where it is assigned")
	vs, ok := v.([]int)
	sym.Assert(ok && len(vs) == 2 && vs[0] == a && vs[1] == 2, "a name of the library is a variable where it is assigned, and nowhere else")
	if k < 4 || k == 6 {
		_, ok = l.Var("max")
		sym.Assert(!ok, "what was never assigned is no variable")
	}
	sym.Reach("value")
}

// every call starts with its arguments and nothing else
func Q05_fresh() {
	l := newQ()
	a := sym.Int("a")
	l.SetVar("a", a)
	v := []string{"y", "_y"}[sym.Choice("variable", 2)]
	f := []string{"fn(x) { if x { " + v + " = a }; return " + v + " }", "fn(x...) { if x[0] { " + v + " = a }; return " + v + " }",
		"fn(x) { if x { " + v + " = a; return " + v + " }; w = f(true); return [w, " + v + "] }", "class { fn get(x) { if x { " + v + " = a }; return " + v + " } }"}
	k := sym.Choice("function", len(f))
	code := "f = " + f[k]
	if k == 3 {
		code = "c = " + f[k] + "; o = new c; f = o.get"
	}
	_, failed := qeval(l, code)
	sym.Assert(!failed, "a function is made")
	for i := 0; i < 3; i++ {
		yes := sym.Choice("call", 2) == 1
		code := "f(false)"
		if yes {
			code = "f(true)"
		}
		r, failed := qeval(l, code)
		sym.Assert(failed == !yes, "every call starts with its arguments and nothing else")
		sym.Assert(failed || r == interface{}(a), "every call starts with its arguments and nothing else")
	}
	sym.Reach("called")
}
