package props

import (
	"errors"
	"math"
	"math/big"
	mc "math/cmplx"

	"verif/sym"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/cmplx"
	"github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/number"
	"github.com/qiniu/text/tpl/rat"
)

// ---- expressions: generated from a tree with the usual precedence ----

type ex struct {
	op   byte // x leaf, + - * / %, n neg, p plus, f call
	i    int
	kids []*ex
}

type exgen struct {
	left, leafs int
	ops         string
	tight       bool
}

func (g *exgen) gen() *ex {
	if g.left > 0 {
		c := sym.Choice("op", len(g.ops)+1)
		if c > 0 {
			g.left--
			x := &ex{op: g.ops[c-1]}
			n := 2
			if x.op == 'n' || x.op == 'p' {
				n = 1
			}
			for i := 0; i < n; i++ {
				x.kids = append(x.kids, g.gen())
			}
			return x
		}
	}
	g.leafs++
	return &ex{op: 'x', i: g.leafs - 1}
}

func exLevel(op byte) int {
	switch op {
	case '+', '-':
		return 0
	case '*', '/', '%':
		return 1
	}
	return 2
}

// text renders x with as few parentheses as the usual precedence allows
func (g *exgen) text(x *ex, lvl int) string {
	switch x.op {
	case 'x':
		return "x" + string(rune('0'+x.i)) + "()"
	case 'f':
		return "g(" + g.text(x.kids[0], 0) + ", " + g.text(x.kids[1], 0) + ")"
	case 'n', 'p':
		op := "-"
		if x.op == 'p' {
			op = "+"
		}
		t := g.text(x.kids[0], 2)
		if t[0] == op[0] {
			op += " "
		}
		return op + t
	}
	own := exLevel(x.op)
	a, b := g.text(x.kids[0], own), g.text(x.kids[1], own+1)
	sp := " "
	if g.tight && b[0] != x.op {
		sp = ""
	}
	s := a + sp + string(rune(x.op)) + sp + b
	if own < lvl {
		return "(" + s + ")"
	}
	return s
}

// attempt runs f; the panic value of f, if it is an error or a text, is its result
func attempt(f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(interface{ RuntimeError() }); ok {
				panic(e)
			}
			switch x := e.(type) {
			case error:
				err = x
			case string:
				err = errors.New(x)
			default:
				panic(e)
			}
		}
	}()
	return f()
}

// ---- K01: float expressions ----

func evalF(x *ex, v []float64) float64 {
	var a, b float64
	if len(x.kids) > 0 {
		a = evalF(x.kids[0], v)
	}
	if len(x.kids) > 1 {
		b = evalF(x.kids[1], v)
	}
	switch x.op {
	case 'x':
		return v[x.i]
	case '+':
		return a + b
	case '-':
		return a - b
	case '*':
		return a * b
	case '/':
		return a / b
	case '%':
		return math.Mod(a, b)
	case 'n':
		return -a
	case 'f':
		return a - 3*b
	}
	return a
}

func floats(n int) []float64 {
	var v []float64
	for i := 0; i < n; i++ {
		v = append(v, sym.Float64("x"+string(rune('0'+i))))
	}
	return v
}

func numberEngine(v []float64) (*number.Calculator, *interpreter.Engine) {
	for i := range v {
		f := v[i]
		number.Fntable["x"+string(rune('0'+i))] = func() float64 { return f }
	}
	number.Fntable["g"] = func(a, b float64) float64 { return a - 3*b }
	c := number.New()
	e, err := interpreter.New(c, nil)
	sym.Assert(err == nil, "the grammar of the calculator compiles")
	return c, e
}

func calcOps() int { return sym.Bound("operators", 3) }

func K01_expr() {
	g := &exgen{left: calcOps(), ops: "+-*/%npf", tight: sym.Choice("tight", 2) == 1}
	x := g.gen()
	v := floats(g.leafs)
	c, e := numberEngine(v)
	err := attempt(func() error { return e.Eval(g.text(x, 0)) })
	sym.Assert(err == nil, "a well-formed expression is evaluated")
	r, ok := c.Ret()
	sym.Assert(ok, "an expression has a value")
	sym.Assert(sym.Same(r, evalF(x, v)), "the value is that of the usual precedence and association")
	_, ok = c.Ret()
	sym.Assert(!ok, "an expression has one value")
	sym.Reach("value")
}

// chains of one level
func K01_chain() {
	ops := [][]byte{[]byte("+-"), []byte("*/%")}[sym.Choice("level", 2)]
	g := &exgen{}
	x := g.gen()
	for i := 0; i < 3; i++ {
		x = &ex{op: ops[sym.Choice("op", len(ops))], kids: []*ex{x, g.gen()}}
	}
	v := floats(g.leafs)
	c, e := numberEngine(v)
	sym.Assert(attempt(func() error { return e.Eval(g.text(x, 0)) }) == nil, "a well-formed expression is evaluated")
	r, _ := c.Ret()
	sym.Assert(sym.Same(r, evalF(x, v)), "operators of one level associate to the left")
	sym.Reach("value")
}

// literals and constants
func K01_literal() {
	digits := func(name string, max int) []byte {
		n := 1 + sym.Choice(name+" len", max)
		b := sym.Bytes(name, n)
		for _, c := range b {
			sym.Assume('0' <= c && c <= '9')
		}
		return b
	}
	c, e := numberEngine(nil)
	var src []byte
	want := 0.0
	switch sym.Choice("form", 4) {
	case 0: // decimal
		b := digits("int", sym.Bound("digits", 3+2*sym.Tier()))
		sym.Assume(b[0] != '0')
		src = b
		m := 0
		for _, c := range b {
			m = m*10 + int(c-'0')
		}
		want = float64(m)
	case 1: // octal
		b := digits("oct", 3)
		for _, c := range b {
			sym.Assume(c < '8')
		}
		src = cat([]byte("0"), b)
		m := 0
		for _, c := range b {
			m = m*8 + int(c-'0')
		}
		want = float64(m)
	case 2: // fraction
		a, b := digits("whole", 2), digits("frac", 2)
		src = cat(a, []byte("."), b)
		m, k := 0, 1
		for _, c := range cat(a, b) {
			m = m*10 + int(c-'0')
		}
		for range b {
			k *= 10
		}
		want = float64(m) / float64(k)
	case 3:
		names := []string{"e", "pi", "phi", "Inf", "NaN", "tau"}
		vals := []float64{math.E, math.Pi, math.Phi, math.Inf(1), math.NaN(), 0}
		i := sym.Choice("name", 6)
		src, want = []byte(names[i]), vals[i]
		if i == 5 {
			sym.Assert(attempt(func() error { return e.Eval("1+tau") }) != nil, "an unknown name is reported")
			sym.Reach("unknown")
			return
		}
	}
	err := attempt(func() error { return e.Eval(string(src)) })
	sym.Assert(err == nil, "a literal is evaluated")
	r, ok := c.Ret()
	sym.Assert(ok && sym.Same(r, want), "a literal has its value")
	sym.Reach("literal")
}

// ---- K02: functions by name ----

var float1 = []struct {
	name string
	f    func(float64) float64
}{
	{"abs", math.Abs}, {"acos", math.Acos}, {"acosh", math.Acosh}, {"asin", math.Asin}, {"asinh", math.Asinh}, {"atan", math.Atan}, {"atanh", math.Atanh},
	{"cbrt", math.Cbrt}, {"ceil", math.Ceil}, {"cos", math.Cos}, {"cosh", math.Cosh}, {"erf", math.Erf}, {"erfc", math.Erfc}, {"exp", math.Exp}, {"exp2", math.Exp2},
	{"expm1", math.Expm1}, {"floor", math.Floor}, {"gamma", math.Gamma}, {"j0", math.J0}, {"j1", math.J1}, {"ln", math.Log}, {"log", math.Log}, {"log10", math.Log10},
	{"log1p", math.Log1p}, {"log2", math.Log2}, {"logb", math.Logb}, {"sin", math.Sin}, {"sinh", math.Sinh}, {"sqrt", math.Sqrt}, {"tan", math.Tan}, {"tanh", math.Tanh},
	{"trunc", math.Trunc}, {"y0", math.Y0}, {"y1", math.Y1},
}
var float2 = []struct {
	name string
	f    func(a, b float64) float64
}{
	{"atan2", math.Atan2}, {"copysign", math.Copysign}, {"dim", math.Dim}, {"hypot", math.Hypot}, {"mod", math.Mod}, {"nextafter", math.Nextafter}, {"pow", math.Pow}, {"remainder", math.Remainder},
}

func K02_unary() {
	f := float1[sym.Choice("f", len(float1))]
	v := floats(1)
	c, e := numberEngine(v)
	sym.Assert(attempt(func() error { return e.Eval(f.name + "(x0())") }) == nil, "a documented function can be called")
	r, ok := c.Ret()
	sym.Assert(ok && sym.Same(r, f.f(v[0])), "a function computes what its name says")
	sym.Reach("value")
}
func K02_binary() {
	f := float2[sym.Choice("f", len(float2))]
	v := floats(2)
	c, e := numberEngine(v)
	sym.Assert(attempt(func() error { return e.Eval(f.name + "(x0(), x1())") }) == nil, "a documented function can be called")
	r, ok := c.Ret()
	sym.Assert(ok && sym.Same(r, f.f(v[0], v[1])), "a function gets its arguments in order")
	sym.Reach("value")
}
func K02_minmax() {
	n := sym.Choice("n", 1+sym.Bound("arguments", 3))
	v := floats(n)
	args := ""
	for i := range v {
		sym.Assume(!math.IsNaN(v[i]))
		if i > 0 {
			args += ", "
		}
		args += "x" + string(rune('0'+i)) + "()"
	}
	isMax := sym.Choice("max", 2) == 1
	name := "min"
	if isMax {
		name = "max"
	}
	c, e := numberEngine(v)
	sym.Assert(attempt(func() error { return e.Eval(name + "(" + args + ")") }) == nil, "min and max take any number of arguments")
	r, ok := c.Ret()
	sym.Assert(ok, "min and max have a value")
	if n == 0 {
		sym.Assert(r == 0, "min and max of nothing are 0")
		return
	}
	is := false
	for _, x := range v {
		is = sym.Or(is, r == x)
		if isMax {
			sym.Assert(r >= x, "max is not smaller than any argument")
		} else {
			sym.Assert(r <= x, "min is not greater than any argument")
		}
	}
	sym.Assert(is, "min and max are one of the arguments")
	sym.Reach("value")
}
func K02_sign() {
	v := floats(1)
	c, e := numberEngine(v)
	switch sym.Choice("f", 4) {
	case 0:
		sym.Assume(!math.IsNaN(v[0]))
		sym.Assert(attempt(func() error { return e.Eval("inf(x0())") }) == nil, "inf can be called")
		r, _ := c.Ret()
		sym.Assert(sym.Same(r, math.Inf(1)) == (v[0] >= 0) && sym.Same(r, math.Inf(-1)) == (v[0] < 0), "inf has the sign of its argument")
	case 1:
		sym.Assert(attempt(func() error { return e.Eval("NaN()") }) == nil, "NaN can be called")
		r, _ := c.Ret()
		sym.Assert(sym.Same(r, math.NaN()), "NaN is not a number")
	case 2:
		k := sym.Choice("k", 4)
		f := []string{"jn", "yn"}[sym.Choice("jy", 2)]
		sym.Assert(attempt(func() error { return e.Eval(f + "(" + string(rune('0'+k)) + ", x0())") }) == nil, "jn and yn can be called")
		r, _ := c.Ret()
		want := math.Jn(k, v[0])
		if f == "yn" {
			want = math.Yn(k, v[0])
		}
		sym.Assert(sym.Same(r, want), "jn and yn get order and argument")
	case 3:
		k := sym.Choice("k", 4)
		sym.Assert(attempt(func() error { return e.Eval("ldexp(x0(), " + string(rune('0'+k)) + ")") }) == nil, "ldexp can be called")
		r, _ := c.Ret()
		sym.Assert(sym.Same(r, math.Ldexp(v[0], k)), "ldexp gets fraction and exponent")
		sym.Assert(attempt(func() error { return e.Eval("pow10(" + string(rune('0'+k)) + ")") }) == nil, "pow10 can be called")
		r, _ = c.Ret()
		sym.Assert(r == math.Pow10(k), "pow10 is a power of ten")
	}
	sym.Reach("value")
}

// a call with the wrong number of arguments or an unknown name is reported and leaves the calculator usable
func K02_calls() {
	type fn struct {
		name string
		n    int
	}
	fs := []fn{{"x0", 0}, {"sqrt", 1}, {"pow", 2}, {"g", 2}, {"nope", -2}, {"max", -1}, {"sin", 1}, {"NaN", 0}}
	f := fs[sym.Choice("f", len(fs))]
	n := sym.Choice("args", 4)
	v := floats(1)
	c, e := numberEngine(v)
	args := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			args += ","
		}
		args += "1"
	}
	pre := []string{"", "x0() + ", "2*"}[sym.Choice("before", 3)]
	err := attempt(func() error { return e.Eval(pre + f.name + "(" + args + ")") })
	sym.Assert((err == nil) == (f.n == -1 || f.n == n), "a call succeeds exactly when the number of arguments is right")
	if err != nil {
		_, ok := err.(*interpreter.RuntimeError)
		sym.Assert(ok, "a failed call is reported as a runtime error")
		sym.Reach("error")
	} else {
		sym.Reach("call")
		c.Ret()
	}
	sym.Assert(attempt(func() error { return e.Eval("x0()") }) == nil, "the calculator can be used after an error")
	r, ok := c.Ret()
	sym.Assert(ok && sym.Same(r, v[0]), "a later expression is not disturbed by an error")
	_, ok = c.Ret()
	sym.Assert(!ok, "an expression has one value")
}

// malformed expressions are rejected and do not disturb later ones
func K02_malformed() {
	b := alpha("src", sym.Choice("len", 1+sym.Bound("bytes", 4+sym.Tier())), "1+-*()g,")
	v := floats(1)
	c, e := numberEngine(v)
	err := attempt(func() error { return e.Eval(string(b)) })
	good := wellFormed(b)
	sym.Assert(good == (err == nil), "exactly the well-formed expressions are evaluated")
	if err == nil {
		sym.Reach("value")
		_, ok := c.Ret()
		sym.Assert(ok, "an expression has a value")
	} else {
		sym.Reach("error")
	}
	sym.Assert(attempt(func() error { return e.Eval("x0()*2") }) == nil, "the calculator can be used after an error")
	r, ok := c.Ret()
	sym.Assert(ok && sym.Same(r, v[0]*2), "a later expression is not disturbed by an error")
}

// wellFormed is a reference recogniser for expressions over 1 + - * ( ) , and g(a, b)
func wellFormed(b []byte) bool {
	toks, terr := (&tpl.Matcher{}).Tokenize(b, "")
	if terr != nil {
		return false
	}
	i := 0
	var sum func() bool
	at := func(k uint) bool {
		if i < len(toks) && toks[i].Kind == k {
			i++
			return true
		}
		return false
	}
	var factor func() bool
	factor = func() bool {
		switch {
		case at(tpl.INT):
			return true
		case at('-'), at('+'):
			return factor()
		case at('('):
			return sum() && at(')')
		case i < len(toks) && toks[i].Kind == tpl.IDENT:
			if toks[i].Literal != "g" {
				return false
			}
			i++
			return at('(') && sum() && at(',') && sum() && at(')')
		}
		return false
	}
	sum = func() bool {
		for {
			if !factor() {
				return false
			}
			if !at('+') && !at('-') && !at('*') {
				return true
			}
		}
	}
	return sum() && i == len(toks)
}

// ---- K03: rational expressions ----

func evalR(x *ex, v []*big.Rat) *big.Rat {
	r := new(big.Rat)
	switch x.op {
	case 'x':
		return v[x.i]
	case 'n':
		return r.Neg(evalR(x.kids[0], v))
	case 'p':
		return evalR(x.kids[0], v)
	}
	a := evalR(x.kids[0], v)
	b := evalR(x.kids[1], v)
	if a == nil || b == nil {
		return nil
	}
	switch x.op {
	case '+':
		return r.Add(a, b)
	case '-':
		return r.Sub(a, b)
	case '*':
		return r.Mul(a, b)
	case '/':
		if b.Sign() == 0 {
			return nil
		}
		return r.Quo(a, b)
	}
	return r.Sub(a, new(big.Rat).Mul(big.NewRat(3, 1), b))
}

func ratEngine(v []*big.Rat) (*rat.Calculator, *interpreter.Engine) {
	for i := range v {
		f := v[i]
		rat.Fntable["x"+string(rune('0'+i))] = func() *big.Rat { return f }
	}
	rat.Fntable["g"] = func(a, b *big.Rat) *big.Rat {
		return new(big.Rat).Sub(a, new(big.Rat).Mul(big.NewRat(3, 1), b))
	}
	c := rat.New()
	e, err := interpreter.New(c, nil)
	sym.Assert(err == nil, "the grammar of the calculator compiles")
	return c, e
}

func rats(n int) []*big.Rat {
	var v []*big.Rat
	for i := 0; i < n; i++ {
		v = append(v, sym.Rat("x"+string(rune('0'+i))))
	}
	return v
}

func K03_expr() {
	g := &exgen{left: calcOps(), ops: "+-*/npf"}
	x := g.gen()
	v := rats(g.leafs)
	c, e := ratEngine(v)
	var want *big.Rat
	var keep []*big.Rat
	for _, r := range v {
		keep = append(keep, new(big.Rat).Set(r))
	}
	fails := false
	func() {
		defer func() {
			if recover() != nil {
				fails = true
			}
		}()
		want = evalR(x, v)
		fails = want == nil
	}()
	err := attempt(func() error { return e.Eval(g.text(x, 0)) })
	sym.Assert((err == nil) == !fails, "only a division by zero fails")
	if err == nil {
		r, ok := c.Ret()
		sym.Assert(ok && sym.RatEq(r, want), "the value is exact")
		sym.Reach("value")
	} else {
		sym.Reach("division by zero")
	}
	// the operands are not changed
	for i := range v {
		sym.Assert(sym.RatEq(keep[i], v[i]), "operands keep their value")
	}
}

func K03_func() {
	v := rats(2)
	keep := []*big.Rat{new(big.Rat).Set(v[0]), new(big.Rat).Set(v[1])}
	c, e := ratEngine(v)
	k := sym.Choice("f", 6)
	src := []string{"abs(x0())", "inv(x0())", "max(x0(),x1())", "min(x0(),x1())", "-x0()", "max()"}[k]
	zero := new(big.Rat)
	if k == 1 {
		sym.Assume(v[0].Sign() != 0)
	}
	sym.Assert(attempt(func() error { return e.Eval(src) }) == nil, "a documented function can be called")
	r, ok := c.Ret()
	sym.Assert(ok, "a function has a value")
	switch k {
	case 0:
		sym.Assert(r.Cmp(zero) >= 0 && (sym.RatEq(r, v[0]) || sym.RatEq(r, new(big.Rat).Neg(v[0]))), "abs is the absolute value")
	case 1:
		sym.Assert(sym.RatEq(new(big.Rat).Mul(r, v[0]), big.NewRat(1, 1)), "inv is the inverse")
	case 2:
		sym.Assert(r.Cmp(v[0]) >= 0 && r.Cmp(v[1]) >= 0 && (sym.RatEq(r, v[0]) || sym.RatEq(r, v[1])), "max is the greater argument")
	case 3:
		sym.Assert(r.Cmp(v[0]) <= 0 && r.Cmp(v[1]) <= 0 && (sym.RatEq(r, v[0]) || sym.RatEq(r, v[1])), "min is the smaller argument")
	case 4:
		sym.Assert(sym.RatEq(new(big.Rat).Add(r, v[0]), zero), "negation")
	case 5:
		sym.Assert(r.Sign() == 0, "max of nothing is 0")
	}
	sym.Assert(sym.RatEq(v[0], keep[0]) && sym.RatEq(v[1], keep[1]), "operands keep their value")
	sym.Reach("value")
}

func K03_literal() {
	n := 1 + sym.Choice("len", sym.Bound("digits", 3+sym.Tier()))
	b := sym.Bytes("d", n)
	for _, c := range b {
		sym.Assume('0' <= c && c <= '9')
	}
	base := 10
	if b[0] == '0' {
		base = 8
		for _, c := range b {
			sym.Assume(c < '8')
		}
	}
	want := 0
	for _, c := range b {
		want = want*base + int(c-'0')
	}
	c, e := ratEngine(nil)
	sym.Assert(attempt(func() error { return e.Eval(string(b) + "/1") }) == nil, "a literal is evaluated")
	r, ok := c.Ret()
	sym.Assert(ok && sym.RatEq(r, big.NewRat(int64(want), 1)), "a literal has its value")
	sym.Reach("literal")
}

func K03_big() {
	// beyond 64 bits
	src := []string{"18446744073709551616 - 18446744073709551615", "1/3 + 1/6", "340282366920938463463374607431768211456/18446744073709551616/18446744073709551616", "0x10/16", "denom(1/3)/3", "num(2/4)"}
	want := []*big.Rat{big.NewRat(1, 1), big.NewRat(1, 2), big.NewRat(1, 1), big.NewRat(1, 1), big.NewRat(1, 1), big.NewRat(1, 1)}
	k := sym.Choice("src", len(src))
	c, e := ratEngine(nil)
	sym.Assert(attempt(func() error { return e.Eval(src[k]) }) == nil, "an expression is evaluated")
	r, ok := c.Ret()
	sym.Assert(ok && r.Cmp(want[k]) == 0, "the value is exact")
	sym.Reach("value")
}

// ---- K04: complex expressions ----

func evalC(x *ex, v []complex128) complex128 {
	var a, b complex128
	if len(x.kids) > 0 {
		a = evalC(x.kids[0], v)
	}
	if len(x.kids) > 1 {
		b = evalC(x.kids[1], v)
	}
	switch x.op {
	case 'x':
		return v[x.i]
	case '+':
		return a + b
	case '-':
		return a - b
	case '*':
		return a * b
	case '/':
		return a / b
	case 'n':
		return -a
	case 'f':
		return a - 3*b
	}
	return a
}

func complexes(n int) []complex128 {
	var v []complex128
	for i := 0; i < n; i++ {
		v = append(v, complex(sym.Float64("re"+string(rune('0'+i))), sym.Float64("im"+string(rune('0'+i)))))
	}
	return v
}

func cmplxEngine(v []complex128) (*cmplx.Calculator, *interpreter.Engine) {
	for i := range v {
		f := v[i]
		cmplx.Fntable["x"+string(rune('0'+i))] = func() complex128 { return f }
	}
	cmplx.Fntable["g"] = func(a, b complex128) complex128 { return a - 3*b }
	c := cmplx.New()
	e, err := interpreter.New(c, nil)
	sym.Assert(err == nil, "the grammar of the calculator compiles")
	return c, e
}

func K04_expr() {
	g := &exgen{left: calcOps(), ops: "+-*npf"}
	x := g.gen()
	v := complexes(g.leafs)
	c, e := cmplxEngine(v)
	sym.Assert(attempt(func() error { return e.Eval(g.text(x, 0)) }) == nil, "a well-formed expression is evaluated")
	r, ok := c.Ret()
	sym.Assert(ok && sym.Same(r, evalC(x, v)), "the value is that of the usual precedence and association")
	sym.Reach("value")
}

func K04_parts() {
	v := complexes(2)
	c, e := cmplxEngine(v)
	re0, im0 := complex(real(v[0]), 0), complex(imag(v[0]), 0)
	k := sym.Choice("f", 9)
	src := []string{"real(x0())", "imag(x0())", "complex(real(x0()), real(x1()))", "-x0()", "real(x0()) + imag(x0())", "complex(x0(), 1)", "complex(1, x0())", "rect(x0(), 1)", "rect(1, x0())"}[k]
	err := attempt(func() error { return e.Eval(src) })
	if k >= 5 {
		sym.Assert((err == nil) == (imag(v[0]) == 0), "the parts of a complex number have to be real")
		sym.Reach("part")
		return
	}
	sym.Assert(err == nil, "a documented function can be called")
	r, _ := c.Ret()
	want := []complex128{re0, im0, complex(real(v[0]), real(v[1])), -v[0], re0 + im0}[k]
	sym.Assert(sym.Same(r, want), "a function computes what its name says")
	sym.Reach("value")
}

var cmplx1 = []struct {
	name string
	f    func(complex128) complex128
}{
	{"acos", mc.Acos}, {"acosh", mc.Acosh}, {"asin", mc.Asin}, {"asinh", mc.Asinh}, {"atan", mc.Atan}, {"atanh", mc.Atanh}, {"conj", mc.Conj}, {"cos", mc.Cos}, {"cosh", mc.Cosh},
	{"cot", mc.Cot}, {"exp", mc.Exp}, {"log", mc.Log}, {"log10", mc.Log10}, {"sin", mc.Sin}, {"sinh", mc.Sinh}, {"sqrt", mc.Sqrt}, {"tan", mc.Tan}, {"tanh", mc.Tanh},
	{"abs", func(z complex128) complex128 { return complex(mc.Abs(z), 0) }}, {"phase", func(z complex128) complex128 { return complex(mc.Phase(z), 0) }},
}

func K04_func() {
	f := cmplx1[sym.Choice("f", len(cmplx1))]
	v := complexes(1)
	c, e := cmplxEngine(v)
	sym.Assert(attempt(func() error { return e.Eval(f.name + "(x0())") }) == nil, "a documented function can be called")
	r, ok := c.Ret()
	sym.Assert(ok && sym.Same(r, f.f(v[0])), "a function computes what its name says")
	sym.Reach("value")
}

func K04_literal() {
	n := 1 + sym.Choice("len", 2)
	b := sym.Bytes("d", n)
	for _, c := range b {
		sym.Assume('1' <= c && c <= '9')
	}
	m := 0
	for _, c := range b {
		m = m*10 + int(c-'0')
	}
	c, e := cmplxEngine(nil)
	form := sym.Choice("form", 3)
	src := []string{string(b) + "i", string(b), string(b) + "+" + string(b) + "i"}[form]
	sym.Assert(attempt(func() error { return e.Eval(src) }) == nil, "a literal is evaluated")
	f := float64(m)
	want := []complex128{complex(0, f), complex(f, 0), complex(f, f)}[form]
	r, ok := c.Ret()
	sym.Assert(ok && sym.Same(r, want), "a literal has its value")
	sym.Reach("literal")
}

// ---- calls and malformed text of the rational and the complex calculator ----

// callsOf calls a function by name with some number of arguments: it fails exactly
// when the function is unknown or the number of arguments is wrong
func callsOf(eval func(string) error) (ok bool) {
	type fn struct {
		name     string
		min, max int
	}
	fs := []fn{{"x0", 0, 0}, {"one", 1, 1}, {"g", 2, 2}, {"nope", 9, 0}, {"many", 1, 9}, {"any", 0, 9}}
	f := fs[sym.Choice("f", len(fs))]
	n := sym.Choice("args", 4)
	args := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			args += ","
		}
		args += []string{"x0()", "one(x0())"}[i&1]
	}
	pre := []string{"", "x0() + ", "- ", "one("}[sym.Choice("before", 4)]
	src := pre + f.name + "(" + args + ")"
	if pre == "one(" {
		src += ")"
	}
	err := attempt(func() error { return eval(src) })
	sym.Assert((err == nil) == (f.min <= n && n <= f.max), "a call succeeds exactly when the number of arguments is right")
	if err != nil {
		_, ok := err.(*interpreter.RuntimeError)
		sym.Assert(ok, "a failed call is reported as a runtime error")
		sym.Reach("error")
		return false
	}
	sym.Reach("call")
	return true
}

func K03_calls() {
	v := rats(1)
	rat.Fntable["one"] = func(a *big.Rat) *big.Rat { return a }
	rat.Fntable["many"] = func(a *big.Rat, b ...*big.Rat) *big.Rat { return a }
	rat.Fntable["any"] = func(b ...*big.Rat) *big.Rat { return big.NewRat(int64(len(b)), 1) }
	c, e := ratEngine(v)
	if callsOf(func(s string) error { return e.Eval(s) }) {
		_, ok := c.Ret()
		sym.Assert(ok, "a call has a value")
	}
	sym.Assert(attempt(func() error { return e.Eval("x0()") }) == nil, "the calculator can be used after an error")
	r, ok := c.Ret()
	sym.Assert(ok && sym.RatEq(r, v[0]), "a later expression is not disturbed by an error")
	_, ok = c.Ret()
	sym.Assert(!ok, "an expression has one value")
}

func K04_calls() {
	v := complexes(1)
	cmplx.Fntable["one"] = func(a complex128) complex128 { return a }
	cmplx.Fntable["many"] = func(a complex128, b ...complex128) complex128 { return a }
	cmplx.Fntable["any"] = func(b ...complex128) complex128 { return complex(float64(len(b)), 0) }
	c, e := cmplxEngine(v)
	if callsOf(func(s string) error { return e.Eval(s) }) {
		_, ok := c.Ret()
		sym.Assert(ok, "a call has a value")
	}
	sym.Assert(attempt(func() error { return e.Eval("x0()") }) == nil, "the calculator can be used after an error")
	r, ok := c.Ret()
	sym.Assert(ok && sym.Same(r, v[0]), "a later expression is not disturbed by an error")
	_, ok = c.Ret()
	sym.Assert(!ok, "an expression has one value")
}

// recExpr is a reference recogniser for expressions of the calculators
func recExpr(b []byte, leaf func(t tpl.Token) bool) bool {
	toks, err := (&tpl.Matcher{}).Tokenize(b, "")
	if err != nil {
		return false
	}
	i := 0
	at := func(k uint) bool {
		if i < len(toks) && toks[i].Kind == k {
			i++
			return true
		}
		return false
	}
	var sum, factor func() bool
	factor = func() bool {
		switch {
		case at('-'), at('+'):
			return factor()
		case at('('):
			return sum() && at(')')
		case i < len(toks) && toks[i].Kind == tpl.IDENT:
			if toks[i].Literal != "g" {
				return false
			}
			i++
			return at('(') && sum() && at(',') && sum() && at(')')
		case i < len(toks) && leaf(toks[i]):
			i++
			return true
		}
		return false
	}
	sum = func() bool {
		for {
			if !factor() {
				return false
			}
			if !at('+') && !at('-') && !at('*') {
				return true
			}
		}
	}
	return sum() && i == len(toks)
}

func K03_malformed() {
	b := alpha("src", sym.Choice("len", 1+sym.Bound("bytes", 4+sym.Tier())), "1+-*()g,.i")
	v := rats(1)
	c, e := ratEngine(v)
	err := attempt(func() error { return e.Eval(string(b)) })
	good := recExpr(b, func(t tpl.Token) bool { return t.Kind == tpl.INT })
	sym.Assert(good == (err == nil), "exactly the well-formed expressions are evaluated")
	if err == nil {
		sym.Reach("value")
		_, ok := c.Ret()
		sym.Assert(ok, "an expression has a value")
	} else {
		sym.Reach("error")
	}
	sym.Assert(attempt(func() error { return e.Eval("x0()*2") }) == nil, "the calculator can be used after an error")
	r, ok := c.Ret()
	sym.Assert(ok && sym.RatEq(r, new(big.Rat).Mul(v[0], big.NewRat(2, 1))), "a later expression is not disturbed by an error")
}

func K04_malformed() {
	b := alpha("src", sym.Choice("len", 1+sym.Bound("bytes", 4+sym.Tier())), "1+-*()g,.i")
	v := complexes(1)
	c, e := cmplxEngine(v)
	err := attempt(func() error { return e.Eval(string(b)) })
	good := recExpr(b, func(t tpl.Token) bool { return t.Kind == tpl.INT || t.Kind == tpl.FLOAT || t.Kind == tpl.IMAG })
	sym.Assert(good == (err == nil), "exactly the well-formed expressions are evaluated")
	if err == nil {
		sym.Reach("value")
		_, ok := c.Ret()
		sym.Assert(ok, "an expression has a value")
	} else {
		sym.Reach("error")
	}
	sym.Assert(attempt(func() error { return e.Eval("x0()+1") }) == nil, "the calculator can be used after an error")
	r, ok := c.Ret()
	sym.Assert(ok && sym.Same(r, v[0]+1), "a later expression is not disturbed by an error")
}

// results of functions of the host

type calcPair struct{ A, B int }

// hostFn is a function of the host with a result of some kind; num is its value, if
// the calculator of floats can take it
func hostFn() (fn interface{}, num float64, kind string) {
	i := sym.Choice("result", 13)
	switch i {
	case 0:
		v := int64(sym.Int("v"))
		return func() int64 { return v }, float64(v), "real"
	case 1:
		v := uint64(sym.Int("v"))
		return func() uint64 { return v }, float64(v), "real"
	case 2:
		v := []float32{0, 1.5, -0.1}[sym.Choice("f32", 3)]
		return func() float32 { return v }, float64(v), "real"
	case 3:
		v := sym.Float64("v")
		return func() float64 { return v }, v, "real"
	case 4:
		v := int8(sym.Int("v"))
		return func() int8 { return v }, float64(int64(v)), "real"
	case 5:
		v := byte(sym.Int("v"))
		return func() byte { return v }, float64(uint64(v)), "real"
	case 6:
		v := sym.Int("v")
		return func() int { return v }, float64(v), "real"
	case 7:
		v := uintptr(sym.Int("v"))
		return func() uintptr { return v }, float64(v), "real"
	case 8:
		return func() complex128 { return complex(1, 2) }, 0, "complex"
	case 9:
		return func() *big.Rat { return big.NewRat(1, 2) }, 0, "rat"
	case 10:
		return func() string { return "1" }, 0, "other"
	case 11:
		return func() bool { return true }, 0, "other"
	}
	return func() calcPair { return calcPair{1, 2} }, 0, "other"
}

func hostErr(err error, good bool) bool {
	sym.Assert((err == nil) == good, "a function of the host succeeds exactly when its result is a number of the calculator")
	if err != nil {
		_, ok := err.(*interpreter.RuntimeError)
		sym.Assert(ok, "a failed call is reported as a runtime error")
		sym.Reach("error")
		return false
	}
	sym.Reach("value")
	return true
}

func K02_host() {
	fn, want, kind := hostFn()
	v := floats(1)
	number.Fntable["h"] = fn
	c, e := numberEngine(v)
	if hostErr(attempt(func() error { return e.Eval("h() + 1") }), kind == "real") {
		r, ok := c.Ret()
		sym.Assert(ok && sym.Same(r, want+1), "the result of a function of the host has its value")
	}
	sym.Assert(attempt(func() error { return e.Eval("x0()") }) == nil, "the calculator can be used after an error")
	r, ok := c.Ret()
	sym.Assert(ok && sym.Same(r, v[0]), "a later expression is not disturbed by an error")
}

func K03_host() {
	fn, _, kind := hostFn()
	v := rats(1)
	rat.Fntable["h"] = fn
	c, e := ratEngine(v)
	if hostErr(attempt(func() error { return e.Eval("h() + 1") }), kind == "rat") {
		r, ok := c.Ret()
		sym.Assert(ok && sym.RatEq(r, big.NewRat(3, 2)), "the result of a function of the host has its value")
	}
	sym.Assert(attempt(func() error { return e.Eval("x0()") }) == nil, "the calculator can be used after an error")
	r, ok := c.Ret()
	sym.Assert(ok && sym.RatEq(r, v[0]), "a later expression is not disturbed by an error")
}

func K04_host() {
	fn, want, kind := hostFn()
	v := complexes(1)
	cmplx.Fntable["h"] = fn
	c, e := cmplxEngine(v)
	if hostErr(attempt(func() error { return e.Eval("h() + 1") }), kind == "real" || kind == "complex") {
		r, ok := c.Ret()
		w := complex(want, 0)
		if kind == "complex" {
			w = complex(1, 2)
		}
		sym.Assert(ok && sym.Same(r, w+1), "the result of a function of the host has its value")
	}
	sym.Assert(attempt(func() error { return e.Eval("x0()") }) == nil, "the calculator can be used after an error")
	r, ok := c.Ret()
	sym.Assert(ok && sym.Same(r, v[0]), "a later expression is not disturbed by an error")
}

// functions of the host that take a mix of parameters
func K02_params() {
	v := floats(4)
	number.Fntable["mix"] = func(a float64, rest ...float64) float64 {
		for i, x := range rest {
			a = a*float64(i+2) + x
		}
		return a
	}
	number.Fntable["str"] = func(a float64, s string) float64 { return a }
	number.Fntable["strs"] = func(a float64, s ...string) float64 { return a }
	number.Fntable["itf"] = func(a, b interface{}) float64 { return a.(float64) - 2*b.(float64) }
	c, e := numberEngine(v)
	n := sym.Choice("n", 5)
	args := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			args += ", "
		}
		args += "x" + string(rune('0'+i)) + "()"
	}
	f := []string{"mix", "str", "strs", "itf"}[sym.Choice("f", 4)]
	err := attempt(func() error { return e.Eval(f + "(" + args + ")") })
	good := n >= 1
	switch f {
	case "str":
		good = false // an argument is never a string
	case "strs":
		good = n == 1
	case "itf":
		good = n == 2
	}
	if !hostErr(err, good) {
		return
	}
	want := v[0]
	switch f {
	case "mix":
		for i := 1; i < n; i++ {
			want = want*float64(i+1) + v[i]
		}
	case "itf":
		want = v[0] - 2*v[1]
	}
	r, ok := c.Ret()
	sym.Assert(ok && sym.Same(r, want), "a function of the host gets its arguments in order")
}

// literals in every form of the language
func numeral() (src []byte, want float64) {
	digits := func(name string, max int, hi byte) []byte {
		b := sym.Bytes(name, 1+sym.Choice(name+" len", max))
		for _, c := range b {
			sym.Assume('0' <= c && c <= hi)
		}
		return b
	}
	few := func(name string, max int) []byte { // digits of a few values
		b := make([]byte, 1+sym.Choice(name+" len", max))
		for i := range b {
			b[i] = "0189"[sym.Choice(name, 4)]
		}
		return b
	}
	val := func(b []byte, base int) float64 {
		m := 0
		for _, c := range b {
			m = m*base + int(c-'0')
		}
		return float64(m)
	}
	switch sym.Choice("form", 6) {
	case 0:
		b := digits("int", 3, '9')
		sym.Assume(b[0] != '0')
		return b, val(b, 10)
	case 1:
		b := digits("oct", 3, '7')
		return cat([]byte("0"), b), val(b, 8)
	case 2:
		b := digits("hex", 2, '9')
		m := 0
		for _, c := range b {
			m = m<<4 | int(c-'0')
		}
		return cat([]byte("0"), []byte{"xX"[sym.Choice("x", 2)]}, b, []byte("aF")), float64(m<<8 | 175)
	case 3:
		a, b := few("whole", 2), few("frac", 2)
		k := 1.0
		for range b {
			k *= 10
		}
		return cat(a, []byte("."), b), val(cat(a, b), 10) / k
	case 4:
		b := few("frac", 1)
		return cat([]byte("."), b), val(b, 10) / 10
	}
	b := few("mant", 2)
	i := sym.Choice("exp", 4)
	m := val(b, 10)
	return cat(b, []byte([]string{"e1", "E+2", "e-1", "e0"}[i])), []float64{m * 10, m * 100, m / 10, m}[i]
}

func K01_numeral() {
	src, want := numeral()
	c, e := numberEngine(nil)
	sym.Assert(attempt(func() error { return e.Eval(string(src)) }) == nil, "a literal is evaluated")
	r, ok := c.Ret()
	sym.Assert(ok && sym.Same(r, want), "a literal has its value")
	sym.Reach("literal")
}

func K04_numeral() {
	src, want := numeral()
	c, e := cmplxEngine(nil)
	if len(src) > 1 && src[0] != '0' && sym.Choice("imaginary", 2) == 1 || src[0] == '0' && len(src) > 1 && src[1] == '.' {
		sym.Assert(attempt(func() error { return e.Eval("0.1 + " + string(src) + "i") }) == nil, "a literal is evaluated")
		r, ok := c.Ret()
		sym.Assert(ok && sym.Same(r, complex(0.1, want)), "a literal has its value")
		sym.Reach("imaginary")
		return
	}
	sym.Assert(attempt(func() error { return e.Eval("0.1i + " + string(src)) }) == nil, "a literal is evaluated")
	r, ok := c.Ret()
	sym.Assert(ok && sym.Same(r, complex(want, 0.1)), "a literal has its value")
	sym.Reach("literal")
}
