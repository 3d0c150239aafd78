package props

import (
	"errors"
	"reflect"
	"strconv"
	"strings"

	"verif/sym"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/interpreter"
	util "github.com/qiniu/text/tpl/interpreter.util"
)

// ---- an interpreter that records what it is called with ----

type tstack struct {
	vals []interface{}
	fail bool
}

var errPush = errors.New("push")

func (p *tstack) PopArgs(arity int) (args []reflect.Value, ok bool) {
	n := len(p.vals) - arity
	if n < 0 {
		return nil, false
	}
	for _, v := range p.vals[n:] {
		args = append(args, reflect.ValueOf(v))
	}
	p.vals = p.vals[:n]
	return args, true
}

func (p *tstack) PushRet(ret []reflect.Value) error {
	if p.fail {
		return errPush
	}
	for _, v := range ret {
		p.vals = append(p.vals, v.Interface())
	}
	return nil
}

type icall struct {
	mark string
	recv interface{}
	arg  interface{}
	ctx  *util.Context
}

type tip struct {
	stk     *tstack
	grammar string
	fns     map[string]interface{}
	log     []icall
}

func (p *tip) Grammar() string                 { return p.grammar }
func (p *tip) Fntable() map[string]interface{} { return p.fns }
func (p *tip) Stack() util.Stack               { return p.stk }

func (p *tip) rec(mark string, recv, arg interface{}, ctx *util.Context) {
	p.log = append(p.log, icall{mark, recv, arg, ctx})
}

// every kind of function a mark can stand for
func newTip(grammar string) *tip {
	p := &tip{stk: &tstack{}, grammar: grammar}
	type S = *tstack
	type C = *util.Context
	p.fns = map[string]interface{}{
		"$none": func(s S) { p.rec("none", s, nil, nil) },
		"$str":  func(s S, v string) { p.rec("str", s, v, nil) },
		"$flo":  func(s S, v float64) { p.rec("flo", s, v, nil) },
		"$int":  func(s S, v int) { p.rec("int", s, v, nil) },
		"$lng":  func(s S, v int64) { p.rec("lng", s, v, nil) },
		"$tok":  func(s S, v interface{}) { p.rec("tok", s, v, nil) },
		"$eng":  func(s S, v util.Engine) { p.rec("eng", s, v, nil) },
		"$ctx":  func(s S, v C) { p.rec("ctx", s, nil, v) },
		"$Len":  func(s S, v int) { p.rec("Len", s, v, nil) },
		"$_Len": func(s S, v int) { p.rec("_Len", s, v, nil) },
		"$both": func(s S, v string, c C) { p.rec("both", s, v, c) },
		"$ipt":  func(i *tip, v string) { p.rec("ipt", i, v, nil) },
		"$ip1":  func(i *tip) { p.rec("ip1", i, nil, nil) },
		"$bad":  func(s S, v uint8) { p.rec("bad", s, v, nil) },
		"$Bad":  func(s S, v string) { p.rec("Bad", s, v, nil) },
		"$tok3": func(i *tip, v interface{}, c C) { p.rec("tok3", i, v, c) },
		"$Len3": func(i *tip, v int, c C) { p.rec("Len3", i, v, c) },
		"$N":    func(s S, v int) { p.rec("N", s, v, nil) },
		"$_Z9":  func(s S, v int) { p.rec("_Z9", s, v, nil) },
		"$aN_B": func(s S, v string) { p.rec("aN_B", s, v, nil) },
	}
	return p
}

var imarks = []string{"none", "str", "flo", "int", "lng", "tok", "eng", "ctx", "Len", "_Len", "both", "ipt", "ip1", "bad", "Bad", "tok3", "Len3", "N", "_Z9", "aN_B"}

// intLit is the value of an integer literal
func intLit(lit string) int {
	base, v := 10, 0
	if lit[0] == '0' {
		base = 8
	}
	for i := 0; i < len(lit); i++ {
		v = v*base + int(lit[i]-'0')
	}
	return v
}

func sameToks(x, y []tpl.Token) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i].Kind != y[i].Kind || x[i].Literal != y[i].Literal || x[i].Pos != y[i].Pos {
			return false
		}
	}
	return true
}

// I01: what a mark calls its function with
func I01_args() {
	mark := imarks[sym.Choice("mark", len(imarks))]
	g := []string{"IDENT", "INT", "(IDENT | INT)", "*IDENT", "?INT", "(IDENT % ',')", "(INT %= ',')", "(IDENT INT)", "@IDENT", "+INT", "~IDENT"}[sym.Choice("grammar", 11)]
	text := "doc = *(" + g + "/" + mark + " ';') *(IDENT | INT | ',')\n"
	src := alpha("src", sym.Choice("len", 1+sym.Bound("bytes", 3+sym.Tier())), "a1,;")
	// what is matched, from the grammar alone
	type m struct {
		toks []tpl.Token
		n    int
	}
	var ms []m
	cp := &tpl.Compiler{Grammar: []byte(text), Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
		return tpl.Action(g, func(ts []tpl.Token, g tpl.Grammar) { ms = append(ms, m{ts, g.Len()}) })
	}}
	ret, err := cp.Cl()
	sym.Assert(err == nil, "the grammar compiles")
	rerr := ret.MatchExactly(src, "")
	p := newTip(text)
	e, err := interpreter.New(p, nil)
	sym.Assert(err == nil, "the grammar compiles")
	err = attempt(func() error { return e.MatchExactly(src, "") })
	fail := len(ms)
	for i, m := range ms {
		lit := func() (string, bool) {
			if len(m.toks) == 0 {
				return "", false
			}
			return m.toks[0].Literal, true
		}
		bad := false
		switch mark {
		case "bad", "Bad":
			bad = true
		case "str", "both", "ipt", "aN_B":
			_, ok := lit()
			bad = !ok
		case "flo", "int", "lng":
			_, ok := lit()
			bad = !ok || m.toks[0].Kind != tpl.INT
		}
		if bad {
			fail = i
			break
		}
	}
	sym.Assert(len(p.log) == fail, "a mark calls its function once per match, in order, until one cannot be called")
	for i, c := range p.log {
		m := ms[i]
		var want interface{}
		switch mark {
		case "str", "both", "ipt", "aN_B":
			want = m.toks[0].Literal
		case "flo":
			want = float64(intLit(m.toks[0].Literal))
		case "int":
			want = intLit(m.toks[0].Literal)
		case "lng":
			want = int64(intLit(m.toks[0].Literal))
		case "Len", "_Len", "Len3", "N", "_Z9":
			want = m.n
		case "eng":
			want = util.Engine(e)
		}
		sym.Assert(c.mark == mark, "a mark calls the function of its name")
		if mark == "ipt" || mark == "ip1" || mark == "tok3" || mark == "Len3" {
			sym.Assert(c.recv == interface{}(p), "the receiver is the interpreter")
		} else {
			sym.Assert(c.recv == interface{}(p.stk), "the receiver is the stack")
		}
		if mark == "tok" || mark == "tok3" {
			if len(m.toks) == 0 {
				sym.Assert(c.arg == nil, "an empty match has no source")
			} else {
				ts, ok := c.arg.([]tpl.Token)
				sym.Assert(ok && sameToks(ts, m.toks), "the source is the tokens of the match")
				sym.Assert(string(e.Source(c.arg)) == string(tpl.Source(m.toks, ret.Scanner)), "the source text is that of the match")
			}
			sym.Reach("tokens")
		} else {
			sym.Assert(c.arg == want, "the argument is the value, the length or the engine, as the function asks for")
		}
		if mark == "ctx" || mark == "both" || mark == "tok3" || mark == "Len3" {
			ts, ok := c.ctx.Src.([]tpl.Token)
			sym.Assert(ok && sameToks(ts, m.toks) && c.ctx.Engine == util.Engine(e), "the context holds the tokens and the engine")
			if len(m.toks) > 0 {
				sym.Assert(c.ctx.Pos == m.toks[0].Pos && c.ctx.End == m.toks[len(m.toks)-1].End(), "the context spans the match")
			}
		}
		sym.Reach("call")
	}
	if fail < len(ms) {
		re, ok := err.(*interpreter.RuntimeError)
		sym.Assert(ok && sameToks(re.Src, ms[fail].toks), "a function that cannot be called is reported at the match")
		sym.Reach("cannot be called")
	} else {
		sym.Assert((err == nil) == (rerr == nil), "marks do not change what is matched")
	}
}

// plain functions take their arguments from the stack
func I01_plain() {
	p := newTip("doc = IDENT/a INT/b ?(CHAR/c)\n")
	k := sym.Choice("operands", 4)
	for i := 0; i < k; i++ {
		p.stk.vals = append(p.stk.vals, i+1)
	}
	var got []int
	p.fns["$a"] = func(x int) int { got = append(got, x); return x * 10 }
	p.fns["$b"] = func(x, y int) (int, int) { got = append(got, x, y); return y, x }
	p.fns["$c"] = func(x, y, z int) { got = append(got, x, y, z) }
	e, err := interpreter.New(p, nil)
	sym.Assert(err == nil, "the grammar compiles")
	src := []string{"a 1", "a 1 'x'"}[sym.Choice("src", 2)]
	err = attempt(func() error { return e.Eval(src) })
	want := []int{}
	left := k
	if k >= 1 {
		want = append(want, k)
	}
	if k >= 2 {
		want = append(want, k-1, k*10)
		if src != "a 1" {
			if k >= 3 {
				want = append(want, 1, k*10, k-1)
				left = 0
			}
		}
	}
	ok := k >= 2 && (src == "a 1" || k >= 3)
	sym.Assert((err == nil) == ok, "a function without enough operands is reported")
	sym.Assert(len(got) == len(want), "functions get their operands from the stack, in order")
	for i := range want {
		sym.Assert(got[i] == want[i], "functions get their operands from the stack, in order")
	}
	if err == nil {
		sym.Assert(len(p.stk.vals) == left, "results go back to the stack")
		if left > 0 {
			sym.Assert(p.stk.vals[left-2] == interface{}(k*10) && p.stk.vals[left-1] == interface{}(k-1), "results go back to the stack, in order")
		}
		sym.Reach("called")
	} else {
		_, is := err.(*interpreter.RuntimeError)
		sym.Assert(is, "a failing call is a runtime error")
		sym.Reach("reported")
	}
}

// marks that have no usable function are rejected when the interpreter is made
type ownErr struct{}

func (ownErr) Error() string { return "own" }

func I01_invalid() {
	p := newTip("doc = IDENT/x\n")
	type S = *tstack
	fs := []interface{}{nil, 1, func() {}, func(s S, v ...int) {}, func(s S, a, b, c int) {}, func(s S) int { return 0 }, func(s S) (int, error) { return 0, nil },
		func(s S) error { return nil }, func(s S) {}, func(a int, b ...int) {}, func(i *tip, s string) error { return nil }, func(a, b, c, d int) int { return 0 },
		func(s S) *ownErr { return nil }, func(s S) (error, error) { return nil, nil }, func(s S) interface{} { return nil }, func(i *tip) ownErr { return ownErr{} }}
	k := sym.Choice("fn", len(fs))
	if fs[k] != nil {
		p.fns["$x"] = fs[k]
	}
	failed := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				_, ok := e.(string)
				sym.Assert(ok, "a mark without a usable function is reported")
				failed = true
			}
		}()
		_, err := interpreter.New(p, nil)
		failed = err != nil
	}()
	sym.Assert(failed == (k < 7 || k == 9 || k > 11), "a mark without a usable function is rejected")
	sym.Reach("checked")
}

// I02: mute and unmute
func I02_mute() {
	p := newTip("doc = *('+'/_mute | '-'/_unmute | IDENT/ord | INT/_und | CHAR/Cap | (?',' ';')/_Cap)\n")
	var got []int
	p.fns["$ord"] = func(s *tstack) { got = append(got, 0) }
	p.fns["$_und"] = func(s *tstack) { got = append(got, 1) }
	p.fns["$Cap"] = func(s *tstack, n int) { got = append(got, 2) }
	p.fns["$_Cap"] = func(s *tstack, n int) { got = append(got, 3) }
	e, err := interpreter.New(p, nil)
	sym.Assert(err == nil, "the grammar compiles")
	round := func(name string, max int) {
		n := sym.Choice(name+" tokens", max+1)
		var src []byte
		var want []int
		mute := 0
		got = nil
		for i := 0; i < n; i++ {
			k := sym.Choice(name, 6)
			src = append(src, []string{"+ ", "- ", "a ", "1 ", "'c' ", "; "}[k]...)
			switch k {
			case 0:
				mute++
			case 1:
				sym.Assume(mute > 0)
				mute--
			case 2, 4:
				if mute == 0 {
					want = append(want, k-2)
				}
			case 3, 5:
				if mute <= 1 {
					want = append(want, k-2)
				}
			}
		}
		fail := sym.Choice(name+" fails", 2) == 1
		if fail {
			src = append(src, ')')
		}
		err := attempt(func() error { return e.Eval(string(src)) })
		sym.Assert((err != nil) == fail, "muting does not change what is matched")
		sym.Assert(len(got) == len(want), "exactly the marks that are not muted are executed")
		for i := range got {
			sym.Assert(got[i] == want[i], "exactly the marks that are not muted are executed")
		}
	}
	round("first", sym.Bound("tokens", 4+sym.Tier()))
	round("second", 2) // an evaluation starts unmuted, whatever happened before
	sym.Reach("muted")
}

// I03: the value of a literal
func I03_int() {
	var src []byte
	want, base := uint64(0), uint64(10)
	form := sym.Choice("form", 4)
	pre := ""
	switch form {
	case 0:
		src = alpha("d", 1+sym.Choice("len", sym.Bound("digits", 4)), "0123456789")
		sym.Assume(src[0] != '0')
	case 1:
		base, pre = 8, "0"
		src = alpha("d", sym.Choice("len", 1+sym.Bound("digits", 4)), "01234567")
	case 2:
		base, pre = 16, []string{"0x", "0X"}[sym.Choice("X", 2)]
		src = alpha("d", 1+sym.Choice("len", sym.Bound("digits", 4)), "0123456789abcdefABCDEF")
	}
	over := false
	if form == 3 { // around the largest value
		k := sym.Choice("which", 6)
		pre = []string{"92233720368547758", "922337203685477580", "0x7ffffffffffffff", "0xfffffffffffffff", "077777777777777777777", "0177777777777777777777"}[k]
		n := []int{2, 2, 1, 1, 1, 1}[k]
		base = []uint64{10, 10, 16, 16, 8, 8}[k]
		src = alpha("d", n, []string{"0123456789", "0123456789", "0123456789abcdef", "0123456789abcdef", "01234567", "01234567"}[k])
		for _, c := range pre {
			if c != 'x' {
				want = want*base + uint64(digit(byte(c)))
			}
		}
	}
	for _, c := range src {
		d := uint64(digit(c))
		over = sym.Or(over, want > (1<<63-1-d)/base)
		want = want*base + d
	}
	lit := pre + string(src)
	v, err := interpreter.ParseInt(lit)
	sym.Assert((err == nil) == !over, "an integer literal that is out of range is reported")
	f, ferr := interpreter.ParseFloat(lit)
	sym.Assert(over || ferr == nil, "an integer literal is a float literal")
	sym.Assert(!over || (ferr == nil) == (base == 10), "an octal or hexadecimal literal that is out of range is reported")
	if err == nil {
		sym.Assert(uint64(v) == want, "an integer literal has its value")
		sym.Assert(sym.Same(f, float64(int64(want))), "an integer literal has the same value as a float")
		for _, t := range []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(int64(0))} {
			r, err := interpreter.GetValue(t, lit)
			sym.Assert(err == nil && r.Type() == t && r.Int() == v, "a literal is converted to the type that is asked for")
		}
		sym.Reach("value")
	} else {
		sym.Reach("out of range")
	}
	r, err := interpreter.GetValue(reflect.TypeOf(""), lit)
	sym.Assert(err == nil && r.String() == lit, "the string value of a literal is its text")
}

func digit(c byte) byte {
	switch {
	case c >= 'a':
		return c - 'a' + 10
	case c >= 'A':
		return c - 'A' + 10
	}
	return c - '0'
}

func I03_types() {
	types := []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(false), reflect.TypeOf(float32(0)), reflect.TypeOf([]int{}), reflect.TypeOf(""), reflect.TypeOf(1.5), reflect.TypeOf(1), reflect.TypeOf(int64(1))}
	k := sym.Choice("type", len(types))
	src := alpha("lit", 1+sym.Choice("len", 2), "a1.")
	r, err := interpreter.GetValue(types[k], string(src))
	num := src[0] == '1' && (len(src) == 1 || src[1] == '1')
	flo := true
	digs := 0
	dots := 0
	for _, c := range src {
		switch c {
		case '1':
			digs++
		case '.':
			dots++
		default:
			flo = false
		}
	}
	flo = flo && digs > 0 && dots < 2
	switch {
	case k < 4:
		sym.Assert(err != nil, "a type that literals do not have is reported")
		return
	case k == 4:
		sym.Assert(err == nil && r.String() == string(src), "the string value of a literal is its text")
	case k == 5:
		sym.Assert((err == nil) == flo, "what is no number is reported")
	default:
		sym.Assert((err == nil) == num, "what is no integer is reported")
	}
	if err == nil {
		sym.Assert(r.Type() == types[k], "a literal is converted to the type that is asked for")
		sym.Reach("value")
	} else {
		sym.Reach("reported")
	}
}

type oddErr struct{ n int }

var errWhy = errors.New("why")

// I04: how a failing function is reported, and what is left behind
func I04_error() {
	p := newTip("doc = *(IDENT/ok | (INT IDENT)/no | '+')\n")
	kind := sym.Choice("kind", 6)
	calls := 0
	p.fns["$ok"] = func(s *tstack) { calls++ }
	p.fns["$no"] = func(s *tstack) error {
		switch kind {
		case 0:
			return errWhy
		case 1:
			panic("why")
		case 2:
			panic(errWhy)
		case 3:
			panic(&interpreter.RuntimeError{Err: errWhy})
		case 4:
			panic(oddErr{7})
		}
		return nil
	}
	e, err := interpreter.New(p, nil)
	sym.Assert(err == nil, "the grammar compiles")
	name := []string{"", "f.txt"}[sym.Choice("name", 2)]
	n := sym.Choice("tokens", 1+sym.Bound("tokens", 3+sym.Tier()))
	var src []byte
	line, at, oks := 1, 0, 0
	for i := 0; i < n; i++ {
		k := sym.Choice("tok", 4)
		if k&1 == 1 && at == 0 {
			at = line
		}
		if k == 0 && at == 0 {
			oks++
		}
		src = append(src, []string{"a", "1 b", "+", "1\n\nb"}[k]...)
		if k == 3 {
			line += 2
		}
		if sym.Choice("newline", 2) == 1 {
			src = append(src, '\n')
			line++
		} else {
			src = append(src, ' ')
		}
	}
	var got interface{}
	func() {
		defer func() { got = recover() }()
		err = e.MatchExactly(src, name)
	}()
	if at == 0 || kind == 5 {
		sym.Assert(got == nil && err == nil, "without a failing function there is no error")
		return
	}
	sym.Assert(calls == oks, "nothing is executed after a failing function")
	if kind == 4 {
		o, ok := got.(oddErr)
		sym.Assert(ok && o.n == 7, "a panic that is no error is passed on")
		return
	}
	re, ok := got.(*interpreter.RuntimeError)
	sym.Assert(ok && re.Err != nil && re.Err.Error() == "why", "a failing function is reported with its error")
	if kind == 3 {
		sym.Assert(re.Error() == "runtime error: why", "a runtime error is passed on as it is")
		return
	}
	if kind != 1 {
		sym.Assert(re.Err == errWhy, "a failing function is reported with its error")
	}
	sym.Assert(len(re.Src) == 2 && re.Src[0].Kind == tpl.INT, "a failing function is reported with its source")
	switch sym.Choice("later", 3) { // an error stays what it is
	case 1:
		e.MatchExactly([]byte("a\n\n\na"), "g.txt")
	case 2:
		e.EvalSub("doc", "+")
	}
	want := "line " + strconv.Itoa(at)
	if name != "" {
		want = name + ":" + strconv.Itoa(at)
	}
	sym.Assert(re.Error() == want+": runtime error: why", "a failing function is reported with file and line")
	sym.Reach("error")
}

// evaluating a part of the source with another interpreter
func I04_nested() {
	p := newTip("doc = *(IDENT/ord | '+'/_mute | '-'/_unmute | ('(' *(~')' body) ')')/sub)\nbody = IDENT | INT | CHAR\nrun = '(' +(IDENT/ord | '+'/_mute | INT/fail | CHAR/deep | '-'/_unmute) ')'\n")
	q := &tip{stk: p.stk, fns: p.fns}
	r := &tip{stk: p.stk, fns: p.fns}
	var e *interpreter.Engine
	var log []interface{}
	p.fns["$ord"] = func(i *tip) { log = append(log, i) }
	odd := sym.Choice("panics", 2) == 1
	p.fns["$fail"] = func(i *tip) error {
		if odd {
			panic(7)
		}
		return errWhy
	}
	p.fns["$sub"] = func(i *tip, src interface{}) error { return e.EvalCode(q, "run", src) }
	p.fns["$deep"] = func(i *tip) error {
		return e.EvalCode(r, "run", "(a)")
	}
	e, err := interpreter.New(p, nil)
	sym.Assert(err == nil, "the grammar compiles")
	// doc := before ( inner ) after
	var src []byte
	var want []interface{}
	n := sym.Choice("inner", 1+sym.Bound("inner tokens", 3))
	mute := 0
	if sym.Choice("before", 2) == 1 {
		src = append(src, "a "...)
		want = append(want, p)
	}
	src = append(src, "( "...)
	fails := n == 0
	for i := 0; i < n; i++ {
		k := sym.Choice("tok", 3)
		src = append(src, []string{"a ", "1 ", "'c' "}[k]...)
		if fails {
			continue
		}
		switch k {
		case 0:
			want = append(want, q)
		case 1:
			fails = true
		case 2:
			want = append(want, r)
		}
	}
	src = append(src, ") "...)
	if sym.Choice("after", 2) == 1 {
		src = append(src, 'a')
		if !fails {
			want = append(want, p)
		}
	}
	var pan interface{}
	func() {
		defer func() { pan = recover() }()
		err = attempt(func() error { return e.Eval(string(src)) })
	}()
	_ = mute
	if odd && pan != nil {
		sym.Assert(fails && pan == interface{}(7), "a panic that is no error is passed on")
		err = errWhy
		sym.Reach("panic")
	}
	sym.Assert((err != nil) == fails, "a failure of the part is a failure of the whole")
	sym.Assert(len(log) == len(want), "a part is evaluated by the interpreter it is given to")
	for i := range log {
		sym.Assert(log[i] == want[i], "a part is evaluated by the interpreter it is given to")
	}
	sym.Assert(e.Interpreter == util.Interface(p), "the interpreter is itself again afterwards, also after a failure")
	log = nil
	sym.Assert(e.Eval("a a") == nil && len(log) == 2 && log[0] == interface{}(p) && log[1] == interface{}(p), "the interpreter is itself again afterwards, also after a failure")
	sym.Reach("evaluated")
}

// a part that does not match behind the fail-fast mark
func I04_abort() {
	p := newTip("doc = *(IDENT/ord | CHAR/sub | STRING/deep | '+' ! IDENT/ord)\n")
	q := &tip{stk: p.stk, fns: p.fns}
	var e *interpreter.Engine
	n := 0
	texts := []string{"a", "a\n+ b", "a\n+\n", "\n\n+ 1", "\n 1", "'c'", "$"}
	text, inner := texts[sym.Choice("text", len(texts))], texts[sym.Choice("inner", 5)]
	p.fns["$ord"] = func(i *tip) { n++ }
	p.fns["$sub"] = func(i *tip) error {
		return e.EvalCode(q, "doc", []interface{}{inner, []byte(inner)}[sym.Choice("kind", 2)])
	}
	p.fns["$deep"] = func(i *tip) error { return e.EvalCode(q, "doc", text) }
	e, err := interpreter.New(p, nil)
	sym.Assert(err == nil, "the grammar compiles")
	lines := sym.Choice("lines", 3)
	src := strings.Repeat("x\n", lines) + "\"\" x +"
	err = attempt(func() error { return e.MatchExactly([]byte(src), "f") })
	sym.Assert(err != nil, "a failure of the part is a failure of the whole")
	line, words := []int{0, 0, 2, 3, 2, 0, 0}, []int{1, 2, 1, 0, 0, 0, 0}
	at := func(t string) int {
		for i, s := range texts {
			if s == t {
				return i
			}
		}
		return -1
	}
	count := lines
	where := at(text)
	if text == "'c'" {
		where = at(inner)
	}
	count += words[where]
	switch {
	case line[where] > 0: // is reported as it is
		me, ok := err.(*tpl.MatchError)
		sym.Assert(ok && strings.HasPrefix(me.Error(), "line "+strconv.Itoa(line[where])+": match failed"), "a part that is given up is reported where it is wrong")
		sym.Reach("part")
	case texts[where] == "$":
		re, ok := err.(*interpreter.RuntimeError)
		sym.Assert(ok && re.Err != nil && strings.HasPrefix(err.Error(), "f:"+strconv.Itoa(lines+1)+": runtime error: "), "a part that cannot be read is reported for the match it was evaluated for")
		sym.Reach("malformed")
	default: // the whole fails at its end
		_, ok := err.(*tpl.MatchError)
		sym.Assert(ok && strings.HasPrefix(err.Error(), "line "+strconv.Itoa(lines+1)+": match failed"), "the whole is reported where it is wrong")
		count++
		sym.Reach("whole")
	}
	sym.Assert(n == count, "nothing is executed after a failure")
	sym.Assert(e.Interpreter == util.Interface(p), "the interpreter is itself again afterwards, also after a failure")
}

// evaluating another text leaves the source as it was
func I04_source() {
	p := newTip("doc = *(IDENT/ord | CHAR/sub | FLOAT/no)\nrun = *(IDENT/ord | CHAR/deep | FLOAT/no)\n")
	q := &tip{stk: p.stk, fns: p.fns}
	var e *interpreter.Engine
	type at struct {
		i    *tip
		s    string
		line int
	}
	var log, want []at
	text := []string{"", "x", "\n yy\n z", "x\n'c'\n\n y", "x\n  1.5", "x +", "x $"}[sym.Choice("text", 7)]
	deep := []string{"", "\n\n\n\n\n v", "1.5", "v v\n("}[sym.Choice("deep", 4)]
	p.fns["$ord"] = func(i *tip, src interface{}) {
		log = append(log, at{i, strings.TrimSpace(string(e.Source(src))), e.FileLine(src).Line})
	}
	p.fns["$no"] = func(i *tip) error { return errWhy }
	guard := func(f func(i *tip) error) func(i *tip) {
		return func(i *tip) { attempt(func() error { return f(i) }) }
	}
	p.fns["$sub"] = guard(func(i *tip) error { return e.EvalCode(q, "run", text) })
	p.fns["$deep"] = guard(func(i *tip) error { return e.EvalCode(q, "run", []byte(deep)) })
	e, err := interpreter.New(p, nil)
	sym.Assert(err == nil, "the grammar compiles")
	var inner []at
	switch text {
	case "x", "x\n  1.5":
		inner = []at{{q, "x", 1}}
	case "x +":
		inner = []at{{q, "x", 1}}
	case "\n yy\n z":
		inner = []at{{q, "yy", 2}, {q, "z", 3}}
	case "x\n'c'\n\n y":
		inner = []at{{q, "x", 1}}
		switch deep {
		case "\n\n\n\n\n v":
			inner = append(inner, at{q, "v", 6})
		case "v v\n(":
			inner = append(inner, at{q, "v", 1}, at{q, "v", 1})
		}
		inner = append(inner, at{q, "y", 4})
	}
	var src []byte
	line := 1
	n := 1 + sym.Choice("n", sym.Bound("tokens", 4+sym.Tier()))
	fails := 0
	for k := 0; k < n; k++ {
		src = append(src, []byte{' ', '\n'}[sym.Choice("break", 2)])
		if src[len(src)-1] == '\n' {
			line++
		}
		kind := sym.Choice("tok", 3)
		if k == n-1 {
			kind = 2
		}
		switch kind {
		case 0:
			w := string([]byte{'a' + byte(k), 'b'})
			src = append(src, w...)
			if fails == 0 {
				want = append(want, at{p, w, line})
			}
		case 1:
			src = append(src, "'c'"...)
			if fails == 0 {
				want = append(want, inner...)
			}
		case 2:
			src = append(src, "2.5"...)
			if fails == 0 {
				fails = line
			}
		}
	}
	err = attempt(func() error { return e.MatchExactly(src, "f.txt") })
	sym.Assert(len(log) == len(want), "every text is evaluated")
	for k := range log {
		sym.Assert(log[k] == want[k], "the source is that of the text that is evaluated")
	}
	sym.Assert(err != nil && err.Error() == "f.txt:"+strconv.Itoa(fails)+": runtime error: why", "a failure is reported with file and line")
	sym.Reach("reported")
}

// the mute state of the part is its own
func I04_mute() {
	p := newTip("doc = *(IDENT/ord | '+'/_mute | '-'/_unmute | INT/_sub)\nrun = *(IDENT/ord | '+'/_mute | '-'/_unmute | INT/fail)\n")
	q := &tip{stk: p.stk, fns: p.fns}
	var e *interpreter.Engine
	outer, inner := 0, 0
	part := []string{"", "a", "+ a", "+ a - a", "1", "+ 1 - 1", "a )"}[sym.Choice("part", 7)]
	p.fns["$ord"] = func(i *tip) {
		if i == q {
			inner++
		} else {
			outer++
		}
	}
	p.fns["$fail"] = func(i *tip) error { return errWhy }
	p.fns["$_sub"] = func(i *tip) {
		attempt(func() error { return e.EvalCode(q, "run", part) })
	}
	e, err := interpreter.New(p, nil)
	sym.Assert(err == nil, "the grammar compiles")
	n := sym.Choice("tokens", 1+sym.Bound("tokens", 4))
	var src []byte
	want, mute, subs := 0, 0, 0
	for i := 0; i < n; i++ {
		k := sym.Choice("tok", 4)
		src = append(src, []string{"a ", "+ ", "- ", "1 "}[k]...)
		switch k {
		case 0:
			if mute == 0 {
				want++
			}
		case 1:
			mute++
		case 2:
			sym.Assume(mute > 0)
			mute--
		case 3:
			if mute <= 1 {
				subs++
			}
		}
	}
	err = attempt(func() error { return e.Eval(string(src)) })
	sym.Assert(err == nil, "the source is evaluated")
	sym.Assert(outer == want, "a part does not change the mute state of the whole")
	wantIn := 0
	if strings.HasPrefix(part, "a") || strings.HasSuffix(part, "- a") {
		wantIn = subs
	}
	sym.Assert(inner == wantIn, "a part starts unmuted")
	sym.Reach("evaluated")
}

// I05: calling functions with arguments from a stack
type adder struct{ got []interface{} }

func (p *adder) Call(a int, b ...string) int {
	p.got = append(p.got, a)
	for _, x := range b {
		p.got = append(p.got, x)
	}
	return a + len(b)
}

var argKinds = []interface{}{1, int8(2), uint16(3), float32(4), 5.5, "s", nil, true}

func I05_call() {
	var got []interface{}
	type ptr = *int
	fns := []struct {
		f    interface{}
		in   []reflect.Kind
		var_ bool
	}{
		{func() int { return 7 }, nil, false},
		{func(a int) int { got = append(got, a); return 7 }, []reflect.Kind{reflect.Int}, false},
		{func(a float64, b string) int { got = append(got, a, b); return 7 }, []reflect.Kind{reflect.Float64, reflect.String}, false},
		{func(a interface{}, b ptr) int { got = append(got, a, b == nil); return 7 }, []reflect.Kind{reflect.Interface, reflect.Ptr}, false},
		{func(a int, b ...float64) int {
			got = append(got, a)
			for _, x := range b {
				got = append(got, x)
			}
			return 7
		}, []reflect.Kind{reflect.Int, reflect.Float64}, true},
		{func(b ...interface{}) int { got = append(got, b...); return 7 }, []reflect.Kind{reflect.Interface}, true},
		{func(a float64, b interface{}, c ...string) int {
			got = append(got, a, b)
			for _, x := range c {
				got = append(got, x)
			}
			return 7
		}, []reflect.Kind{reflect.Float64, reflect.Interface, reflect.String}, true},
	}
	f := fns[sym.Choice("fn", len(fns))]
	arity := sym.Choice("arity", 1+sym.Bound("arity", 3))
	have := sym.Choice("operands", 4)
	stk := &tstack{}
	v := sym.Choice("vcall", 2) == 1
	if v {
		stk.vals = append(stk.vals, "below")
		stk.vals = append(stk.vals, f.f)
	}
	var args []interface{}
	for i := 0; i < have; i++ {
		args = append(args, argKinds[sym.Choice("arg", len(argKinds))])
	}
	stk.vals = append(stk.vals, args...)
	if v {
		sym.Assume(arity == have) // the function lies below its arguments
	}
	var err error
	crash := false
	func() {
		defer func() {
			if recover() != nil {
				crash = true
			}
		}()
		if v {
			err = util.VCall(stk, arity)
		} else {
			err = util.Call(stk, f.f, arity)
		}
	}()
	n := len(f.in)
	okN := arity == n || f.var_ && arity >= n-1
	if !okN {
		sym.Assert(err != nil && got == nil, "a call with the wrong number of arguments is reported")
		sym.Reach("arity")
		return
	}
	if arity > have {
		sym.Assert(err == util.ErrStackDamaged && got == nil, "a call without enough operands is reported")
		sym.Reach("stack")
		return
	}
	args = args[have-arity:]
	okT := true
	mayCrash := false // a nil or a wrong pointer
	var want []interface{}
	for i, a := range args {
		k := f.in[n-1]
		if i < n-1 {
			k = f.in[i]
		}
		switch k {
		case reflect.Int, reflect.String:
			okT = okT && a != nil && reflect.TypeOf(a).Kind() == k
			mayCrash = mayCrash || a == nil
			want = append(want, a)
		case reflect.Float64:
			var x float64
			switch a := a.(type) {
			case int:
				x = float64(a)
			case int8:
				x = float64(a)
			case uint16:
				x = float64(a)
			case float32:
				x = float64(a)
			case float64:
				x = a
			default:
				okT = false
				mayCrash = mayCrash || a == nil
			}
			want = append(want, x)
		case reflect.Interface:
			want = append(want, a)
		case reflect.Ptr:
			okT = okT && a == nil
			mayCrash = mayCrash || a != nil
			want = append(want, true)
		}
	}
	if !okT {
		sym.Assert((err != nil || crash && mayCrash) && got == nil, "a call with an argument of the wrong type is reported")
		sym.Reach("type")
		return
	}
	sym.Assert(!crash && err == nil, "a call with the right arguments is done")
	sym.Assert(len(got) == len(want), "the function gets its arguments in order")
	for i := range got {
		sym.Assert(got[i] == want[i], "the function gets its arguments in order")
	}
	rest := have - arity
	if v {
		rest = 1
	}
	sym.Assert(len(stk.vals) == rest+1 && stk.vals[rest] == interface{}(7), "the result replaces the arguments")
	sym.Reach("called")
}

// every kind of number, for every place a float is wanted
func I05_numbers() {
	type own int16
	type ownU uint32
	type ownF float32
	n := sym.Int("n")
	vals := []interface{}{n, int8(n), int16(n), int32(n), int64(n), uint(n), uint8(n), uint16(n), uint32(n), uint64(n), uintptr(n), own(n), ownU(n), float32(1.5), ownF(2.5), n > 0, complex(1, 2), "1", []int{1}, 2.5}
	i := func(x int64) float64 { return float64(x) }
	u := func(x uint64) float64 { return float64(x) }
	want := []float64{i(int64(n)), i(int64(int8(n))), i(int64(int16(n))), i(int64(int32(n))), i(int64(n)), u(uint64(n)), u(uint64(uint8(n))), u(uint64(uint16(n))), u(uint64(uint32(n))), u(uint64(n)), u(uint64(n)), i(int64(own(n))), u(uint64(ownU(n))), 1.5, 2.5, 0, 0, 0, 0, 2.5}
	k := sym.Choice("value", len(vals))
	ok := k < 15 || k == 19
	calls := 0
	got := 0.0
	fs := []interface{}{func(x float64) { calls++; got = x }, func(y interface{}, x float64) { calls++; got = x }, func(y string, x ...float64) { calls++; got = x[len(x)-1] }, func(x ...float64) { calls++; got = x[0] }}
	f := sym.Choice("fn", len(fs))
	args := [][]interface{}{{vals[k]}, {nil, vals[k]}, {"s", 1, vals[k]}, {vals[k], 1, 2.0}}[f]
	stk := &tstack{}
	v := sym.Choice("vcall", 2) == 1
	if v {
		stk.vals = append(stk.vals, fs[f])
	}
	stk.vals = append(stk.vals, args...)
	var err error
	if v {
		err = util.VCall(stk, len(args))
	} else {
		err = util.Call(stk, fs[f], len(args))
	}
	sym.Assert((err == nil) == ok && (calls == 1) == ok, "numbers, and nothing else, are passed where a float is wanted")
	if ok {
		sym.Assert(sym.Same(got, want[k]), "a number that is passed as a float keeps its value")
		sym.Reach("passed")
	} else {
		sym.Reach("refused")
	}
}

func I05_object() {
	a := &adder{}
	stk := &tstack{}
	have := sym.Choice("operands", 4)
	what := sym.Choice("callee", 3)
	stk.vals = append(stk.vals, []interface{}{a, 3, "f"}[what])
	for i := 0; i < have; i++ {
		stk.vals = append(stk.vals, []interface{}{1, "s"}[sym.Choice("arg", 2)])
	}
	arity := sym.Choice("arity", 5)
	args := append([]interface{}(nil), stk.vals[1:]...)
	var err error
	crash := false
	func() {
		defer func() {
			if recover() != nil {
				crash = true
			}
		}()
		err = util.VCall(stk, arity)
	}()
	ok := what == 0 && arity == have && have >= 1
	for i, x := range args {
		_, isInt := x.(int)
		ok = ok && isInt == (i == 0)
	}
	if !ok {
		sym.Assert((err != nil || crash && (what != 0 || arity < have)) && (what != 0 || len(a.got) == 0), "a call that cannot be done is reported")
		sym.Reach("reported")
		return
	}
	sym.Assert(!crash && err == nil && len(a.got) == have, "an object with a Call method is called")
	for i := range args {
		sym.Assert(a.got[i] == args[i], "the object gets its arguments in order")
	}
	sym.Assert(len(stk.vals) == 1 && stk.vals[0] == interface{}(have), "the result replaces object and arguments")
	sym.Reach("called")
}
