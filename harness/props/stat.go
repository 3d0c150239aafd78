package props

import (
	"strconv"

	"verif/static/group"
	"verif/static/ip"
	"verif/static/konst"
	"verif/static/local"
	"verif/sym"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/interpreter"
	util "github.com/qiniu/text/tpl/interpreter.util"
)

// ---- G02: what tplgen writes does what the grammar does at run time ----

// evaluation of a source, made at run time or written by tplgen
type evaler interface {
	util.Engine
	MatchExactly(src []byte, fname string) error
	EvalSub(name string, src interface{}) error
}

func statTip(code string) *tip {
	p := newTip(ip.Grammar)
	q := &tip{stk: p.stk, fns: p.fns}
	p.fns["$add"] = func(x, y int) (int, string) { p.rec("add", x, y, nil); return x + y, "s" }
	p.fns["$fail"] = func(s *tstack, v string) error { p.rec("fail", s, v, nil); return errWhy }
	p.fns["$nofail"] = func(i *tip) error { p.rec("nofail", i, nil, nil); return nil }
	body := func(c *util.Context, v interface{}) error {
		err := c.Engine.EvalCode(q, "body", v)
		for _, l := range q.log { // called on q
			p.rec(l.mark, "q", l.arg, l.ctx)
		}
		q.log = nil
		return err
	}
	p.fns["$sub"] = func(i *tip, v interface{}, c *util.Context) error {
		p.rec("sub", i, v, c)
		return body(c, v)
	}
	p.fns["$deep"] = func(i *tip, v string, c *util.Context) error {
		p.rec("deep", i, v, c)
		return body(c, code)
	}
	p.fns["$_deep"] = func(i *tip, c *util.Context) {
		p.rec("_deep", i, nil, c)
		attempt(func() error { return body(c, code) })
	}
	p.fns["$ipt"] = func(i *tip, v string) { i.rec("ipt", i == p, v, nil) }
	p.fns["$ip1"] = func(i *tip) { i.rec("ip1", i == p, nil, nil) }
	p.stk.vals = append(p.stk.vals, 1, 2, 3)
	return p
}

// outcome of an evaluation: what was reported
func outcome(f func() error) (s string) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case error:
			s = "panic: " + e.Error()
		case string:
			s = "panic: " + e
		default:
			s = "panic"
		}
	}()
	if err := f(); err != nil {
		return err.Error()
	}
	return ""
}

// sameCalls tells if the same functions were called with the same arguments; engines and objects stand for each other.
func sameCalls(p, q *tip, e, f evaler) {
	sym.Assert(len(p.log) == len(q.log), "the same functions are called")
	for i, c := range p.log {
		d := q.log[i]
		sym.Assert(c.mark == d.mark, "the same functions are called")
		switch x := c.arg.(type) {
		case []tpl.Token:
			y, ok := d.arg.([]tpl.Token)
			sym.Assert(ok && sameToks(x, y), "functions get the same source")
			sym.Assert(string(e.Source(x)) == string(f.Source(y)) && e.FileLine(x) == f.FileLine(y), "sources have the same text and place")
		case *interpreter.Engine:
			sym.Assert(d.arg == interface{}(f), "functions get the engine")
		default:
			sym.Assert(c.arg == d.arg, "functions get the same argument")
		}
		switch x := c.recv.(type) {
		case *tip:
			y, ok := d.recv.(*tip)
			sym.Assert(ok && x == p && y == q, "functions are called on the interpreter")
		case *tstack:
			sym.Assert(d.recv == interface{}(q.stk), "functions are called on the stack")
		default:
			sym.Assert(c.recv == d.recv, "functions are called on the same object")
		}
		sym.Assert((c.ctx == nil) == (d.ctx == nil), "functions get a context")
		if c.ctx != nil {
			x, _ := c.ctx.Src.([]tpl.Token)
			y, ok := d.ctx.Src.([]tpl.Token)
			sym.Assert(ok && sameToks(x, y) && c.ctx.Pos == d.ctx.Pos && c.ctx.End == d.ctx.End && d.ctx.Engine == util.Engine(f), "functions get the same context")
		}
		sym.Reach(c.mark)
	}
	sym.Assert(len(p.stk.vals) == len(q.stk.vals), "the stack is the same")
	for i := range p.stk.vals {
		sym.Assert(p.stk.vals[i] == q.stk.vals[i], "the stack is the same")
	}
}

var statOps = []string{"+", "-", "*", "/", "%", "&", "|", "^", "<", ">", "=", "!", "?", "~", "@", ":", ".", "++", "(", ")", "[", "{", "}", ";"}

type statSrc struct {
	b []byte
	n int
}

func (p *statSrc) digit(lo, hi byte) {
	b := sym.Byte("d" + strconv.Itoa(p.n))
	p.n++
	sym.Assume(b >= lo)
	sym.Assume(b <= hi)
	p.b = append(p.b, b)
}

// an operand, or none
func (p *statSrc) operand() {
	switch sym.Choice("operand", 8) {
	case 0:
		p.b = append(p.b, "a "...)
	case 1:
		p.digit('1', '9')
		p.digit('0', '9')
	case 2:
		p.b = append(p.b, '0')
		p.digit('0', '7')
	case 3:
		p.b = append(p.b, "0x"...)
		p.digit('0', '9')
	case 4:
		p.digit('0', '9')
		p.b = append(p.b, ".5"...)
	case 5:
		p.b = append(p.b, "99999999999999999999 "...)
	case 6:
		p.b = append(p.b, "1\na 2"...)
	}
}

func (p *statSrc) op(k int) {
	p.b = append(p.b, ' ')
	p.b = append(p.b, statOps[k]...)
	p.b = append(p.b, ' ')
}

func statRun(code string, srcs func() [][]byte) {
	p, q := statTip(code), statTip(code)
	opt := sym.Choice("semicolons", 2) == 1
	e, err := interpreter.New(p, func() *interpreter.Options {
		if opt {
			return interpreter.InsertSemis
		}
		return nil
	}())
	sym.Assert(err == nil, "the grammar compiles")
	f, err := ip.NewStaticInterpreter(q, func() *ip.Options {
		if opt {
			return ip.InsertSemis
		}
		return nil
	}())
	sym.Assert(err == nil, "the static interpreter can be made")
	for _, src := range srcs() {
		r := outcome(func() error { return e.MatchExactly(src, "f") })
		s := outcome(func() error { return f.MatchExactly(src, "f") })
		sym.Assert(r == s, "the same is reported")
		sym.Assert(f.Interpreter == util.Interface(q), "the interpreter is itself afterwards")
		sameCalls(p, q, e, f)
		if r == "" {
			sym.Reach("evaluated")
		} else {
			sym.Reach("reported")
		}
	}
}

func G02_args() {
	statRun("", func() [][]byte {
		var p statSrc
		p.op(sym.Choice("op", 21))
		p.operand()
		if sym.Choice("more", 2) == 1 {
			p.b = append(p.b, " ,"...)
			p.operand()
		}
		return [][]byte{p.b}
	})
}

func G02_seq() {
	statRun("", func() [][]byte {
		var p statSrc
		n := 1 + sym.Choice("items", sym.Bound("items", 2+sym.Tier()))
		ops := []int{21, 22, 23, 8, 9, 1, 11, 17, 18, 20, 3}
		for i := 0; i < n; i++ {
			k := ops[sym.Choice("op", len(ops))]
			p.op(k)
			if k < 21 {
				p.b = append(p.b, []string{"a", "1", ""}[sym.Choice("operand", 3)]...)
			}
			if sym.Choice("newline", 2) == 1 {
				p.b = append(p.b, '\n')
			}
		}
		return [][]byte{p.b}
	})
}

func G02_again() {
	one := func(name string) []byte {
		return []byte([]string{"{ - a", "- a } ", "{ ( a", "( a", "+ a )", "$", "[ 1 ", "[ a 1.5 ", "++ 1", "{ @ a ~ 1 < a a > 1,1 } < a > a"}[sym.Choice(name, 10)])
	}
	statRun("", func() [][]byte { return [][]byte{one("first"), one("second"), []byte("- a < a > a")} })
}

// muted parts, and code that is evaluated inside of others
func G02_mute() {
	code := []string{"a", "{ a", "{ a } a", "1", "{ 1 } 1.5", "> a { > a { > a } 1.5", "{ a )", "} a"}[sym.Choice("code", 8)]
	statRun(code, func() [][]byte {
		var b []byte
		n := 1 + sym.Choice("items", sym.Bound("items", 4+sym.Tier()))
		for i := 0; i < n; i++ {
			b = append(b, []string{"{ ", "} ", "! a ", "> 1 ", "-- a ", "<< a "}[sym.Choice("item", 6)]...)
		}
		return [][]byte{b}
	})
}

// interpreters that have no usable function for a mark are rejected alike
func G02_reject() {
	type S = *tstack
	fs := []interface{}{nil, 1, func() {}, func(s S, v ...int) {}, func(s S, a, b, c int) {}, func(s S) int { return 0 }, func(s S) (int, error) { return 0, nil },
		func(s S) error { return nil }, func(s S) {}, func(a int, b ...int) {}, func(i *tip, s string) error { return nil }, func(a, b, c, d int) int { return 0 }}
	k := sym.Choice("fn", len(fs))
	mark := []string{"$str", "$_Len", "$Len"}[sym.Choice("mark", 3)]
	p, q := statTip(""), statTip("")
	for _, t := range []*tip{p, q} {
		delete(t.fns, mark)
		if fs[k] != nil {
			t.fns[mark] = fs[k]
		}
	}
	r := outcome(func() error { _, err := interpreter.New(p, nil); return err })
	s := outcome(func() error { _, err := ip.NewStaticInterpreter(q, nil); return err })
	sym.Assert(r == s, "the same is rejected")
	if r == "" {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

type statCall struct {
	mark string
	lits []string
	n    int
}

// a compiler that tplgen writes matches what the compiled text matches
func statForm(text string, cl func(mk func(tpl.Grammar, string) tpl.Grammar, semis tpl.ScanMode, init func()) tpl.CompileRet, rules []string, srcs func() []byte) {
	var log [2][]statCall
	var inits [2]int
	var ret [2]tpl.CompileRet
	mk := func(i int) func(g tpl.Grammar, mark string) tpl.Grammar {
		return func(g tpl.Grammar, mark string) tpl.Grammar {
			return tpl.Action(g, func(ts []tpl.Token, g tpl.Grammar) {
				c := statCall{mark: mark, n: g.Len()}
				for _, t := range ts {
					c.lits = append(c.lits, ret[i].Scanner.Ttol(t.Kind)+t.Literal)
				}
				log[i] = append(log[i], c)
			})
		}
	}
	mode := tpl.InsertSemis * tpl.ScanMode(sym.Choice("semicolons", 2))
	c := &tpl.Compiler{Grammar: []byte(text), Marker: mk(0), ScanMode: mode, Init: func() { inits[0]++ }}
	var err error
	ret[0], err = c.Cl()
	sym.Assert(err == nil, "the grammar compiles")
	ret[1] = cl(mk(1), mode, func() { inits[1]++ })
	src := srcs()
	part := sym.Choice("rule", 1+len(rules))
	run := func(i int) func() error {
		if part > 0 {
			return func() error { return ret[i].EvalSub(rules[part-1], src) }
		}
		return func() error { return ret[i].MatchExactly(src, "") }
	}
	r, s := outcome(run(0)), outcome(run(1))
	sym.Assert(r == s, "the same is reported")
	sym.Assert(inits[0] == inits[1], "matching is prepared alike")
	sym.Assert(len(log[0]) == len(log[1]), "the same marks match")
	for i, c := range log[0] {
		d := log[1][i]
		sym.Assert(c.mark == d.mark && c.n == d.n && len(c.lits) == len(d.lits), "the same marks match")
		for j := range c.lits {
			sym.Assert(c.lits[j] == d.lits[j], "marks match the same tokens")
		}
		sym.Reach(c.mark)
	}
	if r == "" {
		sym.Reach("matched")
	} else {
		sym.Reach("reported")
	}
}

func words(k int, w ...string) (b []byte) {
	for n := sym.Choice("words", 1+k); n > 0; n-- {
		b = append(b, w[sym.Choice("word", len(w))]...)
		b = append(b, ' ')
	}
	return
}

func G02_constant() {
	statForm(konst.Grammar, func(mk func(tpl.Grammar, string) tpl.Grammar, m tpl.ScanMode, init func()) tpl.CompileRet {
		return (&konst.StaticCompiler{Marker: mk, ScanMode: m, Init: init}).Cl()
	}, []string{"list", "none"}, func() []byte { return words(sym.Bound("words", 4+sym.Tier()), "let", "x", "=", "1", ",", ";", "\n") })
}

func G02_local() {
	statForm(local.Source(), func(mk func(tpl.Grammar, string) tpl.Grammar, m tpl.ScanMode, init func()) tpl.CompileRet {
		return (&local.StaticCompiler{Marker: mk, ScanMode: m, Init: init}).Cl()
	}, []string{"term", "call"}, func() []byte { return words(sym.Bound("words", 4+sym.Tier()), "1", "+", "-", "*", "(", ")", "f", ",") })
}

func G02_group() {
	statForm(group.Source(), func(mk func(tpl.Grammar, string) tpl.Grammar, m tpl.ScanMode, init func()) tpl.CompileRet {
		return (&group.StaticCompiler{Marker: mk, ScanMode: m, Init: init}).Cl()
	}, nil, func() []byte {
		return words(sym.Bound("words", 4+sym.Tier()), "a", "1", "'c'", "\"s\"", "1.5", ",", ")", "\n")
	})
}
