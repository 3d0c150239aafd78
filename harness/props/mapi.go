package props

import (
	"errors"
	"strconv"
	"strings"

	"verif/sym"

	"github.com/qiniu/text/tpl"
)

// ---- M06: the matching entry points ----

// anyG is a grammar that matches any number of tokens or fails, as the solver likes
type anyG struct {
	calls, seen, n int
	inits          *int
	initsAt        int
}

func (p *anyG) Match(src []tpl.Token, ctx tpl.Context) (int, error) {
	p.calls++
	p.seen = len(src)
	p.initsAt = *p.inits
	p.n = sym.Choice("matched", len(src)+2) - 1
	if p.n < 0 {
		return 0, errLeaf
	}
	return p.n, nil
}
func (p *anyG) Marshal(b []byte, t tpl.Tokener, lvl int) []byte { return append(b, 'G') }
func (p *anyG) Len() int                                        { return -1 }

// rawTokens reads the tokens of a source up to the first that has an error
func rawTokens(src []byte, mode tpl.ScanMode) (toks []tpl.Token, bad bool) {
	s, _, er := newScanner(src, mode)
	for {
		t := s.Scan()
		if er.n > 0 {
			return nil, true
		}
		if t.Kind == tpl.EOF {
			return toks, false
		}
		toks = append(toks, t)
	}
}

func M06_match() {
	inits := 0
	g := &anyG{inits: &inits}
	m := &tpl.Matcher{Grammar: g, ScanMode: modeOf(sym.Choice("mode", 4))}
	hook := sym.Choice("init", 2) == 1
	if hook {
		m.Init = func() { inits++ }
	}
	src := alpha("src", sym.Choice("len", 1+sym.Bound("source bytes", 3+sym.Tier())), "a+\n\"#")
	toks, malformed := rawTokens(src, m.ScanMode)
	p := &tpl.Matcher{ScanMode: m.ScanMode}
	read, terr := p.Tokenize(src, "f")
	sym.Assert((terr != nil) == malformed, "exactly the sources that cannot be tokenized are reported")
	if !malformed {
		sym.Assert(len(read) == len(toks), "a source has the tokens that the scanner finds")
		for i, t := range toks {
			sym.Assert(read[i].Kind == t.Kind && read[i].Literal == t.Literal, "a source has the tokens that the scanner finds")
		}
	}
	var next []tpl.Token
	var err error
	exact := true
	fname := "f"
	switch sym.Choice("entry", 3) {
	case 0:
		exact = false
		next, err = m.Match(src, "f")
	case 1:
		err = m.MatchExactly(src, "f")
	case 2:
		err = m.Eval(string(src))
		fname = ""
	}
	if malformed {
		e, ok := err.(*tpl.TokenizeError)
		sym.Assert(ok && err.Error() != "" && e.Pos.Line >= 1 && e.Pos.Filename == fname && err.Error() == terr.Error(), "a source that cannot be tokenized is reported as such")
		sym.Assert(g.calls == 0 && inits == 0, "a source that cannot be tokenized is not matched")
		sym.Reach("tokenize error")
		return
	}
	sym.Assert(g.calls == 1 && g.seen == len(toks), "the grammar gets all tokens of the source, once")
	if hook {
		sym.Assert(inits == 1 && g.initsAt == 1, "the init hook runs once, before matching")
	}
	if g.n < 0 {
		sym.Assert(err == errLeaf, "the error of the grammar is passed on")
		sym.Reach("mismatch")
		return
	}
	if !exact {
		sym.Assert(err == nil && len(next) == len(toks)-g.n, "matching returns the tokens that are left")
		for i, t := range next {
			sym.Assert(t.Kind == toks[g.n+i].Kind && t.Literal == toks[g.n+i].Literal, "matching returns the tokens that are left")
		}
		sym.Reach("match")
		return
	}
	sym.Assert((err == nil) == (g.n == len(toks)), "an exact match succeeds only when every token is matched")
	sym.Observe("err", err != nil)
	if err != nil {
		me, ok := err.(*tpl.MatchError)
		sym.Assert(ok && me.Grammar == tpl.GrEOF && len(me.Src) == len(toks)-g.n, "the tokens that are left are reported")
		sym.Assert(strings.HasSuffix(err.Error(), "doesn't match `EOF`"), "the tokens that are left are reported")
		sym.Reach("left over")
	} else {
		sym.Reach("exact")
	}
}

func M06_nil() {
	m := &tpl.Matcher{}
	_, err := m.Match(sym.Bytes("src", 2), "")
	sym.Assert(err == tpl.ErrNoGrammar, "without a grammar nothing matches")
	sym.Reach("nil")
}

// sub rules
func M06_sub() {
	inits := 0
	g := &anyG{inits: &inits}
	cp := &tpl.Compiler{Grammar: []byte("doc = IDENT/x; a = IDENT/x; b = c; c = IDENT/x"), Init: func() { inits++ }, ScanMode: modeOf(2 * sym.Choice("semis", 2)),
		Marker: func(_ tpl.Grammar, mark string) tpl.Grammar { return g }}
	ret, err := cp.Cl()
	sym.Assert(err == nil, "the grammar compiles")
	src := alpha("src", sym.Choice("len", 1+sym.Bound("source bytes", 3+sym.Tier())), "a+\n\"")
	toks, malformed := rawTokens(src, cp.ScanMode)
	name := []string{"doc", "a", "b", "c", "d", ""}[sym.Choice("name", 6)]
	kind := sym.Choice("source kind", 4)
	var doc interface{}
	switch kind {
	case 0:
		doc = src
	case 1:
		doc = string(src)
	case 2:
		sym.Assume(!malformed)
		doc = toks
	case 3:
		doc = len(src)
	}
	err = ret.EvalSub(name, doc)
	if name == "d" || name == "" {
		sym.Assert(err == tpl.ErrNoGrammar && g.calls == 0, "a rule that does not exist is reported")
		sym.Reach("no rule")
		return
	}
	if kind == 3 {
		sym.Assert(err != nil && g.calls == 0, "a source that is neither text nor tokens is reported")
		sym.Reach("bad source")
		return
	}
	if malformed {
		sym.Assert(err != nil && g.calls == 0, "a source that cannot be tokenized is reported")
		sym.Reach("tokenize error")
		return
	}
	sym.Assert(g.calls == 1 && g.seen == len(toks), "the rule gets all tokens, once")
	sym.Assert(inits == 1 && g.initsAt == 1, "the init hook runs once, before matching")
	sym.Assert((err == nil) == (g.n == len(toks)), "evaluating a rule succeeds only when every token is matched")
	if err == nil {
		sym.Reach("exact")
	} else {
		sym.Reach("not exact")
	}
}

// evaluations inside of actions: afterwards the source that was being matched goes on to be the current one
func M06_inside() {
	texts := []string{"a", " b\nc ", "\n d (", "e \"", "", "f"}
	max := 2 + sym.Tier()
	level := 0
	var ret tpl.CompileRet
	var act func(tokens []tpl.Token, cur string)
	cur := ""
	cp := &tpl.Compiler{Grammar: []byte("doc = +(IDENT/x); a = IDENT/x ! IDENT/x | IDENT/x"), Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
		return tpl.Action(g, func(tokens []tpl.Token, _ tpl.Grammar) { act(tokens, cur) })
	}}
	ret, err := cp.Cl()
	sym.Assert(err == nil, "the grammar compiles")
	eval := func(src string) {
		old := cur
		cur = src
		defer func() {
			e := recover()
			cur = old
			if e != nil {
				_, ok := e.(*tpl.MatchError)
				sym.Assert(ok, "only the fail-fast marker aborts")
				sym.Reach("aborted")
			}
		}()
		var err error
		switch sym.Choice("entry", 4) {
		case 0:
			err = ret.EvalSub("doc", src)
		case 1:
			err = ret.EvalSub("a", []byte(src))
		case 2:
			sym.Assume(level == 1)
			err = ret.Eval(src)
		case 3:
			sym.Assume(level == 1)
			_, err = ret.Match([]byte(src), "")
		}
		if err != nil {
			sym.Assert(err.Error() != "", "errors have a text")
			sym.Reach("failed")
		}
	}
	act = func(tokens []tpl.Token, src string) {
		place := func() {
			s := ret.Tokener()
			sym.Assert(string(s.Source().Src) == src, "while a source is matched it is the current source")
			text := string(tpl.Source(tokens, s))
			sym.Assert(text != "" && text[0] == tokens[0].Literal[0], "the text of tokens is theirs, also after evaluating something else")
			_, line := tpl.FileLine(tokens, s)
			want := 1 + strings.Count(src[:strings.Index(src, tokens[0].Literal)], "\n")
			sym.Assert(line == want, "the line of tokens is theirs, also after evaluating something else")
		}
		place()
		if level < max && sym.Choice("again", 2) == 1 {
			level++
			if sym.Choice("tokens", 2) == 1 {
				err := ret.EvalSub("doc", tokens) // part of the same source
				sym.Assert(err == nil, "the tokens of a rule can be evaluated")
			} else {
				eval(texts[sym.Choice("inner", len(texts))])
			}
			level--
			place()
			sym.Reach("inside")
		}
	}
	level = 1
	eval(texts[1+sym.Choice("source", 2)])
}

// ---- M07: where a failed match is reported ----

type eres struct {
	ok    bool
	n     int // tokens matched
	far   int // tokens matched before the failure
	at    int // document position the failure is reported at
	who   *gx // what is reported not to match
	fatal bool
}

func (w *world) evalE(x *gx, pos int) (r eres) {
	fail := func() eres { return eres{at: pos, who: x} }
	switch x.op {
	case gTok:
		if pos < w.total && w.toks[pos].Kind == x.kind {
			return eres{ok: true, n: 1}
		}
		return fail()
	case gEOF:
		if pos == w.total {
			return eres{ok: true}
		}
		return fail()
	case gTrue:
		return eres{ok: true}
	case gVar, gNamed:
		return w.evalE(x.kids[0], pos)
	case gAnd:
		bang := false
		n := 0
		for _, k := range x.kids {
			if k.op == gBang {
				bang = true
				continue
			}
			q := w.evalE(k, pos+n)
			if q.fatal {
				return q
			}
			if !q.ok {
				if bang {
					return eres{fatal: true, at: pos + n + q.far, who: x}
				}
				q.far += n
				return q
			}
			n += q.n
		}
		return eres{ok: true, n: n}
	case gOr:
		// the alternative that got farther than all others is reported, else the choice itself
		best, many := eres{}, true
		for _, k := range x.kids {
			q := w.evalE(k, pos)
			if q.ok || q.fatal {
				return q
			}
			if q.far > best.far {
				best, many = q, false
			} else if q.far == best.far {
				many = true
			}
		}
		if many {
			return eres{far: best.far, at: pos, who: x}
		}
		return best
	case gRep0, gRep1, gRep01, gList, gList0:
		n := 0
		for i := 0; ; i++ {
			m := 0
			if i > 0 && (x.op == gList || x.op == gList0) {
				s := w.evalE(x.kids[1], pos+n)
				if s.fatal {
					return s
				}
				if !s.ok {
					return eres{ok: true, n: n}
				}
				m = s.n
			}
			q := w.evalE(x.kids[0], pos+n+m)
			if q.fatal {
				return q
			}
			if !q.ok {
				if i == 0 && (x.op == gRep1 || x.op == gList) {
					return q
				}
				return eres{ok: true, n: n}
			}
			n += m + q.n
			list := x.op == gList || x.op == gList0
			if m+q.n == 0 && (i > 0 || !list) || x.op == gRep01 {
				return eres{ok: true, n: n}
			}
		}
	case gPeek, gNot:
		q := w.evalE(x.kids[0], pos)
		if q.fatal {
			return q
		}
		if q.ok == (x.op == gPeek) {
			return eres{ok: true}
		}
		return fail()
	}
	panic("op")
}

// source over tokens a 1 + on one or more lines
func (w *world) text(n int, set string) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		c := sym.Byte("c")
		sym.Assume(oneOf(c, set))
		s := sym.Byte("s")
		sym.Assume(oneOf(s, " \n"))
		b = append(b, c, s)
	}
	return b
}

var errToks = []uint{tpl.IDENT, tpl.INT, '+'}

func (w *world) errCheck(x *gx, src []byte) {
	g := w.build(x)
	m := &tpl.Matcher{Grammar: g}
	var err error
	fatal := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				err, fatal = e.(error), true
			}
		}()
		err = m.MatchExactly(src, "name")
	}()
	toks, _ := (&tpl.Matcher{}).Tokenize(src, "name")
	w.toks, w.total = toks, len(toks)
	r := w.evalE(x, 0)
	if r.ok && r.n < w.total {
		r = eres{at: r.n, who: &gx{op: gEOF, g: tpl.GrEOF}}
	} else if r.ok {
		sym.Assert(err == nil, "a match has no error")
		sym.Reach("match")
		return
	}
	sym.Assert(fatal == r.fatal, "matching is aborted exactly when a part after the fail-fast marker fails")
	me, ok := err.(*tpl.MatchError)
	sym.Assert(ok, "a mismatch is reported as a match error")
	at := w.total - len(me.Src) + me.IdxErr
	sym.Assert(at == r.at, "a mismatch is reported where matching got stuck")
	sym.Observe("at", at)
	sym.Assert(me.Grammar == r.who.g, "the grammar that does not match is reported")
	m.Tokenize([]byte("b\n\nb"), "other") // an error stays what it is
	msg := err.Error()                    // never panics
	sym.Observe("msg", msg)
	if len(me.Src) > 0 {
		line := 1
		off := len(src)
		if at < w.total {
			off = int(toks[at].Pos) - int(toks[0].Pos)
		}
		for i := 0; i < off; i++ {
			if src[i] == '\n' && i+1 < len(src) { // a last line ends with its line break
				line++
			}
		}
		sym.Assert(strings.HasPrefix(msg, "line "+strconv.Itoa(line)+": match failed: `"), "a mismatch is reported with its line")
		start := int(me.Src[0].Pos) - int(toks[0].Pos)
		rest := msg[strings.IndexByte(msg, '`')+1:]
		shown := rest[:strings.IndexByte(rest, '`')]
		sym.Assert(strings.HasPrefix(string(src[start:]), shown), "the source text at the mismatch is shown")
		if at < w.total {
			off++ // tokens have one byte
		}
		sym.Assert(start+len(shown) >= off, "the source text is shown as far as the mismatch")
		sym.Reach("inside")
	} else {
		sym.Reach("at end")
	}
}

func (w *world) errTok() *gx {
	return &gx{op: gTok, kind: errToks[sym.Choice("tok", len(errToks))]}
}

var errOps = []int{gTok, gAnd, gOr, gRep0, gRep1, gRep01, gList, gList0, gPeek, gNot, gNamed}

func m07(outer int, inner []int, n int) {
	w := &world{}
	first := true
	k := 0
	tok := func() *gx {
		k++
		return &gx{op: gTok, kind: errToks[(k-1)%3]}
	}
	mk := func(op int) *gx {
		if op == gTok {
			return w.errTok()
		}
		return w.node(op, tok)
	}
	x := w.node(outer, func() *gx {
		if first {
			first = false
			return mk(inner[sym.Choice("inner", len(inner))])
		}
		return mk(errOps[sym.Choice("inner2", 5)])
	})
	src := w.text(sym.Choice("n", n+1), "a1+")
	w.errCheck(x, src)
}

func m07n() int { return sym.Bound("tokens", 3+sym.Tier()) }

func M07_and()  { m07(gAnd, errOps, m07n()) }
func M07_or()   { m07(gOr, errOps, m07n()) }
func M07_rep()  { m07([]int{gRep0, gRep1, gRep01}[sym.Choice("rep", 3)], errOps, m07n()) }
func M07_list() { m07([]int{gList, gList0}[sym.Choice("list", 2)], errOps, m07n()) }
func M07_look() { m07([]int{gPeek, gNot, gNamed}[sym.Choice("look", 3)], errOps, m07n()) }

// alternatives that get equally far
func M07_tie() {
	w := &world{}
	x := &gx{op: gOr}
	for _, c := range []string{"22", "32", "222", "221", "232"}[sym.Choice("shape", 5)] {
		y := w.errTok()
		if c > '1' {
			y = &gx{op: gAnd, kids: []*gx{{op: gTok, kind: tpl.IDENT}, y}}
		}
		if c > '2' {
			y.kids = append(y.kids, w.errTok())
		}
		x.kids = append(x.kids, y)
	}
	w.errCheck(x, w.text(sym.Choice("n", m07n()), "a1+"))
}

// the fail-fast marker: everything about the inner failure is reported at the sequence
func M07_bang() {
	w := &world{}
	ks := []*gx{{op: gTok, kind: tpl.IDENT}, {op: gBang}}
	two := w.errTok()
	if op := errOps[sym.Choice("inner", len(errOps))]; op != gTok {
		two = w.node(op, w.errTok)
	}
	ks = append(ks, two, &gx{op: gTok, kind: '+'})
	x := &gx{op: gAnd, kids: ks}
	if o := sym.Choice("outer", 4); o > 0 {
		y := w.node([]int{0, gOr, gRep0, gList}[o], func() *gx { return x })
		if len(y.kids) > 1 {
			y.kids[1] = &gx{op: gTok, kind: '+'}
		}
		x = y
	}
	w.errCheck(x, w.text(sym.Choice("n", m07n()+1), "a1+"))
}

// sources of many lines
func M07_long() {
	w := &world{}
	gap := func() string {
		return []string{" ", "\n", "\n\n\n\n\n", "\n \n\n\n\n\n\n\n\n\n\n"}[sym.Choice("gap", 4)]
	}
	var src []byte
	for i, n := 0, 2+sym.Choice("n", 1+sym.Bound("gaps", 2+sym.Tier())); i < n; i++ {
		c := sym.Byte("c")
		sym.Assume(oneOf(c, "a1"))
		src = append(src, c)
		src = append(src, gap()...)
	}
	id := func() *gx { return &gx{op: gTok, kind: tpl.IDENT} }
	x := &gx{op: gAnd, kids: []*gx{id(), id(), id(), id()}}
	k := sym.Choice("bang", 4)
	x.kids = append(x.kids[:k:k], append([]*gx{{op: gBang}}, x.kids[k:]...)...)
	w.errCheck(x, src)
}

// the message of an error of any kind is available whatever the position
func M07_wrapped() {
	w := &world{}
	src := w.text(1+sym.Choice("n", 3), "a1")
	m := &tpl.Matcher{}
	toks, _ := m.Tokenize(src, "")
	from := sym.Choice("from", len(toks)+1)
	idx := sym.Choice("idx", len(toks)-from+1)
	var inner error
	if sym.Choice("inner", 2) == 1 {
		inner = errors.New("why")
	}
	e := &tpl.MatchError{Grammar: tpl.Gr('+'), Ctx: m, Src: toks[from:], Err: inner, IdxErr: idx}
	s := e.Error()
	sym.Assert(strings.HasSuffix(s, "\nwhy") == (inner != nil), "the cause is part of the message")
	sym.Assert(strings.Contains(s, "'+'"), "the grammar is part of the message")
	sym.Reach("message")
}
