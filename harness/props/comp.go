package props

import (
	"verif/sym"

	"github.com/qiniu/text/tpl"
)

// ---- grammar text: generated from a tree with the documented precedence, compiled, and compared with the tree ----

type ctext struct {
	w     *world
	left  int // operators that may still be placed
	leafs int
	marks int
	space string
	rule  map[string]*gx // named sub rules
}

var leafKinds = []uint{tpl.IDENT, tpl.INT, '+', tpl.CHAR}
var leafText = []string{"IDENT", "INT", "'+'", "CHAR"}

const (
	pOr = iota
	pAnd
	pTerm
	pFactor
)

// operators a node can have; gTok comes first so that it is the default
var textOps = []int{gTok, gAnd, gOr, gRep0, gRep1, gRep01, gList, gList0, gPeek, gNot, gAction}

func (c *ctext) leafAt() *gx {
	c.leafs++
	i := (c.leafs - 1) % len(leafKinds)
	return &gx{op: gTok, kind: leafKinds[i], id: i}
}

func (c *ctext) gen() *gx {
	if c.left == 0 {
		return c.leafAt()
	}
	op := textOps[sym.Choice("op", len(textOps))]
	if op == gTok {
		return c.leafAt()
	}
	c.left--
	x := &gx{op: op}
	n := 1
	switch op {
	case gAnd, gOr, gList, gList0:
		n = 2
	case gAction:
		c.marks++
		x.id = c.marks
	}
	for i := 0; i < n; i++ {
		x.kids = append(x.kids, c.gen())
	}
	return x
}

// text renders x so that it can stand where an operand of level lvl is wanted, with as few parentheses as possible.
func (c *ctext) text(x *gx, lvl int) string {
	sp := c.space
	wrap := func(own int, s string) string {
		if own < lvl {
			return "(" + s + ")"
		}
		return s
	}
	switch x.op {
	case gTok:
		return leafText[x.id]
	case gTrue:
		return "1"
	case gEOF:
		return "EOF"
	case gBang:
		return "!"
	case gNamed:
		return string(rune('a' + x.id))
	case gOr, gAnd:
		s, sep, own := "", " ", pAnd
		if x.op == gOr {
			sep, own = sp+"|"+sp, pOr
		}
		for i, k := range x.kids {
			if i > 0 {
				s += sep
			}
			s += c.text(k, own+1)
		}
		return wrap(own, s)
	case gList:
		return wrap(pTerm, c.text(x.kids[0], pTerm)+sp+"%"+sp+c.text(x.kids[1], pFactor))
	case gList0:
		return wrap(pTerm, c.text(x.kids[0], pTerm)+sp+"%="+sp+c.text(x.kids[1], pFactor))
	case gAction:
		return wrap(pTerm, c.text(x.kids[0], pTerm)+sp+"/"+"m"+string(rune('0'+x.id)))
	}
	op := map[int]string{gRep0: "*", gRep1: "+", gRep01: "?", gPeek: "@", gNot: "~"}[x.op]
	t := c.text(x.kids[0], pFactor)
	if op == "+" && t[0] == '+' {
		op = "+ " // "++" is another token
	}
	return op + t
}

// arbitrary tokens
func (w *world) tokens(n int) {
	w.toks, w.total = nil, n
	set := string([]byte{byte(tpl.IDENT), byte(tpl.INT), '+', byte(tpl.CHAR)})
	for i := 0; i <= n; i++ {
		t := tpl.Token{Kind: tpl.EOF, Pos: tokPos(i)}
		if i < n {
			k := sym.Byte("kind")
			sym.Assume(oneOf(k, set))
			t.Kind = uint(k)
		}
		w.toks = append(w.toks, t)
	}
	w.toks = w.toks[:n]
}

func (c *ctext) compile(src string, marks bool) (tpl.CompileRet, error) {
	w := c.w
	cp := &tpl.Compiler{Grammar: []byte(src), Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
		if !marks {
			return g
		}
		sym.Assert(len(mark) == 2 && mark[0] == 'm', "a mark is handed over by name")
		id := int(mark[1] - '0')
		return tpl.Action(g, func(tokens []tpl.Token, h tpl.Grammar) {
			pos := w.total
			if len(tokens) > 0 {
				pos = w.total - w.left(tokens)
			}
			w.impl = append(w.impl, event{"act", id, pos, len(tokens), h.Len(), true})
		})
	}}
	return cp.Cl()
}

// same compares a compiled grammar with the tree on the tokens of the world.
func (c *ctext) same(ret tpl.CompileRet, x *gx, marks bool) {
	w := c.w
	var n int
	var err error
	fatal := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(*tpl.MatchError); !ok {
					panic(e)
				}
				fatal = true
			}
		}()
		n, err = ret.Grammar.Match(w.toks, ret.Matcher)
	}()
	w.fatal, w.ref = false, nil
	r := w.eval(x, 0)
	sym.Assert(fatal == w.fatal, "the compiled grammar aborts when the grammar as written does")
	if fatal {
		sym.Reach("aborted")
		return
	}
	sym.Assert((err == nil) == r.ok, "the compiled grammar matches what the grammar as written matches")
	sym.Observe("ok", r.ok)
	if r.ok {
		sym.Assert(n == r.n, "the compiled grammar matches as many tokens as the grammar as written")
		sym.Reach("match")
	}
	if marks {
		sym.Assert(len(w.impl) == len(w.ref), "marks belong to the grammar they are written behind")
		for i, e := range w.impl {
			f := w.ref[i]
			sym.Assert(e.id == f.id && e.pos == f.pos && e.n == f.n && e.lenSeen == f.lenSeen, "marks belong to the grammar they are written behind")
			sym.Reach("mark")
		}
	}
}

func (c *ctext) ops() int { return sym.Bound("operators", 3+sym.Tier()) }

func newCtext() *ctext { return &ctext{w: &world{}, space: " "} }

func (c *ctext) roundtrip(x *gx) {
	src := c.text(x, pOr)
	ret, err := c.compile(rule("doc", src), true)
	sym.Assert(err == nil, "a well-formed grammar compiles")
	c.w.tokens(sym.Choice("tokens", 1+sym.Bound("tokens", 3)))
	c.same(ret, x, true)
}

// C01: precedence, association and meaning of the operators
func C01_trees() {
	c := newCtext()
	c.left = c.ops()
	c.roundtrip(c.gen())
}

// chains of three and more parts on one level
func C01_chains() {
	c := newCtext()
	c.space = []string{"", " ", "\t/*x*/ "}[sym.Choice("space", 3)]
	n := 3 + sym.Choice("n", 1+sym.Tier())
	part := func() *gx {
		l := c.leafAt()
		switch sym.Choice("part", 5) {
		case 1:
			return &gx{op: gRep0, kids: []*gx{l}}
		case 2:
			return &gx{op: gNot, kids: []*gx{l}}
		case 3:
			c.marks++
			return &gx{op: gAction, id: c.marks, kids: []*gx{l}}
		case 4:
			return &gx{op: []int{gOr, gAnd}[sym.Choice("both", 2)], kids: []*gx{l, c.leafAt()}}
		}
		return l
	}
	var x *gx
	switch kind := sym.Choice("chain", 3); kind {
	case 0, 1:
		x = &gx{op: []int{gAnd, gOr}[kind]}
		for i := 0; i < n; i++ {
			x.kids = append(x.kids, part())
		}
	case 2: // lists associate to the left
		x = part()
		for i := 1; i < n-1; i++ {
			x = &gx{op: []int{gList, gList0}[sym.Choice("list", 2)], kids: []*gx{x, part()}}
		}
	}
	c.roundtrip(x)
}

// the fail-fast mark, the empty grammar and the end of the document
func C01_special() {
	c := newCtext()
	x := &gx{op: gAnd}
	n := 2 + sym.Choice("n", 2)
	bang := sym.Choice("bang", n+1)
	for i := 0; i < n; i++ {
		if i == bang {
			x.kids = append(x.kids, &gx{op: gBang})
		}
		switch sym.Choice("part", 5) {
		case 0:
			x.kids = append(x.kids, c.leafAt())
		case 1:
			x.kids = append(x.kids, &gx{op: gTrue})
		case 2:
			x.kids = append(x.kids, &gx{op: gEOF})
		case 3:
			x.kids = append(x.kids, &gx{op: gOr, kids: []*gx{c.leafAt(), {op: gTrue}}})
		case 4:
			c.marks++
			id := c.marks
			or := &gx{op: gOr, kids: []*gx{c.leafAt(), {op: gTrue}}}
			x.kids = append(x.kids, &gx{op: gAction, id: id, kids: []*gx{or}})
		}
	}
	if sym.Choice("outer", 2) == 1 {
		x = &gx{op: gOr, kids: []*gx{x, c.leafAt()}}
	}
	c.roundtrip(x)
}

// C03: the code of a compiled grammar compiles to the same grammar
func (c *ctext) recompile(x *gx) {
	src := c.text(x, pOr)
	ret, err := c.compile(rule("doc", src), false)
	sym.Assert(err == nil, "a well-formed grammar compiles")
	code := ret.Code()
	sym.Observe("code", code)
	ret2, err := c.compile(rule("doc", code), false)
	sym.Assert(err == nil, "the code of a grammar compiles")
	sym.Assert(ret2.Code() == code, "the code of a grammar is the code of its code")
	c.w.tokens(sym.Choice("tokens", 1+sym.Bound("tokens", 3)))
	c.same(ret2, x, false)
}

func C03_trees() {
	c := newCtext()
	c.left = c.ops()
	c.recompile(c.gen())
}

func C03_built() {
	// grammars put together by the constructors, not by the compiler
	c := newCtext()
	c.left = c.ops()
	x := c.gen()
	g := c.w.build(x)
	s := new(tpl.AutoKwScanner)
	code := tpl.Code(g, s)
	sym.Observe("code", code)
	ret, err := c.compile(rule("doc", code), false)
	sym.Assert(err == nil, "the code of a grammar compiles")
	c.w.tokens(sym.Choice("tokens", 1+sym.Bound("tokens", 3)))
	c.same(ret, x, false)
}

func C03_special() {
	c := newCtext()
	var parts []*gx
	n := 1 + sym.Choice("n", 3)
	for i := 0; i < n; i++ {
		switch sym.Choice("part", 5) {
		case 0:
			parts = append(parts, c.leafAt())
		case 1:
			parts = append(parts, &gx{op: gTrue})
		case 2:
			parts = append(parts, &gx{op: gEOF})
		case 3:
			parts = append(parts, c.leafAt(), &gx{op: gBang})
		case 4:
			parts = append(parts, &gx{op: gRep1, kids: []*gx{{op: gRep1, kids: []*gx{c.leafAt()}}}})
		}
	}
	c.recompile(&gx{op: gAnd, kids: parts})
}

// rule is a definition; a line break ends it like a semicolon does, except behind an operator
func rule(name, body string) string {
	if body[len(body)-1] == '!' {
		return name + " = " + body + ";"
	}
	return name + " = " + body + "\n"
}
