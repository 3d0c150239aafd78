package props

import (
	"verif/sym"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/generator"
)

// ---- G: code that is generated from grammar text ----
//
// The generated Cl method is executed by an interpreter for the part of Go it is written in; what it makes is
// compared with the grammar as written.

// generate runs the generator; ok is false when the text is rejected in whatever way.
func generate(src string) (code string, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, rt := e.(interface{ RuntimeError() }); rt {
				panic(e)
			}
			ok = false
		}
	}()
	code, err := generator.GenStaticCode(src)
	return code, err == nil
}

func (c *ctext) gmarker() func(g tpl.Grammar, mark string) tpl.Grammar {
	w := c.w
	return func(g tpl.Grammar, mark string) tpl.Grammar {
		sym.Assert(len(mark) == 2 && mark[0] == 'm', "a mark is handed over by name")
		id := int(mark[1] - '0')
		return tpl.Action(g, func(tokens []tpl.Token, h tpl.Grammar) {
			pos := w.total
			if len(tokens) > 0 {
				pos = w.total - w.left(tokens)
			}
			w.impl = append(w.impl, event{"act", id, pos, len(tokens), h.Len(), true})
		})
	}
}

func (c *ctext) generated(x *gx) {
	code, ok := generate(rule("doc", c.text(x, pOr)))
	sym.Assert(ok, "code is generated from a well-formed grammar")
	ret := gocl(code, c.gmarker(), nil, 0)
	c.w.tokens(sym.Choice("tokens", 1+sym.Bound("tokens", 3)))
	c.same(ret, x, true)
}

func G01_trees() {
	c := newCtext()
	c.left = sym.Bound("operators", 2+sym.Tier())
	c.generated(c.gen())
}

func G01_chains() {
	c := newCtext()
	n := 3
	part := func() *gx {
		l := c.leafAt()
		switch sym.Choice("part", 4) {
		case 1:
			return &gx{op: gRep1, kids: []*gx{l}}
		case 2:
			c.marks++
			return &gx{op: gAction, id: c.marks, kids: []*gx{l}}
		case 3:
			return &gx{op: []int{gOr, gAnd}[sym.Choice("both", 2)], kids: []*gx{l, c.leafAt()}}
		}
		return l
	}
	var x *gx
	switch kind := sym.Choice("chain", 3); kind {
	case 0, 1:
		x = &gx{op: []int{gAnd, gOr}[kind]}
		for i := 0; i < n; i++ {
			x.kids = append(x.kids, part())
		}
	case 2:
		x = part()
		for i := 1; i < n-1; i++ {
			x = &gx{op: []int{gList, gList0}[sym.Choice("list", 2)], kids: []*gx{x, part()}}
		}
	}
	c.generated(x)
}

func G01_special() {
	c := newCtext()
	x := &gx{op: gAnd}
	n := 1 + sym.Choice("n", 3)
	bang := sym.Choice("bang", n+1)
	for i := 0; i < n; i++ {
		if i == bang {
			x.kids = append(x.kids, &gx{op: gBang})
		}
		switch sym.Choice("part", 5) {
		case 0:
			x.kids = append(x.kids, c.leafAt())
		case 1:
			x.kids = append(x.kids, &gx{op: gTrue})
		case 2:
			x.kids = append(x.kids, &gx{op: gEOF})
		case 3:
			x.kids = append(x.kids, &gx{op: gOr, kids: []*gx{c.leafAt(), {op: gTrue}}})
		case 4:
			c.marks++
			id := c.marks
			or := &gx{op: gOr, kids: []*gx{c.leafAt(), {op: gTrue}}}
			x.kids = append(x.kids, &gx{op: gAction, id: id, kids: []*gx{or}})
		}
	}
	if sym.Choice("outer", 2) == 1 {
		x = &gx{op: gOr, kids: []*gx{x, {op: gAnd, kids: []*gx{{op: gBang}}}, c.leafAt()}}
	}
	c.generated(x)
}

// gaccepts compares the generator with the reference parser on any text
func gaccepts(src []byte, tokens int) {
	doc, _ := refGrammar(src)
	code, ok := generate(string(src))
	sym.Assert(ok == (doc != nil), "code is generated from exactly the well-formed grammars")
	sym.Observe("ok", ok)
	if !ok {
		sym.Reach("rejected")
		return
	}
	ret := gocl(code, nil, nil, 0)
	sym.Assume(!leftRecursive(doc, nil))
	c := newCtext()
	c.w.tokens(sym.Choice("tokens", 1+sym.Bound("tokens", tokens)))
	c.same(ret, doc, false)
}

func G01_text() {
	b := alpha("src", sym.Choice("len", 1+sym.Bound("bytes", 3+sym.Tier())), "ab|%*!")
	gaccepts(cat([]byte("doc = "), b, []byte(";\na = IDENT\nb = INT/m\n")), 2)
}

func G01_words() {
	words := []string{"IDENT", "INT", "EOF", "ILLEGAL", "NUMBER", "true", "doc", "a", "_b", "Ab", "1", "2", "10", "01", "1.", "é", "'+'", `"x"`, "type", "tpl", "cmplr", "ret", "_", "new", "nil", "string", "map", "g", "mark"}
	p := words[sym.Choice("word", len(words))]
	name := words[sym.Choice("name", len(words))]
	form := sym.Choice("form", 4)
	src := "doc = INT " + p + "\n"
	switch form {
	case 1:
		src += name + " = CHAR/m\n"
	case 2:
		src = name + " = CHAR/m\n" + src
	case 3:
		src += name + " = CHAR\n" + name + " = INT;"
	}
	sym.Assume(p != "true" || name != "true")
	sym.Assume(p != "ILLEGAL" && p != `"x"`)
	gaccepts([]byte(src), 2)
}

func G01_rules() {
	body := []string{"a b", "a | b", "*a", "a % b", "?a b/m", "~a b"}
	bodyA := []string{"INT", "'+' b", "b b", "?b INT", "'+' ?doc"}
	bodyB := []string{"IDENT", "CHAR | IDENT", "'+' IDENT", "IDENT ?b"}
	parts := []string{
		rule("doc", body[sym.Choice("doc", len(body))]),
		rule("a", bodyA[sym.Choice("a", len(bodyA))]),
		rule("b", bodyB[sym.Choice("b", len(bodyB))]),
	}
	o := sym.Choice("order", 6)
	src := parts[o%3]
	if o < 3 {
		src += parts[(o+1)%3] + parts[(o+2)%3]
	} else {
		src += parts[(o+2)%3] + parts[(o+1)%3]
	}
	gaccepts([]byte(src), 2+sym.Tier())
}

// generated and compiled grammar run over the same source
func G01_source() {
	gs := []string{
		"doc = +(IDENT/m1 | \"if\"/m2 | \"==\"/m3 | '='/m4)",
		"doc = +(\"if\" IDENT/m1 | \"fi\"/m2 | IDENT/m3)",
		"doc = +(\"==\" | IDENT/m1 ';')",
		"doc = a % ';' ?';' EOF\na = *IDENT/m1 ?\"i\"/m2\n",
		"doc = +x\nx = INT/m1 | '=' x\n",
		"doc = *(\"f\" \"i\" ! '=' | \"f\"/m1)",
	}
	g := gs[sym.Choice("grammar", len(gs))] + "\n"
	mode := tpl.ScanMode(0)
	if sym.Choice("semicolons", 2) == 1 {
		mode = tpl.InsertSemis
	}
	var got, want []string
	var inits int
	m := func(to *[]string) func(g tpl.Grammar, mark string) tpl.Grammar {
		return func(g tpl.Grammar, mark string) tpl.Grammar {
			return tpl.Action(g, func(tokens []tpl.Token, g tpl.Grammar) {
				lit := ""
				for _, t := range tokens {
					lit += t.Literal + " "
				}
				*to = append(*to, mark+":"+lit)
			})
		}
	}
	ref, err := (&tpl.Compiler{Grammar: []byte(g), Marker: m(&want), ScanMode: mode}).Cl()
	sym.Assert(err == nil, "a well-formed grammar compiles")
	code, ok := generate(g)
	sym.Assert(ok, "code is generated from a well-formed grammar")
	ret := gocl(code, m(&got), func() { inits++ }, mode)
	b := alpha("src", sym.Choice("len", 1+sym.Bound("bytes", 4+sym.Tier())), "if= \n1;")
	run := func(f func() error) (err error) {
		defer func() {
			if e := recover(); e != nil {
				err = e.(error)
			}
		}()
		return f()
	}
	err1 := run(func() error { return ref.MatchExactly(b, "") })
	err2 := run(func() error { return ret.MatchExactly(b, "") })
	sym.Assert((err1 == nil) == (err2 == nil), "the generated compiler accepts what the grammar accepts")
	sym.Assert(inits == 1, "the generated compiler runs the initialiser")
	sym.Assert(len(got) == len(want), "the generated compiler runs the same marks")
	for i := range got {
		sym.Assert(got[i] == want[i], "the generated compiler runs the same marks")
	}
	if err2 == nil {
		sym.Reach("match")
	} else {
		sym.Reach("mismatch")
	}
	// a rule by its name
	for _, n := range []string{"a", "x", "doc", "y"} {
		err1 := run(func() error { return ref.EvalSub(n, b) })
		err2 := run(func() error { return ret.EvalSub(n, b) })
		sym.Assert((err1 == nil) == (err2 == nil), "the rules of the generated compiler can be evaluated by name")
	}
}

// the same text gives the same code
func G01_order() {
	src := "doc = a | b/m\na = c INT\nb = c\nc = IDENT\nd = a\n"
	x, ok := generate(src)
	sym.Assert(ok, "code is generated from a well-formed grammar")
	y, _ := generate(src)
	sym.Assert(x == y, "the same grammar gives the same code")
}
