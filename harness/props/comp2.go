package props

import (
	"verif/sym"

	"github.com/qiniu/text/tpl"
)

// ---- reference parser of grammar text ----

type cparse struct {
	toks  []rtok
	i     int
	bad   bool
	names map[string]*gx // lower case names that are used or defined
	def   map[string]bool
	marks bool
}

func (p *cparse) peek() uint {
	if p.i < len(p.toks) {
		return p.toks[p.i].kind
	}
	return tpl.EOF
}

func (p *cparse) take(k uint) bool {
	if p.peek() == k {
		p.i++
		return true
	}
	return false
}

func (p *cparse) fail() *gx {
	p.bad = true
	return nil
}

func (p *cparse) name(s string) *gx {
	x := p.names[s]
	if x == nil {
		x = &gx{op: gNamed}
		p.names[s] = x
	}
	return x
}

var classes = map[string]uint{"IDENT": tpl.IDENT, "INT": tpl.INT, "FLOAT": tpl.FLOAT, "IMAG": tpl.IMAG, "CHAR": tpl.CHAR, "STRING": tpl.STRING, "COMMENT": tpl.COMMENT}

func (p *cparse) factor() *gx {
	t := rtok{kind: tpl.EOF}
	if p.i < len(p.toks) {
		t = p.toks[p.i]
	}
	p.i++
	switch t.kind {
	case tpl.IDENT:
		if c := t.lit[0]; 'A' <= c && c <= 'Z' {
			if t.lit == "EOF" {
				return &gx{op: gEOF}
			}
			k, ok := classes[t.lit]
			if !ok {
				return p.fail()
			}
			return &gx{op: gTok, kind: k}
		}
		return p.name(t.lit)
	case tpl.CHAR, tpl.STRING:
		body := t.lit[1 : len(t.lit)-1]
		for _, o := range opTable {
			if o.s == body && (len(body) == 1) == (t.kind == tpl.CHAR) {
				return &gx{op: gTok, kind: o.k}
			}
		}
		return p.fail()
	case tpl.INT:
		if t.lit != "1" {
			return p.fail()
		}
		return &gx{op: gTrue}
	case '(':
		x := p.grammar()
		if !p.bad && !p.take(')') {
			return p.fail()
		}
		return x
	case '*', '+', '?', '~', '@':
		x := p.factor()
		op := map[uint]int{'*': gRep0, '+': gRep1, '?': gRep01, '~': gNot, '@': gPeek}[t.kind]
		return &gx{op: op, kids: []*gx{x}}
	}
	return p.fail()
}

func (p *cparse) term() *gx {
	x := p.factor()
	for !p.bad {
		switch {
		case p.take('%'):
			x = &gx{op: gList, kids: []*gx{x, p.factor()}}
		case p.take(tpl.REM_ASSIGN):
			x = &gx{op: gList0, kids: []*gx{x, p.factor()}}
		case p.take('/'):
			if !p.take(tpl.IDENT) {
				return p.fail()
			}
			x = &gx{op: gAction, id: 1, kids: []*gx{x}}
		default:
			return x
		}
	}
	return x
}

func (p *cparse) grammar() *gx {
	or := &gx{op: gOr}
	for !p.bad {
		and := &gx{op: gAnd}
		for !p.bad {
			k := p.peek()
			if k == '!' {
				p.i++
				and.kids = append(and.kids, &gx{op: gBang})
				continue
			}
			if k == ')' || k == '|' || k == ';' || k == tpl.EOF {
				break
			}
			and.kids = append(and.kids, p.term())
		}
		if len(and.kids) == 0 {
			return p.fail()
		}
		or.kids = append(or.kids, and)
		if !p.take('|') {
			break
		}
	}
	return or
}

// refGrammar parses grammar text; nil when it is not a grammar.
func refGrammar(src []byte) (doc *gx, p *cparse) {
	p = &cparse{names: map[string]*gx{}, def: map[string]bool{}}
	l := newRlex(src, tpl.InsertSemis)
	for {
		t := l.next()
		if l.bad {
			return nil, p
		}
		if t.kind == tpl.EOF {
			break
		}
		p.toks = append(p.toks, t)
	}
	for p.i < len(p.toks) {
		n := p.toks[p.i]
		if n.kind != tpl.IDENT {
			return nil, p
		}
		p.i++
		if !p.take('=') {
			return nil, p
		}
		x := p.grammar()
		if p.bad || !p.take(';') || p.def[n.lit] {
			return nil, p
		}
		p.def[n.lit] = true
		p.name(n.lit).kids = []*gx{x}
	}
	if !p.def["doc"] {
		return nil, p
	}
	for n, x := range p.names {
		if len(x.kids) == 0 {
			if n != "true" {
				return nil, p
			}
			x.kids = []*gx{{op: gTrue}}
		}
	}
	return p.names["doc"], p
}

// compileText compiles src, where any marks count matches; ok is false when it is rejected in whatever way.
func compileText(src []byte) (ret tpl.CompileRet, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, rt := e.(interface{ RuntimeError() }); rt {
				panic(e)
			}
			ok = false
		}
	}()
	ret, err := (&tpl.Compiler{Grammar: src}).Cl()
	return ret, err == nil
}

func accepts(src []byte, tokens int) {
	doc, _ := refGrammar(src)
	ret, ok := compileText(src)
	sym.Assert(ok == (doc != nil), "exactly the well-formed grammars compile")
	sym.Observe("ok", ok)
	if !ok {
		sym.Reach("rejected")
		return
	}
	sym.Assume(!leftRecursive(doc, nil)) // such grammars never get anywhere
	c := newCtext()
	c.w.tokens(sym.Choice("tokens", 1+sym.Bound("tokens", tokens)))
	c.same(ret, doc, false)
}

func nullable(x *gx, above []*gx) bool {
	for _, a := range above {
		if a == x {
			return false
		}
	}
	above = append(above[:len(above):len(above)], x)
	switch x.op {
	case gTok:
		return false
	case gAnd, gList:
		for _, k := range x.kids {
			if !nullable(k, above) {
				return false
			}
			if x.op == gList {
				break
			}
		}
		return true
	case gOr:
		for _, k := range x.kids {
			if nullable(k, above) {
				return true
			}
		}
		return false
	case gNamed, gRep1, gAction:
		return nullable(x.kids[0], above)
	}
	return true
}

// leftRecursive reports whether matching x can come back to a rule at the same place.
func leftRecursive(x *gx, above []*gx) bool {
	if x.op == gNamed {
		for _, a := range above {
			if a == x {
				return true
			}
		}
		above = append(above[:len(above):len(above)], x)
	}
	for _, k := range x.kids {
		if leftRecursive(k, above) {
			return true
		}
		if x.op != gOr && !nullable(k, nil) {
			break
		}
	}
	return false
}

// C02: what compiles, and what it means
func C02_expr() {
	b := alpha("src", sym.Choice("len", 1+sym.Bound("bytes", 4+sym.Tier())), "ab|%*+?()! =")
	accepts(cat([]byte("doc = "), b, []byte("\na = IDENT\nb = INT\n")), 2)
}
func C02_prefix() {
	b := alpha("src", sym.Choice("len", 1+sym.Bound("bytes", 4+sym.Tier())), "a@~/1;\n#")
	accepts(cat([]byte("doc = "), b, []byte("\na = IDENT\n")), 2)
}
func C02_rules() {
	b := alpha("src", sym.Choice("len", 1+sym.Bound("bytes", 5+sym.Tier())), "a=1;\n|")
	accepts(cat([]byte([]string{"doc = ", "doc = 1;", "doc"}[sym.Choice("prefix", 3)]), b), 1)
}
func C02_quoted() {
	b := alpha("src", sym.Choice("len", 1+sym.Bound("bytes", 4+sym.Tier())), "'\"+=a\\|")
	src := cat([]byte("doc = "), b, []byte(";"))
	// a quoted word would be a keyword: not part of this family
	l := newRlex(src, tpl.InsertSemis)
	for {
		t := l.next()
		if t.kind == tpl.EOF || l.bad {
			break
		}
		if t.kind == tpl.STRING {
			op := false
			for _, o := range opTable {
				op = op || o.s == t.lit[1:len(t.lit)-1] && len(o.s) > 1
			}
			sym.Assume(op)
		}
	}
	accepts(src, 1)
}
func C02_words() {
	// rule names, token classes and reserved words
	words := []string{"IDENT", "INT", "FLOAT", "EOF", "ILLEGAL", "NUMBER", "true", "doc", "a", "_b", "Ab", "Z", "Yz_1", "z", "1", "2", "10", "01", "1.", "é"}
	p := words[sym.Choice("word", len(words))]
	name := words[sym.Choice("name", len(words))]
	form := sym.Choice("form", 4)
	src := "doc = INT " + p + "\n"
	switch form {
	case 1:
		src += name + " = CHAR\n"
	case 2:
		src = name + " = CHAR\n" + src
	case 3:
		src += name + " = CHAR\n" + name + " = INT;"
	}
	sym.Assume(p != "true" || name != "true")         // redefinition of the reserved word
	sym.Assume(p != "ILLEGAL" && p != "FLOAT")        // checked in M01
	sym.Assume(name != "doc" || form != 2 || p != "") // any
	accepts([]byte(src), 2)
}

// names: P and Q are used, R and S are defined
func C02_names() {
	v := alpha("name", 4, "abc")
	def := "doc = " + string(v[0:1]) + " " + string(v[1:2]) + "\n"
	r := string(v[2:3]) + " = IDENT\n"
	s := string(v[3:4]) + " = INT\n"
	parts := []string{def, r, s}
	o := sym.Choice("order", 6)
	src := parts[o%3]
	if o < 3 {
		src += parts[(o+1)%3] + parts[(o+2)%3]
	} else {
		src += parts[(o+2)%3] + parts[(o+1)%3]
	}
	accepts([]byte(src), 2)
}

// the order of the rules does not matter
func C02_order() {
	body := []string{"a b", "a | b", "*a", "a % b", "?a b", "~a b", "+(a | b)", "a ! b"}
	bodyA := []string{"INT", "'+' b", "b b", "?b INT", "*b INT"}
	bodyB := []string{"IDENT", "CHAR | IDENT", "'+' IDENT"}
	parts := []string{
		rule("doc", body[sym.Choice("doc", len(body))]),
		rule("a", bodyA[sym.Choice("a", len(bodyA))]),
		rule("b", bodyB[sym.Choice("b", len(bodyB))]),
	}
	o := sym.Choice("order", 6)
	src := parts[o%3]
	if o < 3 {
		src += parts[(o+1)%3] + parts[(o+2)%3]
	} else {
		src += parts[(o+2)%3] + parts[(o+1)%3]
	}
	accepts([]byte(src), 3)
}

// recursive rules
func C02_recursion() {
	gs := []string{
		"doc = '+' doc CHAR | INT",
		"doc = '+' *doc CHAR",
		"doc = item % '+'\nitem = INT | CHAR doc IDENT",
		"item = INT | CHAR doc IDENT\ndoc = item % '+'",
		"doc = ?('+' doc) INT",
		"a = '+' b | INT\nb = CHAR a\ndoc = b",
	}
	accepts([]byte(gs[sym.Choice("grammar", len(gs))]+"\n"), 4+sym.Tier())
}
