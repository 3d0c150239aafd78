# compiler: helpers for the stack, other order
checks = "C01 C02 C03 M06 S05 I04"
F = "tpl/compiler.go"
edits = [
(F, '''	list := func(tokens []Token, g Grammar) {
		n := len(stk)
		a, b := stk[n-2], stk[n-1]
		stk[n-2] = List(a, b)
		stk = stk[:n-1]
	}

	list0 := func(tokens []Token, g Grammar) {
		n := len(stk)
		a, b := stk[n-2], stk[n-1]
		stk[n-2] = List0(a, b)
		stk = stk[:n-1]
	}
''', '''	pop := func() Grammar {
		last := len(stk) - 1
		g := stk[last]
		stk = stk[:last]
		return g
	}
	push := func(g Grammar) {
		stk = append(stk, g)
	}
	binary := func(make func(a, b Grammar) Grammar) func([]Token, Grammar) {
		return func([]Token, Grammar) {
			b := pop()
			a := pop()
			push(make(a, b))
		}
	}
	unary := func(make func(a Grammar) Grammar) func([]Token, Grammar) {
		return func([]Token, Grammar) { push(make(pop())) }
	}
	list, list0 := binary(List), binary(List0)
'''),
(F, '''	repeat0 := func(tokens []Token, g Grammar) {
		n := len(stk)
		a := stk[n-1]
		stk[n-1] = Repeat0(a)
	}

	repeat1 := func(tokens []Token, g Grammar) {
		n := len(stk)
		a := stk[n-1]
		stk[n-1] = Repeat1(a)
	}

	repeat01 := func(tokens []Token, g Grammar) {
		n := len(stk)
		a := stk[n-1]
		stk[n-1] = Repeat01(a)
	}

	not := func(tokens []Token, g Grammar) {
		n := len(stk)
		a := stk[n-1]
		stk[n-1] = Not(a)
	}

	peek := func(tokens []Token, g Grammar) {
		n := len(stk)
		a := stk[n-1]
		stk[n-1] = Peek(a)
	}
''', '''	repeat0, repeat1, repeat01 := unary(Repeat0), unary(Repeat1), unary(Repeat01)
	not, peek := unary(Not), unary(Peek)
'''),
(F, '''		n := len(stk)
		if m == 1 && stk[n-1] != nil { // a '!' alone is a sequence, too
			return
		}
		stk[n-m] = And(Clone(stk[n-m:])...)
		stk = stk[:n-m+1]
''', '''		parts := make([]Grammar, m)
		for i := range parts {
			parts[m-1-i] = pop()
		}
		if len(parts) > 1 || parts[0] == nil {
			push(And(parts...))
			return
		}
		push(parts[0])
'''),
(F, '''		ch := name[0]
		if ch >= 'A' && ch <= 'Z' {
			tok := scanner.Ltot(name)
			if tok == ILLEGAL {
				panic("illegal token: " + name)
			}
			if tok == EOF {
				g = GrEOF
			} else {
				g = Gr(tok)
			}
		} else {
			if g2, ok := grammars[name]; ok {
				g = Named(name, g2)
			} else if g, ok = vars[name]; !ok {
				if name == "true" {
					g = GrTrue
				} else {
					v := Var(name)
					vars[name] = v
					g = v
				}
			}
		}
		stk = append(stk, g)
''', '''		if !strings.ContainsAny(name[:1], "ABCDEFGHIJKLMNOPQRSTUVWXYZ") {
			if rule, found := grammars[name]; found {
				push(Named(name, rule))
				return
			}
			v, found := vars[name]
			if !found && name == "true" {
				push(GrTrue)
				return
			}
			if !found {
				v = &GrVar{Name: name}
				vars[name] = v
			}
			push(v)
			return
		}
		switch tok := scanner.Ltot(name); tok {
		case ILLEGAL:
			panic("illegal token: " + name)
		case EOF:
			push(GrEOF)
		default:
			push(Gr(tok))
		}
'''),
(F, '''	"go/token"
)
''', '''	"go/token"
	"sort"
	"strings"
)
'''),
(F, '''		for name, v := range vars {
			if v.Elem == nil {
				err = fmt.Errorf("variable `%s` is not assigned", name)
				return
			}
		}
''', '''		var open []string
		for name, v := range vars {
			if v.Elem == nil {
				open = append(open, name)
			}
		}
		if sort.Strings(open); len(open) > 0 {
			return ret, fmt.Errorf("variable `%s` is not assigned", open[0])
		}
'''),
(F, '''	g, ok := p.Grammars[name]
	if !ok {
		v, isVar := p.Vars[name]
		if !isVar {
			return ErrNoGrammar
		}
		g = v
	}

	var text []byte
	switch doc := src.(type) {
	case []Token:
		if p.Init != nil { // 因为下面调 Grammar.Match，需要先主动调用 Init
			p.Init()
		}
		matched, err := g.Match(doc, p.Matcher)
		if err != nil {
			return err
		}
		if len(doc) != matched {
			return &MatchError{GrEOF, p.Matcher, doc[matched:], nil, 0}
		}
		return nil
	case []byte:
		text = doc
	case string:
		text = []byte(doc)
	default:
		return fmt.Errorf("unsupported source type: `%v`", src)
	}

	m := &Matcher{
		Grammar:  g,
		Scanner:  p.Scanner,
		ScanMode: p.ScanMode,
		Init:     p.Init,
	}
	return m.MatchExactly(text, "")
}
''', '''	g := p.rule(name)
	if g == nil {
		return ErrNoGrammar
	}
	if text, ok := src.(string); ok {
		src = []byte(text)
	}
	if text, ok := src.([]byte); ok {
		m := *p.Matcher
		m.Grammar = g
		return m.MatchExactly(text, "")
	}
	doc, ok := src.([]Token)
	if !ok {
		return fmt.Errorf("unsupported source type: `%v`", src)
	}
	if init := p.Init; init != nil {
		init()
	}
	n, err := g.Match(doc, p.Matcher)
	if rest := doc[n:]; err == nil && len(rest) > 0 {
		err = &MatchError{Grammar: GrEOF, Ctx: p.Matcher, Src: rest}
	}
	return err
}

func (p CompileRet) rule(name string) Grammar {
	if g, ok := p.Grammars[name]; ok {
		return g
	}
	if v, ok := p.Vars[name]; ok {
		return v
	}
	return nil
}
'''),
(F, '''	if lit[0] == '"' {
		kw := lit[1 : len(lit)-1]
		if tok, ok := p.keywords[kw]; ok {
			return tok
		}
		if p.keywords == nil { // not initialized yet
			p.keywords = make(map[string]uint)
		}
		tok = USER_TOKEN_BEGIN + uint(len(p.tokens))
		p.keywords[kw] = tok
		p.tokens = append(p.tokens, lit)
	}
	return
''', '''	if !strings.HasPrefix(lit, `"`) {
		return ILLEGAL
	}
	for i, known := range p.tokens {
		if known == lit {
			return uint(i) + USER_TOKEN_BEGIN
		}
	}
	p.tokens = append(p.tokens, lit)
	tok = uint(len(p.tokens)-1) + USER_TOKEN_BEGIN
	if p.keywords == nil { // not initialized yet
		p.keywords = map[string]uint{}
	}
	p.keywords[strings.Trim(lit, `"`)] = tok
	return
'''),
]
