# grammar: shared repetition helper, errors by a constructor, other loops
checks = "M01 M02 M03 M04 M05 M07 C01 C03 X03"
F = "tpl/grammar.go"
edits = [
(F, '''	if len(src) > 0 {
		kind := src[0].Kind
		if kind == p.Kind || (kind == INT && p.Kind == FLOAT) {
			return 1, nil
		}
	}
	return 0, &MatchError{p, ctx, src, nil, 0}
''', '''	if len(src) == 0 || !p.accepts(src[0].Kind) {
		return 0, mismatch(p, src, ctx)
	}
	return 1, nil
'''),
(F, '''func (p grToken) Marshal''', '''func (p grToken) accepts(kind uint) bool {
	switch p.Kind {
	case kind:
		return true
	case FLOAT:
		return kind == INT
	}
	return false
}

func mismatch(g Grammar, src []Token, ctx Context) error {
	e := new(MatchError)
	e.Grammar, e.Src, e.Ctx = g, src, ctx
	return e
}

func (p grToken) Marshal'''),
(F, '''	if _, err1 := p.g.Match(src, ctx); err1 == nil {
		return 0, nil
	}
	return 0, &MatchError{p, ctx, src, nil, 0}
''', '''	_, err = p.g.Match(src, ctx)
	if err != nil {
		err = mismatch(p, src, ctx)
	}
	return 0, err
'''),
(F, '''	if _, err1 := p.g.Match(src, ctx); err1 != nil {
		return 0, nil
	}
	return 0, &MatchError{p, ctx, src, nil, 0}
''', '''	if _, err1 := p.g.Match(src, ctx); err1 == nil {
		err = mismatch(p, src, ctx)
	}
	return
'''),
(F, '''	failFast := false
	for _, g := range p.gs {
		if g == nil {
			failFast = true
			continue
		}
		n1, err1 := g.Match(src[n:], ctx)
		if err1 != nil {
			if failFast {
				err = &MatchError{p, ctx, src, err1, n + n1}
				panic(err)
			}
			return n + n1, err1
		}
		n += n1
	}
	return
''', '''	rest, mark := src, len(p.gs)
	for i := 0; i < len(p.gs); i++ {
		g := p.gs[i]
		if g == nil {
			if mark > i {
				mark = i
			}
			continue
		}
		n1, err1 := g.Match(rest, ctx)
		n += n1
		if err1 == nil {
			rest = rest[n1:]
			continue
		}
		if i > mark {
			panic(error(&MatchError{Grammar: p, Ctx: ctx, Src: src, Err: err1, IdxErr: n}))
		}
		return n, err1
	}
	return n, nil
'''),
(F, '''	var nMax int
	var errMax error
	var multiErr = true

	for _, g := range p.gs {
		if n, err = g.Match(src, ctx); err == nil {
			return
		}
		if n >= nMax {
			if n == nMax {
				multiErr = true
			} else {
				nMax, errMax, multiErr = n, err, false
			}
		}
	}
	if multiErr {
		errMax = &MatchError{p, ctx, src, nil, 0}
	}
	return nMax, errMax
''', '''	far, farErrs := 0, []error{nil}
	for _, g := range p.gs {
		n, err = g.Match(src, ctx)
		switch {
		case err == nil:
			return n, nil
		case n == far:
			farErrs = append(farErrs, err)
		case n > far:
			far, farErrs = n, append(farErrs[:0], err)
		}
	}
	if far > 0 && len(farErrs) == 1 {
		return far, farErrs[0]
	}
	return far, mismatch(p, src, ctx)
'''),
(F, '''	g := p.g
	len := 0
	for {
		n1, err1 := g.Match(src, ctx)
		if err1 != nil {
			p.len = len
			return
		}
		len++
		n += n1
		src = src[n1:]
		if n1 == 0 { // no progress
			p.len = len
			return
		}
	}
}
''', '''	n, count := repeat(p.g, src, ctx)
	p.len = count
	return n, nil
}

// repeat matches g as often as possible.
func repeat(g Grammar, src []Token, ctx Context) (n, count int) {
	for more := true; more; {
		n1, err := g.Match(src[n:], ctx)
		if err != nil {
			break
		}
		count++
		n += n1
		more = n1 > 0
	}
	return
}
'''),
(F, '''	r2 := grRepeat0{p.g, 0}
	n2, _ := r2.Match(src[n:], ctx)

	p.len = r2.len + 1
	return n + n2, nil
''', '''	n2, count := repeat(p.g, src[n:], ctx)
	p.len = 1 + count
	return n + n2, nil
'''),
(F, '''	src = src[n:]

	len := 1
	g := And(p.b, p.a)
	for {
		n1, err1 := g.Match(src, ctx)
		if err1 != nil {
			p.len = len
			return
		}
		len++
		n += n1
		src = src[n1:]
		if n1 == 0 { // no progress
			p.len = len
			return
		}
	}
}
''', '''	more, count := repeat(And(p.b, p.a), src[n:], ctx)
	p.len = count + 1
	n += more
	return
}
'''),
(F, '''	g := p.g
	if n, err = g.Match(src, ctx); err != nil {
		return
	}
	p.act(src[:n], g)
	return
''', '''	n, err = p.g.Match(src, ctx)
	if err == nil {
		p.act(src[:n], p.g)
	}
	return n, err
'''),
(F, '''	dest := make([]Grammar, len(gs))
	for i, g := range gs {
		dest[i] = g
	}
	return dest
''', '''	return append(make([]Grammar, 0, len(gs)), gs...)
'''),
(F, '''	from := 0
	for n > 0 {
		pos := bytes.IndexByte(src[from:], '\\n')
		if pos < 0 {
			return src
		}
		from += pos + 1
		n--
	}
	return src[:from]
''', '''	return bytes.Join(bytes.SplitAfterN(src, []byte("\\n"), n+1)[:min(n, bytes.Count(src, []byte("\\n"))+1)], nil)
'''),
(F, '''func nextLines''', '''func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func nextLines'''),
(F, '''	if p.Err == nil {
		return fmt.Sprintf(
			"line %d: match failed: `%s` doesn't match `%s`",
			line, text, Code(p.Grammar, s))
	}
	return fmt.Sprintf(
		"line %d: match failed: `%s` doesn't match `%s`\\n%v",
		line, text, Code(p.Grammar, s), p.Err)
''', '''	var b bytes.Buffer
	fmt.Fprintf(&b, "line %d: match failed: `%s` doesn't match `%s`", line, text, Code(p.Grammar, s))
	if p.Err != nil {
		b.WriteByte('\\n')
		fmt.Fprint(&b, p.Err)
	}
	return b.String()
'''),
(F, '''	b = append(b, '+')
	g := p.g.Marshal(nil, t, lvlRepeat)
	if len(g) > 0 && g[0] == '+' { // "++" is another token
		b = append(b, ' ')
	}
	return append(b, g...)
''', '''	g := string(p.g.Marshal(nil, t, lvlRepeat))
	if strings.HasPrefix(g, "+") {
		g = " " + g
	}
	return append(append(b, '+'), g...)
'''),
(F, '''	"go/token"
)
''', '''	"go/token"
	"strings"
)
'''),
]
