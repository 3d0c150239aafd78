# match: tokens collected by a method, errors by a method value; match errors formatted in one go
checks = "M01 M02 M05 M06 M07 S05 C01 C02"
M = "tpl/match.go"
G = "tpl/grammar.go"
edits = [
(M, '''	var errTok *TokenizeError
	onError := func(pos token.Position, msg string) {
		errTok = &TokenizeError{pos, msg}
	}

	s.Init(file, src, onError, p.ScanMode)
	for {
		token := s.Scan()
		if errTok != nil {
			return tokens, errTok
		}
		tokens = append(tokens, token)
		if token.Kind == EOF { // 尽管 tokens 里面不包含 EOF，但我们希望有 EOF 过尾值（为了 Source 函数）
			tokens = tokens[:len(tokens)-1]
			break
		}
	}
	return
''', '''	var log errorLog
	s.Init(file, src, log.report, p.ScanMode)
	for t := s.Scan(); log.last == nil; t = s.Scan() {
		tokens = append(tokens, t)
		if n := len(tokens) - 1; t.Kind == EOF { // 尽管 tokens 里面不包含 EOF，但我们希望有 EOF 过尾值（为了 Source 函数）
			return tokens[:n], nil
		}
	}
	return tokens, log.last
'''),
(M, '''func (p *Matcher) requireScanner() Tokener {''', '''type errorLog struct {
	last *TokenizeError
}

func (p *errorLog) report(pos token.Position, msg string) {
	p.last = &TokenizeError{Pos: pos, Msg: msg}
}

func (p *Matcher) requireScanner() Tokener {'''),
(M, '''	if p.Init != nil {
		p.Init()
	}
	n, err := p.match(g, tokens)
	if err != nil {
		return
	}
	return tokens[n:], nil
''', '''	if start := p.Init; start != nil {
		start()
	}
	if n, err := p.match(g, tokens); err == nil {
		return tokens[n:], nil
	} else {
		return nil, err
	}
'''),
(G, '''	line, text := calcErrorInfo(p.Src, p.IdxErr, s)
	if p.Err == nil {
		return fmt.Sprintf(
			"line %d: match failed: `%s` doesn't match `%s`",
			line, text, Code(p.Grammar, s))
	}
	return fmt.Sprintf(
		"line %d: match failed: `%s` doesn't match `%s`\\n%v",
		line, text, Code(p.Grammar, s), p.Err)
''', '''	line, text := calcErrorInfo(p.Src, p.IdxErr, s)
	var b bytes.Buffer
	b.WriteString("line ")
	b.WriteString(strconv.Itoa(line))
	b.WriteString(": match failed: `")
	b.Write(text)
	fmt.Fprintf(&b, "` doesn't match `%v`", Code(p.Grammar, s))
	if p.Err != nil {
		b.WriteByte('\\n')
		b.WriteString(p.Err.Error())
	}
	return b.String()
'''),
(G, '''	from := 0
	for n > 0 {
		pos := bytes.IndexByte(src[from:], '\\n')
		if pos < 0 {
			return src
		}
		from += pos + 1
		n--
	}
	return src[:from]
''', '''	lines := bytes.SplitAfterN(src, []byte{'\\n'}, n+1)
	if len(lines) <= n {
		return src
	}
	return src[:len(src)-len(lines[n])]
'''),
(G, '''	"go/token"
''', '''	"go/token"
	"strconv"
'''),
]
