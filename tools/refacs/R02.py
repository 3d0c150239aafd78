# tokens: table by search, early returns; match: tokenization in a method
checks = "S04 S05 S06 M05 M06 M07 C01 C02"
edits = [
("tpl/token.go", '''	if tok > ' ' && tok < uint(len(tokens)) && tokens[tok] != "" {
		return len(tokens[tok]) - 2
	}
	return 0
''', '''	if tok <= ' ' || tok >= uint(len(tokens)) {
		return 0
	}
	if n := len(tokens[tok]); n > 2 {
		return n - 2
	}
	return 0
'''),
("tpl/token.go", '''	if tok < uint(len(tokens)) {
		s = tokens[tok]
	} else {
		panic("unknown token: " + strconv.Itoa(int(tok)))
	}
	return
''', '''	if tok >= uint(len(tokens)) {
		panic(fmt.Sprintf("unknown token: %d", tok))
	}
	return tokens[tok]
'''),
("tpl/token.go", '''	"strconv"
''', '''	"fmt"
	"sort"
'''),
("tpl/token.go", '''var rtokens map[string]uint

func init() {
	rtokens = make(map[string]uint, 64)
	for i, s := range tokens {
		if s != "" {
			rtokens[s] = uint(i)
		}
	}
}
''', '''type litTok struct {
	lit string
	tok uint
}

var rtokens = sortTokens()

func sortTokens() (r []litTok) {
	for i := range tokens {
		if len(tokens[i]) > 0 {
			r = append(r, litTok{tokens[i], uint(i)})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].lit < r[j].lit })
	return
}
'''),
("tpl/token.go", '''	return rtokens[lit]
''', '''	i := sort.Search(len(rtokens), func(i int) bool { return rtokens[i].lit >= lit })
	if i < len(rtokens) && rtokens[i].lit == lit {
		tok = rtokens[i].tok
	}
	return
'''),
("tpl/match.go", '''	s.Init(file, src, onError, p.ScanMode)
	for {
		token := s.Scan()
		if errTok != nil {
			return tokens, errTok
		}
		tokens = append(tokens, token)
		if token.Kind == EOF { // 尽管 tokens 里面不包含 EOF，但我们希望有 EOF 过尾值（为了 Source 函数）
			tokens = tokens[:len(tokens)-1]
			break
		}
	}
	return
''', '''	s.Init(file, src, onError, p.ScanMode)
	tokens = make([]Token, 0, len(src)/2+1)
	for t := s.Scan(); ; t = s.Scan() {
		if errTok != nil {
			err = errTok
			break
		}
		n := len(tokens)
		tokens = append(tokens, t)
		if t.Kind == EOF {
			tokens = tokens[:n]
			break
		}
	}
	return tokens, err
'''),
("tpl/match.go", '''	s := p.Scanner
	if s == nil {
		s = new(Scanner)
		p.Scanner = s
	}
	return s
''', '''	if p.Scanner == nil {
		p.Scanner = &Scanner{}
	}
	return p.Scanner
'''),
("tpl/match.go", '''	if p.Init != nil {
		p.Init()
	}
	n, err := g.Match(tokens, p)
	if err != nil {
		return
	}
	return tokens[n:], nil
''', '''	n, err := p.run(g, tokens)
	if err == nil {
		next = tokens[n:]
	}
	return
'''),
("tpl/match.go", '''// MatchExactly matches src exactly.
func''', '''func (p *Matcher) run(g Grammar, tokens []Token) (int, error) {
	if init := p.Init; init != nil {
		init()
	}
	return g.Match(tokens, p)
}

// MatchExactly matches src exactly.
func'''),
("tpl/match.go", '''	if len(next) != 0 {
		return &MatchError{GrEOF, p, next, nil, 0}
	}
	return
''', '''	if len(next) > 0 {
		err = &MatchError{Grammar: GrEOF, Ctx: p, Src: next}
	}
	return
'''),
]
