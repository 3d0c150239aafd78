package props

import (
	"go/token"
	"strconv"

	"verif/sym"

	"github.com/qiniu/text/tpl"
)

// ---- S02: the token stream tiles the source; scanners can be reused ----

func tile(f fam, modes int) { runScan(f.source(), modeOf(sym.Choice("mode", modes))).tiles() }

func S02_ascii()   { tile(scanFams[0], 4) }
func S02_number()  { tile(scanFams[1], 1) }
func S02_string()  { tile(scanFams[2], 1) }
func S02_comment() { tile(fam{"comment", []string{"", "a", "\"\""}, "/*#\n \ra", [2]int{5, 6}}, 4) }
func S02_op()      { tile(fam{"op", []string{""}, "+-*/&|^<>=:.", [2]int{3, 4}}, 1) }
func S02_punct()   { tile(fam{"punct", []string{""}, "([)];?@$a\n", [2]int{4, 5}}, 4) }
func S02_unicode() { tile(scanFams[7], 2) }

// a scanner that is initialised again forgets everything about the previous source
func S02_reuse() {
	first := []string{"a", "\"", "`x", "/*", "'", "a+\n", "é", "0x"}[sym.Choice("first", 8)]
	src := alpha("src", sym.Choice("len", 1+sym.Bound("bytes", 3+sym.Tier())), "a+\n\"/*1 ")
	m1, m2 := modeOf(sym.Choice("mode1", 4)), modeOf(sym.Choice("mode2", 4))
	s := new(tpl.Scanner)
	fs := token.NewFileSet()
	f1 := fs.AddFile("a", fs.Base(), len(first))
	s.Init(f1, []byte(first), nil, m1)
	for k := sym.Choice("scans", 3); k > 0; k-- {
		s.Scan()
	}
	f2 := fs.AddFile("b", fs.Base(), len(src))
	n := 0
	s.Init(f2, src, func(token.Position, string) { n++ }, m2)
	r, f3, er := newScanner(src, m2)
	for i := 0; i <= 2*len(src)+2; i++ {
		t, u := s.Scan(), r.Scan()
		sym.Assert(t.Kind == u.Kind && t.Literal == u.Literal && f2.Offset(t.Pos) == f3.Offset(u.Pos), "a reused scanner scans like a new one")
		if t.Kind == tpl.EOF {
			break
		}
	}
	sym.Assert(n == er.n && s.ErrorCount == n, "a reused scanner reports errors like a new one")
	sym.Reach("reuse")
}

// ---- S03: automatic semicolons ----

func semis(f fam) {
	mode := tpl.InsertSemis
	if sym.Choice("comments", 2) == 1 {
		mode |= tpl.ScanComments
	}
	runScan(f.source(), mode).kinds()
}

func S03_comment() {
	semis(fam{"comment", []string{"", "a", "a ", ")", "a#", "a/**/"}, "/*#\n \ra;", [2]int{4, 5}})
}
func S03_ops() { semis(fam{"operator", []string{"", "a"}, "+-)]}(\n .", [2]int{3, 4}}) }
func S03_blanks() {
	semis(fam{"blank", []string{"a", "1", "\"s\"", "'c'", "`r`", "a++", "$", "a,", "a $"}, "\n \r\t;a$", [2]int{4, 5}})
}
func S03_ascii() { semis(fam{"any", []string{""}, asciiAll, [2]int{2, 3}}) }
func S03_long() {
	// a comment that spans lines, between two tokens
	body := alpha("body", sym.Choice("len", 1+sym.Bound("comment bytes", 3+sym.Tier())), "*/\n a#")
	tail := alpha("tail", 1, "\n b/#")
	mode := tpl.InsertSemis
	if sym.Choice("comments", 2) == 1 {
		mode |= tpl.ScanComments
	}
	runScan(cat([]byte("x /*"), body, []byte("*/"), tail), mode).kinds()
}

// ---- S04: malformed sources ----

func malf(f fam, modes int) { runScan(f.source(), modeOf(sym.Choice("mode", modes))).errors() }

func S04_ascii()   { malf(scanFams[0], 4) }
func S04_number()  { malf(scanFams[1], 1) }
func S04_string()  { malf(scanFams[2], 1) }
func S04_escape()  { malf(scanFams[3], 1) }
func S04_comment() { malf(fam{"comment", []string{"", "a", "\"\""}, "/*#\n \ra\x00", [2]int{4, 5}}, 4) }
func S04_unicode() { malf(scanFams[7], 2) }

// escape sequences of every length
func S04_codepoint() {
	q := []string{"\"", "'"}[sym.Choice("quote", 2)]
	var pre string
	var n int
	set := "0189df"
	switch sym.Choice("form", 5) {
	case 0:
		pre, n = "\\U00", 6
	case 1:
		pre, n = "\\U", 8
	case 2:
		pre, n, set = "\\u", 4, "0189adDfFg\""
	case 3:
		pre, n, set = "\\x", 2, "0189adDfFg'"
	case 4:
		pre, n, set = "\\", 3, "0123789x"
	}
	runScan(cat([]byte(q+pre), alpha("digit", n, set), []byte(q+" ")), 0).errors()
}
func S04_utf8() {
	// one encoded rune of up to four arbitrary bytes inside an identifier, a string or a comment
	pre := []string{"a", "\"", "//", "`", "'"}[sym.Choice("where", 5)]
	n := 2 + sym.Choice("n", sym.Bound("rune bytes", 3)-1)
	b := sym.Bytes("r", n)
	for _, c := range b {
		sym.Assume(c >= 0x80)
	}
	sym.Assume(b[0] >= 0xe0)
	sym.Assume(oneOf(b[0], "\xe0\xe2\xe4\xed\xef\xf0\xf4\xf5"))
	src := cat([]byte(pre), b)
	s, _, er := newScanner(src, 0)
	for i := 0; i < len(src)+2; i++ {
		if s.Scan().Kind == tpl.EOF {
			break
		}
	}
	l := newRlex(src, 0)
	l.badRunes(0, len(src))
	if l.bad {
		sym.Assert(er.n > 0, "an invalid encoding is reported wherever it stands")
		sym.Reach("bad")
	}
}

// ---- S05: token kinds, spellings and keywords ----

func S05_kinds() {
	k := uint(sym.Int("kind"))
	sym.Bound("kind (uint64)", 64)
	if k >= 0x9a {
		sym.Assert(panics(func() { tpl.Token2Lit(k) }), "a kind outside the table has no spelling")
		sym.Assert(tpl.TokenLen(k) == 0, "a kind outside the table has length 0")
		sym.Reach("outside")
		return
	}
	lit := tpl.Token2Lit(k)
	if lit == "" {
		sym.Assert(tpl.TokenLen(k) == 0, "an undefined kind has length 0")
		sym.Reach("gap")
		return
	}
	sym.Assert(tpl.Lit2Token(lit) == k, "spelling and kind are inverse to each other")
	spelled := lit[0] == '\'' || lit[0] == '"'
	if !spelled {
		sym.Assert(tpl.TokenLen(k) == 0, "a token class has length 0")
		sym.Reach("class")
		return
	}
	op := lit[1 : len(lit)-1]
	sym.Assert(tpl.TokenLen(k) == len(op), "the length of an operator is that of its spelling")
	found := false
	for _, o := range opTable {
		if o.s == op {
			sym.Assert(o.k == k, "operator kinds match the documented spelling")
			found = true
		}
	}
	sym.Assert(found, "only documented operators have a spelling")
	s, _, er := newScanner([]byte(op), 0)
	t := s.Scan()
	sym.Assert(t.Kind == k && s.Scan().Kind == tpl.EOF && er.n == 0, "scanning the spelling yields the kind")
	sc := new(tpl.Scanner)
	sym.Assert(sc.Ltot(sc.Ttol(k)) == k, "the scanner translates both ways")
	sym.Reach("operator")
}

func panics(f func()) (r bool) {
	defer func() {
		if recover() != nil {
			r = true
		}
	}()
	f()
	return false
}

func S05_ops() {
	o := opTable[sym.Choice("op", len(opTable))]
	q := "\""
	if len(o.s) == 1 {
		q = "'"
	}
	sym.Assert(tpl.Lit2Token(q+o.s+q) == o.k, "every documented operator has its kind")
	sym.Reach("op")
}

func S05_unknown() {
	n := sym.Choice("len", 1+sym.Bound("bytes", 3+sym.Tier()))
	b := sym.Bytes("lit", n)
	k := tpl.Lit2Token(string(b))
	if k != 0 {
		sym.Assert(tpl.Token2Lit(k) == string(b), "a known literal is the spelling of its kind")
		sym.Reach("known")
	} else {
		for _, o := range opTable {
			if len(o.s) == 1 {
				sym.Assert(string(b) != "'"+o.s+"'", "no operator is unknown")
			}
		}
		sym.Reach("unknown")
	}
}

// keywords: a literal in the grammar becomes a keyword of its own kind, and only exact matches scan as it
func S05_keywords() {
	s := new(tpl.AutoKwScanner)
	mk := func(src []byte) *token.File {
		fs := token.NewFileSet()
		return fs.AddFile("f", fs.Base(), len(src))
	}
	s.Init(mk(nil), nil, nil, 0)
	n := sym.Bound("keywords", 3)
	var kws []string
	var kinds []uint
	for i := 0; i < n; i++ {
		b := alpha("kw", 1+sym.Choice("kwlen", 2), "ab_")
		kws = append(kws, string(b))
		k := s.Ltot("\"" + string(b) + "\"")
		sym.Assert(k >= tpl.USER_TOKEN_BEGIN, "keywords have user kinds")
		for j := 0; j < i; j++ {
			sym.Assert((kws[j] == kws[i]) == (kinds[j] == k), "two keywords share a kind exactly when they are equal")
		}
		sym.Assert(s.Ttol(k) == "\""+string(b)+"\"", "a keyword kind translates back")
		kinds = append(kinds, k)
	}
	src := alpha("src", 1+sym.Choice("len", sym.Bound("source bytes", 3)), "ab_ 1")
	s.Init(mk(src), src, nil, 0)
	p, _, _ := newScanner(src, 0)
	for i := 0; i <= len(src)+1; i++ {
		t, u := s.Scan(), p.Scan()
		want := u.Kind
		for j, kw := range kws {
			if u.Kind == tpl.IDENT && u.Literal == kw {
				want = kinds[j]
				sym.Reach("keyword scanned")
			}
		}
		sym.Assert(t.Kind == want, "exactly the identifiers equal to a keyword get its kind")
		sym.Assert(t.Literal == u.Literal && t.Pos-u.Pos == 0, "keywords keep position and text")
		if t.Kind == tpl.EOF {
			break
		}
	}
}

// ---- S06: positions, source text, file and line of a token range ----

func S06_lines() {
	f := fam{"text", []string{"", "`", "/*", "\""}, "a\n `*/\r\"", [2]int{4, 5}}
	runScan(f.source(), modeOf(sym.Choice("mode", 4))).positions()
}

// a line comment that names a file and a line moves what follows it, also with a scanner that was used before
func S06_directive() {
	s := new(tpl.Scanner)
	if used := sym.Choice("used", 4); used > 0 {
		old := []byte([]string{"", "a", "a\nb\n", "\n//line old:9\n\"x"}[used])
		s.Init(token.NewFileSet().AddFile("elsewhere/old", -1, len(old)), old, nil, 0)
		for s.Scan().Kind != tpl.EOF {
		}
	}
	lead := sym.Choice("lead", 4)
	src := []byte([]string{"", "\n", "a\n/*\n*/", "`\n`\n "}[lead])
	at := 1 // line of the comment
	for _, b := range src {
		if b == '\n' {
			at++
		}
	}
	first := lead < 2 // the comment starts its line
	word := sym.Choice("word", 4)
	src = append(src, []string{"//line ", "//line", "// line ", "//Line "}[word]...)
	name := sym.Choice("name", 6)
	src = append(src, []string{"y", "d/y", " /d/y ", "../y", "x:1", "/d/./../y"}[name]...)
	file := []string{"dir/y", "dir/d/y", "/d/y", "y", "dir/x:1", "/y"}[name]
	src = append(src, ':')
	num := 0
	ok := true
	for i := sym.Choice("digits", 4); i > 0; i-- {
		b := sym.Byte("digit" + strconv.Itoa(i))
		d := int(b) - '0'
		if !(b >= '0' && b <= '9') {
			sym.Assume(b == 'a')
			ok = false
		}
		num = 10*num + d
		src = append(src, b)
	}
	if !ok {
		num = 0
	}
	k := sym.Choice("tail", 4)
	src = append(src, []string{"\nb\n c", "\n\n$", "\n", "\n/*\n*/b"}[k]...)
	moved := first && (word == 0 || word == 1 && name == 2) && num > 0 // that name starts with a blank
	var errAt token.Position
	f := token.NewFileSet().AddFile("dir/f", -1, len(src))
	s.Init(f, src, func(pos token.Position, msg string) { errAt = pos }, modeOf(sym.Choice("mode", 4)))
	n := 0
	for i := 0; i <= len(src)+1; i++ {
		t := s.Scan()
		if t.Kind == tpl.EOF {
			break
		}
		off := f.Offset(t.Pos)
		line, col := 1, 1
		for _, b := range src[:off] {
			col++
			if b == '\n' {
				line++
				col = 1
			}
		}
		p := f.PositionFor(t.Pos, false)
		sym.Assert(p.Filename == "dir/f" && p.Line == line && p.Column == col, "tokens have the place of their first byte")
		wf, wl := "dir/f", line
		if moved && line > at && k != 2 {
			wf, wl = file, num+line-at-1
			sym.Reach("moved")
		}
		p = f.Position(t.Pos)
		sym.Assert(p.Filename == wf && p.Line == wl, "a comment that names a place moves what follows it")
		if t.Kind == tpl.ILLEGAL {
			sym.Assert(errAt == p, "errors are reported at the place that was named")
			sym.Reach("error")
		}
		n++
	}
	sym.Reach("scanned")
}

func S06_ranges() {
	// the text of a token range runs from its first token to the start of the token after it
	f := fam{"text", []string{"", "a", "\n"}, "a+\n #", [2]int{4, 5}}
	src := f.source()
	m := &tpl.Matcher{ScanMode: modeOf(2 * sym.Choice("semis", 2))}
	toks, err := m.Tokenize(src, "name")
	sym.Assume(err == nil)
	n := len(toks)
	sym.Assume(n > 0)
	i := sym.Choice("from", n)
	j := i + sym.Choice("count", n-i+1)
	t := m.Tokener()
	file := t.Source().File
	sym.Assert(string(t.Source().Src) == string(src), "the scanner hands out its source")
	part := toks[i:j]
	text := tpl.Source(part, t)
	name, line := tpl.FileLine(part, t)
	if i == j {
		sym.Assert(text == nil && name == "" && line == 0, "an empty range has no text and no place")
		sym.Reach("empty")
		return
	}
	a := file.Offset(part[0].Pos)
	b := len(src)
	if j < n {
		b = file.Offset(toks[j].Pos)
	}
	sym.Assert(string(text) == string(src[a:b]), "the text of a range reaches from its first token to the next token")
	want := 1
	for k := 0; k < a; k++ {
		if src[k] == '\n' {
			want++
		}
	}
	sym.Assert(name == "name" && line == want, "a range is located at the line of its first token")
	sym.Observe("text", string(text))
	sym.Reach("range")
}

// ownScanner knows two words of its own and reads '$' as a token; everything else is left to the standard scanner
type ownScanner struct {
	tpl.Scanner
	inits int
}

const ownWord, ownOther uint = 0xe0, 0xe1

func (p *ownScanner) Init(file *token.File, src []byte, err tpl.ScanErrorHandler, mode tpl.ScanMode) {
	p.inits++
	p.Scanner.Init(file, src, err, mode)
}
func (p *ownScanner) Scan() (t tpl.Token) {
	t = p.Scanner.Scan()
	if t.Kind == tpl.IDENT && t.Literal == "if" {
		t.Kind = ownWord
	}
	return
}
func (p *ownScanner) Ttol(tok uint) string {
	switch tok {
	case ownWord:
		return "\"if\""
	case ownOther:
		return "OTHER"
	}
	return p.Scanner.Ttol(tok)
}
func (p *ownScanner) Ltot(lit string) uint {
	switch lit {
	case "\"if\"":
		return ownWord
	case "OTHER":
		return ownOther
	}
	return p.Scanner.Ltot(lit)
}

// a scanner supplied by the caller decides what words are tokens, in grammars and in sources
func S05_own() {
	atom := []string{"\"if\"", "IDENT", "\"of\"", "OTHER", "OTHERS", "INT", "'+'", "\"++\""}
	kinds := []uint{ownWord, tpl.IDENT, 0, ownOther, 0, tpl.INT, '+', tpl.INC}
	i, j := sym.Choice("atom", len(atom)), sym.Choice("next", len(atom))
	own := sym.Choice("scanner", 3)
	cp := &tpl.Compiler{Grammar: []byte("doc = " + atom[i] + " ?" + atom[j])}
	var sc tpl.Tokener
	known := func(k int) bool { return kinds[k] != 0 }
	kind := func(k int) uint { return kinds[k] }
	var count *int
	switch own {
	case 0:
		o := new(ownScanner)
		sc, count = o, &o.inits
	case 1: // knows no word at all
		sc = new(tpl.Scanner)
		known = func(k int) bool { return kinds[k] != 0 && kinds[k] != ownWord && kinds[k] != ownOther }
	case 2: // discovers words
		sc = new(tpl.AutoKwScanner)
		known = func(k int) bool { return k < 3 || k > 4 }
		kind = func(k int) uint {
			if k == 0 || k == 2 {
				return sc.Ltot(atom[k])
			}
			return kinds[k]
		}
	}
	cp.Scanner = sc
	var ret tpl.CompileRet
	var err error
	bad := panics(func() { ret, err = cp.Cl() }) || err != nil
	sym.Assert(bad != (known(i) && known(j)), "a grammar compiles exactly when the scanner knows its words")
	if bad {
		sym.Reach("unknown word")
		return
	}
	sym.Assert(ret.Tokener() == sc, "the scanner of the caller reads the sources")
	n := 0
	if count != nil {
		n = *count
	}
	words := []string{"if", "of", "x", "1", "+", "++"}
	src := ""
	var toks []uint
	for k := sym.Choice("tokens", 3); k > 0; k-- {
		w := sym.Choice("word", len(words))
		src += words[w] + " "
		t := []uint{tpl.IDENT, tpl.IDENT, tpl.IDENT, tpl.INT, '+', tpl.INC}[w]
		switch {
		case own == 0 && w == 0:
			t = ownWord
		case own == 2 && (w == 0 && (i == 0 || j == 0) || w == 1 && (i == 2 || j == 2)):
			t = sc.Ltot("\"" + words[w] + "\"")
		}
		toks = append(toks, t)
	}
	err = ret.Eval(src)
	want := len(toks) > 0 && toks[0] == kind(i) && (len(toks) == 1 || toks[1] == kind(j))
	sym.Assert((err == nil) == want, "sources are read by the scanner that knows the words of the grammar")
	if count != nil {
		sym.Assert(*count == n+1, "a source is read once")
	}
	if want {
		sym.Reach("match")
		sym.Assert(ret.Code() == atom[i]+" ?"+atom[j], "words are written as the scanner spells them")
	}
}

// a word is a keyword from the grammar on, whatever was read before it was made one
func S05_named() {
	w := string(alpha("word", 1+sym.Choice("length", 2), "ab"))
	name := []string{w, "r"}[sym.Choice("name", 2)]
	gr := []string{"doc = " + name + " INT\n" + name + " = \"" + w + "\"\n", "doc = " + name + " INT\n" + name + " = ?INT \"" + w + "\";"}[sym.Choice("grammar", 2)]
	if name == "r" {
		gr = "doc = INT | " + name + " INT\nr = \"" + w + "\""
	}
	c := &tpl.Compiler{Grammar: []byte(gr)}
	ret, err := c.Cl()
	sym.Assert(err == nil, "the grammar compiles")
	for i := 0; i < 2; i++ {
		v := string(alpha("text", 1+sym.Choice("text length", 2), "ab"))
		err = attempt(func() error { return ret.Eval(v + " 1") })
		sym.Assert((err == nil) == (v == w), "exactly the identifiers equal to a keyword get its kind")
		if err == nil {
			sym.Reach("keyword")
		} else {
			sym.Reach("identifier")
		}
	}
}
