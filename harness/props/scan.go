// Package props holds the harness entries, one family per checked property.
package props

import (
	"go/token"
	"unicode"
	"unicode/utf8"

	"verif/sym"

	"github.com/qiniu/text/tpl"
)

// ---- reference lexer (written from the documented token language) ----

type rtok struct {
	kind     uint
	pos, end int // source range
	lit      string
	inserted bool
}

var opTable = []struct {
	s string
	k uint
}{
	// longest spelling first: maximal munch
	{"...", tpl.ELLIPSIS}, {"<<=", tpl.SHL_ASSIGN}, {">>=", tpl.SHR_ASSIGN}, {"&^=", tpl.AND_NOT_ASSIGN},
	{"<<", tpl.SHL}, {">>", tpl.SHR}, {"&^", tpl.AND_NOT}, {"+=", tpl.ADD_ASSIGN}, {"-=", tpl.SUB_ASSIGN},
	{"*=", tpl.MUL_ASSIGN}, {"/=", tpl.QUO_ASSIGN}, {"%=", tpl.REM_ASSIGN}, {"&=", tpl.AND_ASSIGN},
	{"|=", tpl.OR_ASSIGN}, {"^=", tpl.XOR_ASSIGN}, {"&&", tpl.LAND}, {"||", tpl.LOR}, {"<-", tpl.ARROW},
	{"++", tpl.INC}, {"--", tpl.DEC}, {"==", tpl.EQ}, {"!=", tpl.NE}, {"<=", tpl.LE}, {">=", tpl.GE}, {":=", tpl.DEFINE},
	{"+", '+'}, {"-", '-'}, {"*", '*'}, {"/", '/'}, {"%", '%'}, {"&", '&'}, {"|", '|'}, {"^", '^'}, {"<", '<'}, {">", '>'},
	{"=", '='}, {"!", '!'}, {"(", '('}, {"[", '['}, {"{", '{'}, {",", ','}, {".", '.'}, {")", ')'}, {"]", ']'}, {"}", '}'},
	{";", ';'}, {":", ':'}, {"?", '?'}, {"~", '~'}, {"@", '@'},
}

type rlex struct {
	src   []byte
	mode  tpl.ScanMode
	semi  bool
	bad   bool
	badAt int
	i     int
}

func (l *rlex) fail(at int) {
	if !l.bad {
		l.bad, l.badAt = true, at
	}
}

func (l *rlex) at(i int) byte {
	if i < len(l.src) {
		return l.src[i]
	}
	return 0
}

func rDigit(c byte) bool { return '0' <= c && c <= '9' }
func rHex(c byte) bool {
	return '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'
}
func rHexVal(c byte) int {
	switch {
	case c <= '9':
		return int(c - '0')
	case c >= 'a':
		return int(c-'a') + 10
	}
	return int(c-'A') + 10
}

// letter reports the width of the letter (or letter/digit) at i, 0 if there is none
func (l *rlex) letter(i int, digits bool) int {
	if i >= len(l.src) {
		return 0
	}
	c := l.src[i]
	if c < 0x80 {
		if c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || digits && rDigit(c) {
			return 1
		}
		return 0
	}
	r, w := utf8.DecodeRune(l.src[i:])
	if unicode.IsLetter(r) || digits && unicode.IsDigit(r) {
		return w
	}
	return 0
}

// comment returns the end of the comment at i, or -1
func (l *rlex) comment(i int) (end int, nl bool) {
	c := l.at(i)
	if i >= len(l.src) {
		return -1, false
	}
	if c == '#' || c == '/' && i+1 < len(l.src) && l.src[i+1] == '/' {
		j := i
		for j < len(l.src) && l.src[j] != '\n' {
			j++
		}
		return j, true
	}
	if c == '/' && i+1 < len(l.src) && l.src[i+1] == '*' {
		j := i + 2
		for ; j+1 < len(l.src); j++ {
			if l.src[j] == '*' && l.src[j+1] == '/' {
				return j + 2, nl
			}
			if l.src[j] == '\n' {
				nl = true
			}
		}
		for k := i + 2; k < len(l.src); k++ {
			if l.src[k] == '\n' {
				nl = true
			}
		}
		return len(l.src), nl
	}
	return -1, false
}

// lineEnds reports whether only blanks and comments stand between i and the next newline or the end
func (l *rlex) lineEnds(i int) bool {
	for i < len(l.src) {
		switch l.src[i] {
		case '\n':
			return true
		case ' ', '\t', '\r':
			i++
			continue
		}
		e, nl := l.comment(i)
		if e < 0 {
			return false
		}
		if nl {
			return true
		}
		i = e
	}
	return true
}

func noCR(b []byte) string {
	var r []byte
	for _, c := range b {
		if c != '\r' {
			r = append(r, c)
		}
	}
	return string(r)
}

// escape checks the escape sequence whose body starts at i; ok=false when it is malformed
func (l *rlex) escape(i int, quote byte) (end int, ok bool) {
	if i >= len(l.src) {
		return i, false
	}
	c := l.src[i]
	n, base, max := 0, 16, 0
	switch {
	case c == 'a', c == 'b', c == 'f', c == 'n', c == 'r', c == 't', c == 'v', c == '\\', c == quote:
		return i + 1, true
	case '0' <= c && c <= '7':
		n, base, max = 3, 8, 255
		i--
	case c == 'x':
		n, max = 2, 255
	case c == 'u':
		n, max = 4, 0x10ffff
	case c == 'U':
		n, max = 8, 0x10ffff
	default:
		return i, false
	}
	i++
	v := 0
	for ; n > 0; n-- {
		if i >= len(l.src) {
			return i, false
		}
		d := l.src[i]
		if !rHex(d) || rHexVal(d) >= base {
			return i, false
		}
		v = v*base + rHexVal(d)
		i++
	}
	return i, v <= max && !(0xd800 <= v && v < 0xe000)
}

// badRunes notes invalid bytes in the range
func (l *rlex) badRunes(from, to int) {
	for i := from; i < to; {
		c := l.src[i]
		if c == 0 {
			l.fail(i)
		}
		if c < 0x80 {
			i++
			continue
		}
		r, w := utf8.DecodeRune(l.src[i:])
		if r == utf8.RuneError && w == 1 || r == 0xfeff && i > 0 {
			l.fail(i)
		}
		i += w
	}
}

func (l *rlex) next() (t rtok) {
	for {
		for l.i < len(l.src) {
			c := l.src[l.i]
			if !(c == ' ' || c == '\t' || c == '\r' || c == '\n' && !l.semi) {
				break
			}
			l.i++
		}
		if l.semi && l.lineEnds(l.i) {
			l.semi = false
			t = rtok{kind: ';', pos: l.i, end: l.i, lit: "\n", inserted: true}
			if l.i < len(l.src) && l.src[l.i] == '\n' {
				l.i++
				t.end = l.i
			}
			return t
		}
		if l.i >= len(l.src) {
			return rtok{kind: tpl.EOF, pos: l.i, end: l.i}
		}
		e, _ := l.comment(l.i)
		if e < 0 {
			break
		}
		b := l.i
		l.badRunes(b, e)
		if l.src[b] == '/' && l.src[b+1] == '*' && !(e-b >= 4 && l.src[e-1] == '/' && l.src[e-2] == '*') {
			l.fail(b)
		}
		l.i = e
		if l.mode&tpl.ScanComments != 0 {
			l.semi = false
			lit := string(l.src[b:e])
			if l.src[b] == '/' {
				lit = noCR(l.src[b:e])
			}
			return rtok{kind: tpl.COMMENT, pos: b, end: e, lit: lit}
		}
		l.semi = false
	}
	b := l.i
	semi := false
	c := l.src[b]
	t = rtok{pos: b}
	j := b
	isNum := rDigit(c) || c == '.' && b+1 < len(l.src) && rDigit(l.src[b+1])
	switch {
	case l.letter(b, false) > 0:
		for {
			w := l.letter(j, true)
			if w == 0 {
				break
			}
			j += w
		}
		t.kind, semi = tpl.IDENT, true
	case isNum:
		t.kind, semi = tpl.INT, true
		if c == '0' && (l.at(b+1) == 'x' || l.at(b+1) == 'X') {
			j = b + 2
			for j < len(l.src) && rHex(l.src[j]) {
				j++
			}
			if j == b+2 {
				l.fail(b)
			}
			break
		}
		big := false
		for j < len(l.src) && rDigit(l.src[j]) {
			if l.src[j] >= '8' {
				big = true
			}
			j++
		}
		if l.at(j) == '.' {
			t.kind = tpl.FLOAT
			j++
			for j < len(l.src) && rDigit(l.src[j]) {
				j++
			}
		}
		if l.at(j) == 'e' || l.at(j) == 'E' {
			t.kind = tpl.FLOAT
			j++
			if l.at(j) == '+' || l.at(j) == '-' {
				j++
			}
			k := j
			for j < len(l.src) && rDigit(l.src[j]) {
				j++
			}
			if j == k {
				l.fail(b)
			}
		}
		if l.at(j) == 'i' {
			t.kind = tpl.IMAG
			j++
		}
		if t.kind == tpl.INT && c == '0' && big {
			l.fail(b)
		}
	case c == '"':
		t.kind, semi = tpl.STRING, true
		j++
		for {
			if j >= len(l.src) || l.src[j] == '\n' {
				l.fail(b)
				break
			}
			d := l.src[j]
			j++
			if d == '"' {
				break
			}
			if d == '\\' {
				e, ok := l.escape(j, '"')
				if !ok {
					l.fail(j)
				}
				j = e
			}
		}
		l.badRunes(b, j)
	case c == '\'':
		t.kind, semi = tpl.CHAR, true
		j++
		n, ok := 0, true
		for {
			if j >= len(l.src) || l.src[j] == '\n' {
				l.fail(b)
				ok = false
				break
			}
			d := l.src[j]
			w := 1
			if d >= 0x80 {
				_, w = utf8.DecodeRune(l.src[j:])
			}
			j += w
			if d == '\'' {
				break
			}
			n++
			if d == '\\' {
				e, o := l.escape(j, '\'')
				if !o {
					l.fail(j)
					ok = false
				}
				j = e
			}
		}
		if ok && n != 1 {
			l.fail(b)
		}
		l.badRunes(b, j)
	case c == '`':
		t.kind, semi = tpl.STRING, true
		j++
		for {
			if j >= len(l.src) {
				l.fail(b)
				break
			}
			j++
			if l.src[j-1] == '`' {
				break
			}
		}
		l.badRunes(b, j)
		t.end, t.lit = j, noCR(l.src[b:j])
	default:
		for _, op := range opTable {
			n := len(op.s)
			if b+n <= len(l.src) && string(l.src[b:b+n]) == op.s {
				t.kind, j = op.k, b+n
				break
			}
		}
		if t.kind != 0 {
			semi = t.kind == ')' || t.kind == ']' || t.kind == '}' || t.kind == tpl.INC || t.kind == tpl.DEC
			if t.kind == ';' {
				t.lit = ";"
			}
			t.end = j
			break
		}
		r, w := rune(c), 1
		if c >= 0x80 {
			r, w = utf8.DecodeRune(l.src[b:])
		}
		t.kind, t.lit = tpl.ILLEGAL, string(r)
		j = b + w
		t.end = j
		semi = l.semi
		l.fail(b)
	}
	if t.end == 0 {
		t.end, t.lit = j, string(l.src[b:j])
	}
	if l.mode&tpl.InsertSemis != 0 {
		l.semi = semi
	}
	l.i = j
	return t
}

func newRlex(src []byte, mode tpl.ScanMode) *rlex {
	l := &rlex{src: src, mode: mode}
	if len(src) >= 3 && src[0] == 0xef && src[1] == 0xbb && src[2] == 0xbf {
		l.i = 3
	}
	return l
}

// ---- sources ----

func oneOf(b byte, set string) bool {
	r := false
	for i := 0; i < len(set); i++ {
		r = sym.Or(r, b == set[i])
	}
	return r
}

// alpha returns n symbolic bytes, each from set
func alpha(name string, n int, set string) []byte {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(oneOf(c, set))
	}
	return b
}

func cat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

type errRec struct {
	n     int
	first int
}

func newScanner(src []byte, mode tpl.ScanMode) (*tpl.Scanner, *token.File, *errRec) {
	fs := token.NewFileSet()
	f := fs.AddFile("f", fs.Base(), len(src))
	s := new(tpl.Scanner)
	er := &errRec{}
	s.Init(f, src, func(pos token.Position, msg string) {
		if er.n == 0 {
			er.first = pos.Offset
		}
		er.n++
	}, mode)
	return s, f, er
}

// scanned is one full scan of src by the code under test next to the reference.
type scanned struct {
	src  []byte
	mode tpl.ScanMode
	toks []tpl.Token
	offs []int
	ref  []rtok
	lex  *rlex
	er   *errRec
	s    *tpl.Scanner
	f    *token.File
}

func runScan(src []byte, mode tpl.ScanMode) *scanned {
	s, f, er := newScanner(src, mode)
	r := &scanned{src: src, mode: mode, lex: newRlex(src, mode), er: er, s: s, f: f}
	for i := 0; ; i++ {
		sym.Assert(i <= 2*len(src)+2, "scanning reaches the end of the source")
		t := s.Scan()
		r.toks = append(r.toks, t)
		r.offs = append(r.offs, f.Offset(t.Pos))
		if t.Kind == tpl.EOF {
			break
		}
	}
	for i := 0; i <= 2*len(src)+2; i++ {
		t := r.lex.next()
		r.ref = append(r.ref, t)
		if t.kind == tpl.EOF {
			break
		}
	}
	return r
}

// kinds compares kinds, extents and literals with the reference.
func (r *scanned) kinds() {
	for i, t := range r.toks {
		sym.Assert(i < len(r.ref), "more tokens than the lexical grammar yields")
		q := r.ref[i]
		sym.Assert(t.Kind == q.kind, "token kind follows the lexical grammar")
		sym.Assert(r.offs[i] == q.pos, "token position follows the lexical grammar")
		sym.Assert(t.Literal == q.lit, "token literal follows the lexical grammar")
		sym.Observe("k", t.Kind)
	}
	sym.Assert(len(r.toks) == len(r.ref), "fewer tokens than the lexical grammar yields")
	sym.Reach("compared")
}

// errors compares error reporting with the reference.
func (r *scanned) errors() {
	sym.Assert((r.er.n > 0) == r.lex.bad, "an error is reported exactly when the source is malformed")
	sym.Assert(r.s.ErrorCount == r.er.n, "every error reaches the handler and the error count")
	if r.er.n > 0 {
		sym.Assert(r.er.first >= 0 && r.er.first <= len(r.src), "the error position lies in the source")
		sym.Reach("malformed")
	} else {
		for _, t := range r.toks {
			sym.Assert(t.Kind != tpl.ILLEGAL, "an illegal token comes with an error")
		}
		sym.Reach("wellformed")
	}
	m := &tpl.Matcher{ScanMode: r.mode}
	toks, err := m.Tokenize(r.src, "f")
	sym.Assert((err != nil) == r.lex.bad, "Tokenize fails exactly on malformed sources")
	if err == nil {
		sym.Assert(len(toks) == len(r.toks)-1, "Tokenize returns all tokens")
		for i, t := range toks {
			sym.Assert(t.Kind == r.toks[i].Kind && t.Literal == r.toks[i].Literal, "Tokenize returns the scanned tokens")
		}
	}
	sym.Observe("n", r.er.n)
}

// tiles checks that tokens and skipped text make up the source, judged without the reference.
func (r *scanned) tiles() {
	at := 0
	if len(r.src) >= 3 && r.src[0] == 0xef && r.src[1] == 0xbb && r.src[2] == 0xbf {
		at = 3
	}
	for i, t := range r.toks {
		o := r.offs[i]
		sym.Assert(o >= at && o <= len(r.src), "tokens come in source order without overlap")
		r.gap(at, o)
		if t.Kind == tpl.EOF {
			sym.Assert(o == len(r.src), "the last token stands at the end of the source")
			break
		}
		if t.Kind == ';' && t.Literal == "\n" {
			sym.Assert(r.mode&tpl.InsertSemis != 0, "semicolons are inserted only on request")
			at = o
			continue
		}
		e := o
		if t.Literal == "" {
			lit := tpl.Token2Lit(t.Kind)
			sym.Assert(len(lit) > 2 && len(lit) < 6, "a token without literal is an operator")
			e = o + len(lit) - 2
			sym.Assert(e <= len(r.src) && string(r.src[o:e]) == lit[1:len(lit)-1], "the operator spelled in the source is the one reported")
		} else {
			// the literal is the source text, except that carriage returns may be dropped
			// and an undecodable byte is reported as U+FFFD
			if t.Kind == tpl.ILLEGAL && t.Literal == "\ufffd" && !(o+3 <= len(r.src) && string(r.src[o:o+3]) == "\ufffd") {
				e = o + 1
			} else {
				for k := 0; k < len(t.Literal); k++ {
					for e < len(r.src) && r.src[e] == '\r' && t.Literal[k] != '\r' && (r.src[o] == '`' || t.Kind == tpl.COMMENT) {
						e++
					}
					sym.Assert(e < len(r.src) && r.src[e] == t.Literal[k], "the literal is the text of the token")
					e++
				}
				for t.Kind == tpl.COMMENT && e < len(r.src) && r.src[e] == '\r' || r.src[o] == '`' && i < len(r.toks)-1 && e < len(r.src) && r.src[e] == '\r' && r.offs[i+1] > e && !closedRaw(t.Literal) {
					e++
				}
			}
		}
		if e-o == len(t.Literal) || t.Literal == "" {
			sym.Assert(r.f.Offset(t.End()) == e, "End is the position after the token")
		}
		at = e
	}
	sym.Reach("tiled")
}

func closedRaw(lit string) bool { return len(lit) >= 2 && lit[len(lit)-1] == '`' }

// gap checks that src[a:b] holds nothing but blanks and (when they are not tokens) comments.
func (r *scanned) gap(a, b int) {
	for a < b {
		c := r.src[a]
		if c == ' ' || c == '\t' || c == '\r' || c == '\n' {
			a++
			continue
		}
		sym.Assert(r.mode&tpl.ScanComments == 0, "only blanks are skipped when comments are tokens")
		e, _ := r.lex.comment(a)
		sym.Assert(e > a && e <= b, "only blanks and comments are skipped")
		a = e
	}
}

// positions checks line numbers.
func (r *scanned) positions() {
	for i, t := range r.toks {
		line, col := 1, 1
		for k := 0; k < r.offs[i]; k++ {
			col++
			if r.src[k] == '\n' {
				line++
				col = 1
			}
		}
		if r.offs[i] == len(r.src) {
			break // go/token keeps no line that starts at the very end
		}
		p := r.f.Position(t.Pos)
		sym.Assert(p.Line == line, "line number counts the newlines before the token")
		sym.Assert(p.Column == col, "column counts the bytes since the line start")
		sym.Observe("l", p.Line)
	}
	sym.Reach("positions")
}

// ---- families of sources: every string over the alphabet up to the bound ----

type fam struct {
	name string
	pre  []string
	set  string
	n    [2]int // quick, thorough
}

const asciiAll = "" // every byte below 0x80

var scanFams = []fam{
	{"ascii", []string{""}, asciiAll, [2]int{2, 3}},
	{"number", []string{"", "a"}, "0189.eExXfi+-", [2]int{5, 6}},
	{"string", []string{"\"", "'", "`"}, "\"'\\nxuU07fg\n\r`", [2]int{4, 5}},
	{"escape", []string{"\"\\u", "'\\U0", "\"\\U001", "'\\x", "\"\\3"}, "08dDfg\"'", [2]int{5, 6}},
	{"comment", []string{"", "a", "+"}, "/*#\n \ra;", [2]int{5, 6}},
	{"op", []string{""}, "+-*/%&|^<>=!:.", [2]int{4, 4}},
	{"punct", []string{""}, "([{,)]};?~@$a. \n", [2]int{4, 5}},
	{"unicode", []string{"", "a"}, "a \n\xc3\xa9\xc2\x80\xe4\xb8\xad\xef\xbb\xbf\xf0\x9f\xed\xa0\xff\x00\xd9\xaa", [2]int{3, 4}},
}

func (f *fam) source() []byte {
	pre := f.pre[sym.Choice("prefix", len(f.pre))]
	n := sym.Choice("len", 1+sym.Bound(f.name+" bytes", f.n[sym.Tier()]))
	var b []byte
	if f.set == "" {
		b = sym.Bytes("src", n)
		for _, c := range b {
			sym.Assume(c < 0x80)
		}
	} else {
		b = alpha("src", n, f.set)
	}
	return cat([]byte(pre), b)
}

func modeOf(m int) tpl.ScanMode { return tpl.ScanMode(m) }

func S01_ascii()   { runScan(scanFams[0].source(), modeOf(sym.Choice("mode", 2))).kinds() }
func S01_number()  { runScan(scanFams[1].source(), 0).kinds() }
func S01_string()  { runScan(scanFams[2].source(), 0).kinds() }
func S01_escape()  { runScan(scanFams[3].source(), 0).kinds() }
func S01_comment() { runScan(scanFams[4].source(), modeOf(sym.Choice("mode", 2))).kinds() }
func S01_op()      { runScan(scanFams[5].source(), modeOf(sym.Choice("mode", 2))).kinds() }
func S01_punct()   { runScan(scanFams[6].source(), modeOf(sym.Choice("mode", 2))).kinds() }

// letters, digits and other characters of every class, in any order
func S01_classes() {
	set := []string{"é", "ʰ", "中", "ǅ", "𐐀", "٣", "𝟘", "½", "²", "Ⅷ", "\u0301", "‿", "\ufeff", "\u00a0", "\u2028", "\u0085", "ª", "€", "_", "1", "a"}
	n := sym.Bound("characters", 2+sym.Tier())
	src := ""
	for i := 0; i < n; i++ {
		src += set[sym.Choice("char", len(set))]
	}
	runScan([]byte(src), modeOf(sym.Choice("mode", 2))).kinds()
}
func S01_unicode() { runScan(scanFams[7].source(), modeOf(sym.Choice("mode", 2))).kinds() }
