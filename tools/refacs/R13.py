# scanner: numbers without goto, escapes by a table, comments and strings share a loop
checks = "S01 S02 S03 S04 S05 S06 M05"
F = "tpl/scanner.go"
src = open("/repo/" + F).read()
a = src.index("func (s *Scanner) scanNumber("); b = src.index("// scanEscape parses an escape")
num = src[a:b]
c = src.index("func (s *Scanner) scanEscape("); d = src.index("func (s *Scanner) scanRune()")
esc = src[c:d]
e = src.index("func (s *Scanner) scanString()"); f = src.index("func stripCR(")
st = src[e:f]
g = src.index("func (s *Scanner) switch2("); h = src.index("// Scan scans the next token and returns")
sw = src[g:h]
edits = [
(F, num, '''func (s *Scanner) accept(chars string) bool {
	if s.ch < 0 || s.ch >= 0x80 || strings.IndexRune(chars, s.ch) < 0 {
		return false
	}
	s.next()
	return true
}

func (s *Scanner) scanNumber(seenDecimalPoint bool) (tok uint, lit string) {
	offs := s.offset
	if seenDecimalPoint {
		offs--
	}
	defer func() {
		lit = string(s.src[offs:s.offset])
	}()

	tok = INT
	if seenDecimalPoint {
		tok = FLOAT
		s.scanMantissa(10)
		return s.scanExponent(offs, tok), ""
	}
	if s.ch != '0' {
		s.scanMantissa(10)
		return s.scanFraction(offs), ""
	}
	s.next()
	if s.accept("xX") {
		start := s.offset
		s.scanMantissa(16)
		if s.offset == start {
			s.error(offs, "illegal hexadecimal number")
		}
		return
	}
	s.scanMantissa(8)
	octal := !(s.ch == '8' || s.ch == '9')
	s.scanMantissa(10)
	switch s.ch {
	case '.', 'e', 'E', 'i':
		return s.scanFraction(offs), ""
	}
	if !octal {
		s.error(offs, "illegal octal number")
	}
	return
}

func (s *Scanner) scanFraction(offs int) uint {
	tok := INT
	if s.accept(".") {
		tok = FLOAT
		s.scanMantissa(10)
	}
	return s.scanExponent(offs, tok)
}

func (s *Scanner) scanExponent(offs int, tok uint) uint {
	if s.accept("eE") {
		tok = FLOAT
		s.accept("+-")
		if s.ch < '0' || s.ch > '9' {
			s.error(offs, "illegal floating-point exponent")
		}
		s.scanMantissa(10)
	}
	if s.accept("i") {
		tok = IMAG
	}
	return tok
}

'''),
(F, esc, '''func (s *Scanner) scanEscape(quote rune) bool {
	offs := s.offset
	unterminated := func() bool { return s.ch < 0 }

	if s.ch == quote || s.ch > 0 && s.ch < 0x80 && strings.ContainsRune("abfnrtv\\\\", s.ch) {
		s.next()
		return true
	}
	type form struct {
		n    int
		base uint32
		max  uint32
	}
	forms := map[rune]form{'x': {2, 16, 255}, 'u': {4, 16, unicode.MaxRune}, 'U': {8, 16, unicode.MaxRune}}
	f, ok := forms[s.ch]
	switch {
	case ok:
		s.next()
	case '0' <= s.ch && s.ch < '8':
		f = form{3, 8, 255}
	case unterminated():
		s.error(offs, "escape sequence not terminated")
		return false
	default:
		s.error(offs, "unknown escape sequence")
		return false
	}

	x := uint32(0)
	for i := 0; i < f.n; i++ {
		d := uint32(digitVal(s.ch))
		if d >= f.base {
			if unterminated() {
				s.error(s.offset, "escape sequence not terminated")
			} else {
				s.error(s.offset, fmt.Sprintf("illegal character %#U in escape sequence", s.ch))
			}
			return false
		}
		x *= f.base
		x += d
		s.next()
	}
	surrogate := x >= 0xD800 && x <= 0xDFFF
	if x <= f.max && !surrogate {
		return true
	}
	s.error(offs, "escape sequence is invalid Unicode code point")
	return false
}

'''),
(F, st, '''func (s *Scanner) scanString() string {
	// '"' opening already consumed
	start := s.offset - 1
	closed := false
	for !closed && s.ch != '\\n' && s.ch >= 0 {
		ch := s.ch
		s.next()
		switch ch {
		case '"':
			closed = true
		case '\\\\':
			s.scanEscape('"')
		}
	}
	if !closed {
		s.error(start, "string literal not terminated")
	}
	return string(s.src[start:s.offset])
}

'''),
(F, sw, '''func (s *Scanner) got(ch rune) bool {
	ok := s.ch == ch
	if ok {
		s.next()
	}
	return ok
}

func (s *Scanner) switch2(tok0, tok1 uint) (tok uint) {
	if tok = tok0; s.got('=') {
		tok = tok1
	}
	return
}

func (s *Scanner) switch3(tok0, tok1 uint, ch2 rune, tok2 uint) uint {
	switch {
	case s.got('='):
		return tok1
	case s.got(ch2):
		return tok2
	default:
		return tok0
	}
}

func (s *Scanner) switch4(tok0, tok1 uint, ch2 rune, tok2, tok3 uint) uint {
	tok := s.switch3(tok0, tok1, ch2, tok2)
	if tok == tok2 {
		tok = s.switch2(tok2, tok3)
	}
	return tok
}

'''),
(F, '''	"strconv"
	"unicode"
''', '''	"strconv"
	"strings"
	"unicode"
'''),
]
