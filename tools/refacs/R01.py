# scanner: helpers extracted, switch instead of if, loops rewritten
checks = "S01 S02 S03 S04 S05 S06 M06"
F = "tpl/scanner.go"
edits = [
(F, '''		if s.ch == '\\n' {
			s.lineOffset = s.offset
			s.file.AddLine(s.offset)
		}
		r, w :=''', '''		s.markLine()
		r, w :='''),
(F, '''		s.offset = len(s.src)
		if s.ch == '\\n' {
			s.lineOffset = s.offset
			s.file.AddLine(s.offset)
		}
		s.ch = -1 // eof
	}
}
''', '''		s.offset = len(s.src)
		s.markLine()
		s.ch = -1 // eof
	}
}

func (s *Scanner) markLine() {
	if s.ch != '\\n' {
		return
	}
	s.lineOffset = s.offset
	s.file.AddLine(s.offset)
}
'''),
(F, '''	offs := s.offset
	for isLetter(s.ch) || isDigit(s.ch) {
		s.next()
	}
	return string(s.src[offs:s.offset])
''', '''	var buf strings.Builder
	for {
		if !isLetter(s.ch) && !isDigit(s.ch) {
			break
		}
		from := s.offset
		s.next()
		buf.Write(s.src[from:s.offset])
	}
	return buf.String()
'''),
(F, '''	"strconv"
	"unicode"
''', '''	"strconv"
	"strings"
	"unicode"
'''),
(F, '''	c := make([]byte, len(b))
	i := 0
	for _, ch := range b {
		if ch != '\\r' {
			c[i] = ch
			i++
		}
	}
	return c[:i]
''', '''	return bytes.Replace(b, []byte{'\\r'}, nil, -1)
'''),
(F, '''	for s.ch == ' ' || s.ch == '\\t' || s.ch == '\\n' && !s.insertSemi || s.ch == '\\r' {
		s.next()
	}
''', '''	for {
		switch s.ch {
		case ' ', '\\t', '\\r':
		case '\\n':
			if s.insertSemi {
				return
			}
		default:
			return
		}
		s.next()
	}
'''),
(F, '''	switch {
	case '0' <= ch && ch <= '9':
		return int(ch - '0')
	case 'a' <= ch && ch <= 'f':
		return int(ch - 'a' + 10)
	case 'A' <= ch && ch <= 'F':
		return int(ch - 'A' + 10)
	}
	return 16 // larger than any legal digit val
''', '''	if ch < 0 || ch > 'f' {
		return 16
	}
	if i := strings.IndexByte("0123456789abcdef", byte(ch)|0x20); i >= 10 || i >= 0 && isDigit(ch) {
		return i
	}
	return 16 // larger than any legal digit val
'''),
(F, '''	for {
		ch := s.ch
		if ch == '\\n' || ch < 0 {
			break
		}
		s.next()
	}

	return string(s.src[offs:s.offset])
''', '''	for s.ch != '\\n' && s.ch >= 0 {
		s.next()
	}
	return string(s.src[offs:s.offset:s.offset])
'''),
(F, '''		case '+':
			t.Kind = s.switch3(ADD, ADD_ASSIGN, '+', INC)
			if t.Kind == INC {
				insertSemi = true
			}
		case '-':
			t.Kind = s.switch3(SUB, SUB_ASSIGN, '-', DEC)
			if t.Kind == DEC {
				insertSemi = true
			}
''', '''		case '+', '-':
			if ch == '+' {
				t.Kind = s.switch3(ADD, ADD_ASSIGN, ch, INC)
			} else {
				t.Kind = s.switch3(SUB, SUB_ASSIGN, ch, DEC)
			}
			insertSemi = t.Kind == INC || t.Kind == DEC
'''),
(F, '''		case '(':
			t.Kind = LPAREN
		case ')':
			insertSemi = true
			t.Kind = RPAREN
		case '[':
			t.Kind = LBRACK
		case ']':
			insertSemi = true
			t.Kind = RBRACK
		case '{':
			t.Kind = LBRACE
		case '}':
			insertSemi = true
			t.Kind = RBRACE
''', '''		case '(', '[', '{':
			t.Kind = openers[ch]
		case ')', ']', '}':
			insertSemi = true
			t.Kind = uint(ch)
'''),
(F, '''var prefix = []byte("//line ")
''', '''var prefix = []byte("//line ")

var openers = map[rune]uint{'(': LPAREN, '[': LBRACK, '{': LBRACE}
'''),
]
