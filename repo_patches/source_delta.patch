From 2fae0d4db2a837b5eabd1f31d21d22e913eb01b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 01/37] fix: scanner: scan '..' as two periods instead of a
 silent ILLEGAL token

---
 tpl/scanner.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 90bf6e8..9a86389 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -668,12 +668,10 @@ scanAgain:
 			if '0' <= s.ch && s.ch <= '9' {
 				insertSemi = true
 				t.Kind, t.Literal = s.scanNumber(true)
-			} else if s.ch == '.' {
+			} else if s.ch == '.' && s.rdOffset < len(s.src) && s.src[s.rdOffset] == '.' {
 				s.next()
-				if s.ch == '.' {
-					s.next()
-					t.Kind = ELLIPSIS
-				}
+				s.next()
+				t.Kind = ELLIPSIS
 			} else {
 				t.Kind = PERIOD
 			}
-- 
2.43.0


From 405f2f0fe82878611824f4fb33785d23b11c5b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 02/37] fix: scanner: report a number whose exponent has no
 digits

---
 tpl/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 9a86389..fb7a8b6 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -358,6 +358,9 @@ exponent:
 		if s.ch == '-' || s.ch == '+' {
 			s.next()
 		}
+		if digitVal(s.ch) >= 10 {
+			s.error(offs, "illegal floating-point exponent")
+		}
 		s.scanMantissa(10)
 	}
 
-- 
2.43.0


From 0d1e3eeaf6f9ac95372f21f807b829e64b64bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 03/37] fix: scanner: a '#' comment ends the line for semicolon
 insertion

---
 tpl/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index fb7a8b6..239cce8 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -250,7 +250,7 @@ func (s *Scanner) findLineEnd() bool {
 			}
 		}
 		s.skipWhitespace() // s.insertSemi is set
-		if s.ch < 0 || s.ch == '\n' {
+		if s.ch < 0 || s.ch == '\n' || s.ch == '#' {
 			return true
 		}
 		if s.ch != '/' {
-- 
2.43.0


From c5f2ca573205be6f82ca643d6e74bc23a33a8f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 04/37] fix: TokenLen of kinds that are not operators

---
 tpl/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/token.go b/tpl/token.go
index 6f09c1a..f145600 100644
--- a/tpl/token.go
+++ b/tpl/token.go
@@ -167,7 +167,7 @@ var tokens = [...]string{
 // 2) 0 for else.
 //
 func TokenLen(tok uint) int {
-	if tok > ' ' && tok <= uint(len(tokens)) {
+	if tok > ' ' && tok < uint(len(tokens)) && tokens[tok] != "" {
 		return len(tokens[tok]) - 2
 	}
 	return 0
-- 
2.43.0


From fc58f67cfee4ab57d7cfcb4dfb10ee3df4605ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 05/37] fix: Token.End of an explicit semicolon

---
 tpl/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 239cce8..530080d 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -20,7 +20,11 @@ type Token struct {
 
 // End returns end position of this token.
 func (p *Token) End() token.Pos {
-	return p.Pos + token.Pos(len(p.Literal)+TokenLen(p.Kind))
+	n := len(p.Literal)
+	if n == 0 { // operator
+		n = TokenLen(p.Kind)
+	}
+	return p.Pos + token.Pos(n)
 }
 
 // An ScanErrorHandler may be provided to Scanner.Init. If a syntax error is
-- 
2.43.0


From 7d790613148003bb2101097477fdd0496077b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 06/37] fix: MatchError.Error panics when the error is at the
 end of the source

---
 tpl/grammar.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index cd5b591..89ddc25 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -130,7 +130,10 @@ func calcErrorInfo(doc []Token, idxErr int, t Tokener) (line int, text []byte) {
 	s := t.Source()
 	start := s.File.Offset(doc[0].Pos)
 	end := s.File.Offset(doc[n].Pos)
-	errpos := s.File.Offset(doc[idxErr+1].Pos)
+	errpos := end
+	if idxErr < n {
+		errpos = s.File.Offset(doc[idxErr+1].Pos)
+	}
 	all := s.Src[start:end]
 	text = nextLines(all, 9)
 	if len(text) < errpos-start {
-- 
2.43.0


From 465bfdd4c7924eed0f9e089b0ad58a7428d56ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 07/37] fix: repetitions of a grammar that matches nothing loop
 forever

---
 tpl/grammar.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 89ddc25..0bd0fbb 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -417,6 +417,10 @@ func (p *grRepeat0) Match(src []Token, ctx Context) (n int, err error) {
 		len++
 		n += n1
 		src = src[n1:]
+		if n1 == 0 { // no progress
+			p.len = len
+			return
+		}
 	}
 }
 
@@ -448,6 +452,10 @@ func (p *grRepeat1) Match(src []Token, ctx Context) (n int, err error) {
 		p.len = 0
 		return
 	}
+	if n == 0 { // no progress
+		p.len = 1
+		return
+	}
 
 	r2 := grRepeat0{p.g, 0}
 	n2, _ := r2.Match(src[n:], ctx)
@@ -534,6 +542,10 @@ func (p *grList) Match(src []Token, ctx Context) (n int, err error) {
 		len++
 		n += n1
 		src = src[n1:]
+		if n1 == 0 { // no progress
+			p.len = len
+			return
+		}
 	}
 }
 
-- 
2.43.0


From f94f62eba4071e999a5ab200101706df215625d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 08/37] fix: EOF in a grammar compiles to a rule that never
 matches

---
 tpl/compiler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 5e2b0ab..4143f69 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -232,7 +232,11 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 			if tok == ILLEGAL {
 				panic("illegal token: " + name)
 			}
-			g = Gr(tok)
+			if tok == EOF {
+				g = GrEOF
+			} else {
+				g = Gr(tok)
+			}
 		} else {
 			if g2, ok := grammars[name]; ok {
 				g = Named(name, g2)
-- 
2.43.0


From d01417456152fe92e53870d08b792a3646f56af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 09/37] fix: rules that are referenced before their definition
 are not found by name

---
 tpl/compiler.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 4143f69..6a71e83 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -77,7 +77,11 @@ type CompileRet struct {
 func (p CompileRet) EvalSub(name string, src interface{}) error {
 	g, ok := p.Grammars[name]
 	if !ok {
-		return ErrNoGrammar
+		v, isVar := p.Vars[name]
+		if !isVar {
+			return ErrNoGrammar
+		}
+		g = v
 	}
 
 	var text []byte
@@ -342,7 +346,13 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 		return
 	}
 
-	if root, ok := grammars["doc"]; ok {
+	root, ok := grammars["doc"]
+	if !ok {
+		if v, isVar := vars["doc"]; isVar && v.Elem != nil {
+			root, ok = v, true
+		}
+	}
+	if ok {
 		for name, v := range vars {
 			if v.Elem == nil {
 				err = fmt.Errorf("variable `%s` is not assigned", name)
-- 
2.43.0


From 507db258f22c1634c2831095a80e456e937553a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 10/37] fix: EvalSub reports unmatched tokens at the position
 of the matched ones

---
 tpl/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 6a71e83..2f9fa6b 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -95,7 +95,7 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 			return err
 		}
 		if len(doc) != matched {
-			return &MatchError{GrEOF, p.Matcher, doc, nil, 0}
+			return &MatchError{GrEOF, p.Matcher, doc[matched:], nil, 0}
 		}
 		return nil
 	case []byte:
-- 
2.43.0


From b5b467e9141f28adac67de78d31858639688e09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 11/37] fix: Code of a grammar does not compile back to the
 same grammar

---
 tpl/grammar.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 0bd0fbb..892510c 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -315,12 +315,13 @@ func (p *grAnd) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 		b = append(b, '(')
 	}
 	for i, g := range p.gs {
-		if g == nil {
-			continue
-		}
 		if i > 0 {
 			b = append(b, ' ')
 		}
+		if g == nil {
+			b = append(b, '!')
+			continue
+		}
 		b = g.Marshal(b, t, lvlAnd)
 	}
 	if lvlParent > lvlAnd {
@@ -466,7 +467,11 @@ func (p *grRepeat1) Match(src []Token, ctx Context) (n int, err error) {
 
 func (p *grRepeat1) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 	b = append(b, '+')
-	return p.g.Marshal(b, t, lvlRepeat)
+	g := p.g.Marshal(nil, t, lvlRepeat)
+	if len(g) > 0 && g[0] == '+' { // "++" is another token
+		b = append(b, ' ')
+	}
+	return append(b, g...)
 }
 
 // Repeat1 represents +G
@@ -559,7 +564,7 @@ func (p *grList) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 		b = append(b, '=')
 	}
 	b = append(b, ' ')
-	b = p.b.Marshal(b, t, lvlList)
+	b = p.b.Marshal(b, t, lvlList+1)
 	if lvlParent > lvlList {
 		b = append(b, ')')
 	}
-- 
2.43.0


From c4f2de8687d5a4f0af8154ab85d34c7925e3c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:17 +0000
Subject: [PATCH 12/37] fix: EvalSub over source text does not run the Init
 hook

---
 tpl/compiler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 2f9fa6b..ef54d4a 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -110,6 +110,7 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		Grammar:  g,
 		Scanner:  p.Scanner,
 		ScanMode: p.ScanMode,
+		Init:     p.Init,
 	}
 	return m.MatchExactly(text, "")
 }
-- 
2.43.0


From 9d0e6da43fed90b250a98e107ccc6d9ef1a03651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 13/37] fix: a '!' that is alone in a sequence compiles to a
 nil grammar

---
 tpl/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index ef54d4a..2d3ff55 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -195,10 +195,10 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 
 	and := func(tokens []Token, g Grammar) {
 		m := g.Len()
-		if m == 1 {
+		n := len(stk)
+		if m == 1 && stk[n-1] != nil { // a '!' alone is a sequence, too
 			return
 		}
-		n := len(stk)
 		stk[n-m] = And(Clone(stk[n-m:])...)
 		stk = stk[:n-m+1]
 	}
-- 
2.43.0


From 691c61bab0182a96fce43febd40b028fdd3266f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 14/37] fix: ParseFloat reads an octal number that is out of
 range as a decimal one

---
 tpl/interpreter/interpreter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpl/interpreter/interpreter.go b/tpl/interpreter/interpreter.go
index 0a4ed46..4cfda75 100644
--- a/tpl/interpreter/interpreter.go
+++ b/tpl/interpreter/interpreter.go
@@ -53,6 +53,9 @@ func ParseFloat(lit string) (v float64, err error) {
 			if err1 == nil {
 				return float64(v1), nil
 			}
+			if e, ok := err1.(*strconv.NumError); ok && e.Err == strconv.ErrRange {
+				return float64(v1), err1
+			}
 		}
 	}
 	return strconv.ParseFloat(lit, 64)
-- 
2.43.0


From dfa16ce5b0501257d4d85bc3e53b21bace7507b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 15/37] fix: rat reads octal numbers as decimal ones

---
 tpl/rat/big.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpl/rat/big.go b/tpl/rat/big.go
index 43a8db0..0e8e6e5 100644
--- a/tpl/rat/big.go
+++ b/tpl/rat/big.go
@@ -131,6 +131,10 @@ func (stk *Stack) PushInt(v int64) {
 
 func (stk *Stack) PushString(v string) { // 这个v可以很大，超出int64范围
 
+	if n, ok := new(big.Int).SetString(v, 0); ok { // 0 开头是八进制，0x 开头是十六进制
+		*stk = append(*stk, new(big.Rat).SetInt(n))
+		return
+	}
 	val, _ := new(big.Rat).SetString(v)
 	*stk = append(*stk, val)
 }
-- 
2.43.0


From 86492e95faf63f3b7bbe21f9aa02db920329bef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 16/37] fix: stack of a script is not cleared after an error in
 a nested block

---
 tpl/qlang/cl/ctrl.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpl/qlang/cl/ctrl.go b/tpl/qlang/cl/ctrl.go
index bc39e31..08a5339 100644
--- a/tpl/qlang/cl/ctrl.go
+++ b/tpl/qlang/cl/ctrl.go
@@ -187,9 +187,10 @@ func evalCode(e interpreter.Engine, p *Interpreter, name string, code interface{
 
 	old := p.base
 	p.base = p.stk.BaseFrame()
-	err := e.EvalCode(p, name, code)
-	p.base = old
-	if err != nil {
+	defer func() { // code may panic
+		p.base = old
+	}()
+	if err := e.EvalCode(p, name, code); err != nil {
 		panic(err)
 	}
 }
-- 
2.43.0


From 442f9ada44763efcaecedfe959ea2dd33f093756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 17/37] fix: a deferred expression that fails or returns ends
 the caller, and leaves its value on the stack

---
 tpl/qlang/cl/function.go | 25 +++++++++++++++++++++----
 tpl/qlang/engine.go      |  4 +++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index e8066e9..65ce868 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -288,7 +288,11 @@ func (p *Interpreter) Return(e interpreter.Engine) {
 		panic(ErrReturn) // 利用 panic 来实现 return (正常退出)
 	}
 
+	p.Recov = nil
 	p.ExecDefers(e)
+	if p.Recov != nil {
+		panic(p.Recov)
+	}
 
 	if p.ret == nil {
 		os.Exit(0)
@@ -301,12 +305,25 @@ func (p *Interpreter) Return(e interpreter.Engine) {
 
 func (p *Interpreter) ExecDefers(e interpreter.Engine) {
 
-	for d := p.defers; d != nil; d = d.next {
-		if err := e.EvalCode(p, "expr", d.src); err != nil {
-			panic(err)
+	for p.defers != nil {
+		d := p.defers
+		p.defers = d.next
+		p.execDefer(e, d.src)
+	}
+}
+
+func (p *Interpreter) execDefer(e interpreter.Engine, src interface{}) {
+
+	base := p.stk.BaseFrame()
+	defer func() {
+		if e := recover(); e != nil && e != ErrReturn {
+			p.Recov = e
 		}
+		p.stk.SetFrame(base)
+	}()
+	if err := e.EvalCode(p, "expr", src); err != nil {
+		panic(err)
 	}
-	p.defers = nil
 }
 
 func (p *Interpreter) Defer() {
diff --git a/tpl/qlang/engine.go b/tpl/qlang/engine.go
index dfd43b5..b09a62e 100644
--- a/tpl/qlang/engine.go
+++ b/tpl/qlang/engine.go
@@ -42,7 +42,9 @@ func (p Qlang) SafeExec(code []byte, fname string) (err error) {
 	defer func() {
 		p.Recov = recover()
 		p.ExecDefers(p.Engine)
-		if e := p.Recov; e != nil {
+		e := p.Recov
+		p.Recov = nil
+		if e != nil {
 			switch v := e.(type) {
 			case string:
 				err = errors.New(v)
-- 
2.43.0


From bc7bd76e7f532d17b8a5071ee23b1e987b8734ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 18/37] fix: set cannot store nil in a slice

---
 tpl/qlang/lib/builtin/builtin.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/qlang/lib/builtin/builtin.go b/tpl/qlang/lib/builtin/builtin.go
index f3a75ef..65cea5c 100644
--- a/tpl/qlang/lib/builtin/builtin.go
+++ b/tpl/qlang/lib/builtin/builtin.go
@@ -139,7 +139,11 @@ func Set(m interface{}, args ...interface{}) {
 		}
 	case reflect.Slice:
 		for i := 0; i < n; i += 2 {
-			o.Index(args[i].(int)).Set(reflect.ValueOf(args[i+1]))
+			val := reflect.ValueOf(args[i+1])
+			if args[i+1] == nil {
+				val = reflect.Zero(o.Type().Elem())
+			}
+			o.Index(args[i].(int)).Set(val)
 		}
 	default:
 		qlang.Set(m, args...)
-- 
2.43.0


From 110b9d8e7ef71d7c38fbb70620921cae2801db42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 19/37] fix: extractor loses elements of an array if other
 marks lie between

---
 tpl/extractor/document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpl/extractor/document.go b/tpl/extractor/document.go
index e063485..2bd0f71 100644
--- a/tpl/extractor/document.go
+++ b/tpl/extractor/document.go
@@ -75,6 +75,9 @@ func (p *Node) toMap() map[string]interface{} {
 				items[i] = hd.val.(*Node).toMap()
 				hd = hd.tail
 			}
+			if rest, ok := data[tag].([]map[string]interface{}); ok { // other marks lie between
+				items = append(items, rest...)
+			}
 			v = items
 		case cateLeafArray:
 			n := arrayCollect(hd)
@@ -83,6 +86,9 @@ func (p *Node) toMap() map[string]interface{} {
 				items[i] = hd.val
 				hd = hd.tail
 			}
+			if rest, ok := data[tag].([]interface{}); ok { // other marks lie between
+				items = append(items, rest...)
+			}
 			v = items
 		default:
 			panic("unknown node category")
-- 
2.43.0


From f4ed750cefe6064587850e85bbddf877100fd22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 20/37] fix: generated code of + does not compile

---
 tpl/generator/static_parser_gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 1b8ab9f..3b8fd52 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -129,7 +129,7 @@ func GenStaticCode(source string) (string, error) {
 	repeat1 := func(tokens []tpl.Token, g tpl.Grammar) {
 		n := len(stk)
 		a := stk[n-1]
-		stk[n-1] = fmt.Sprintf("tpl.tpl.Repeat1(%s)", a)
+		stk[n-1] = fmt.Sprintf("tpl.Repeat1(%s)", a)
 	}
 
 	repeat01 := func(tokens []tpl.Token, g tpl.Grammar) {
-- 
2.43.0


From 653b161e36bb93b28c2a70938e2bf2f8d50960bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 21/37] fix: generated code of rules that are used before their
 definition does not compile

---
 tpl/generator/static_parser_gen.go | 38 ++++++++++++++++++------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 3b8fd52..fe7a6ee 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -53,8 +53,11 @@ func GenStaticCode(source string) (string, error) {
 		n := len(stk)
 		a := stk[n-1]
 		name := tokens[0].Literal
-		if _, ok := vars[name]; ok {
-			vars[name] = fmt.Sprintf("%s.Assign(%s)", name, a)
+		if v, ok := vars[name]; ok {
+			if v != "" {
+				panic("grammar already exists: " + name)
+			}
+			vars[name] = a
 		} else if _, ok := grammars[name]; ok {
 			panic("grammar already exists: " + name)
 		} else {
@@ -77,16 +80,14 @@ func GenStaticCode(source string) (string, error) {
 				s = fmt.Sprintf("tpl.Gr(tpl.%s)", name)
 			}
 		} else {
-			_, ok := grammars[name]
-			if ok {
-				s = name
-			} else if s, ok = vars[name]; !ok {
-				if name == "true" {
-					vars[name] = "tpl.GrTrue"
-					s = "tpl.GrTrue"
-				} else {
-					vars[name] = name
-					s = name
+			s = name
+			if _, ok := grammars[name]; !ok {
+				if _, ok = vars[name]; !ok {
+					if name == "true" {
+						s = "tpl.GrTrue"
+					} else {
+						vars[name] = "" // not assigned
+					}
 				}
 			}
 		}
@@ -193,15 +194,22 @@ func GenStaticCode(source string) (string, error) {
 		assignments  string
 	)
 	for k, v := range vars {
-		declarations += fmt.Sprintf("%s = new(tpl.GrVar)\n", k)
-		assignments += fmt.Sprintf("// GrVar %s\n%s\n", k, v)
+		if v == "" {
+			return "", fmt.Errorf("variable `%s` is not assigned", k)
+		}
+		declarations += fmt.Sprintf("%s = tpl.Var(\"%s\")\n", k, k)
+		assignments += fmt.Sprintf("// GrVar %s\n%s.Assign(%s)\n", k, k, v)
 	}
 	for k, v := range grammars {
 		declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\n", k)
 		assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, v)
 	}
 	declarations += ")\n"
-	if _, ok := grammars["doc"]; ok {
+	_, ok := grammars["doc"]
+	if !ok {
+		_, ok = vars["doc"]
+	}
+	if ok {
 		output := fmt.Sprintf("\n"+
 			"type StaticCompiler struct {\n"+
 			"	Grammar  string\n"+
-- 
2.43.0


From b11d6ab9ffe8d7c1be02a293f7995a1a396da1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 22/37] fix: generated code of EOF never matches

---
 tpl/generator/static_parser_gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index fe7a6ee..ceca70f 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -74,8 +74,8 @@ func GenStaticCode(source string) (string, error) {
 			if tok == tpl.ILLEGAL {
 				panic("illegal token: " + name)
 			}
-			if strings.HasPrefix(name, "'") {
-				s = fmt.Sprintf("tpl.Gr(%s)", name)
+			if tok == tpl.EOF {
+				s = "tpl.GrEOF"
 			} else {
 				s = fmt.Sprintf("tpl.Gr(tpl.%s)", name)
 			}
-- 
2.43.0


From 029ce76871ccfa8ba8c25065c5035ab63f48b7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 23/37] fix: generated code of an operator or keyword in double
 quotes matches any string

---
 tpl/compiler.go                    | 3 +++
 tpl/generator/static_parser_gen.go | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 2d3ff55..9546558 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -57,6 +57,9 @@ func (p *AutoKwScanner) Ltot(lit string) (tok uint) { // "keyword"
 		if tok, ok := p.keywords[kw]; ok {
 			return tok
 		}
+		if p.keywords == nil { // not initialized yet
+			p.keywords = make(map[string]uint)
+		}
 		tok = USER_TOKEN_BEGIN + uint(len(p.tokens))
 		p.keywords[kw] = tok
 		p.tokens = append(p.tokens, lit)
diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index ceca70f..8232af1 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -2,6 +2,7 @@ package generator
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/qiniu/text/tpl"
@@ -108,7 +109,7 @@ func GenStaticCode(source string) (string, error) {
 		if tok == tpl.ILLEGAL {
 			panic("illegal token: " + name)
 		}
-		stk = append(stk, "tpl.Gr(tpl.STRING)")
+		stk = append(stk, fmt.Sprintf("tpl.Gr(cmplr.Scanner.Ltot(%s))", strconv.Quote(name)))
 	}
 	grTrue := func(tokens []tpl.Token, g tpl.Grammar) {
 		if tokens[0].Literal != "1" {
@@ -219,6 +220,9 @@ func GenStaticCode(source string) (string, error) {
 			"	ScanMode tpl.ScanMode\n"+
 			"}\n"+
 			"func(cmplr *StaticCompiler)Cl()tpl.CompileRet{\n"+
+			"if cmplr.Scanner == nil {\n"+
+			"	cmplr.Scanner = new(tpl.AutoKwScanner)\n"+
+			"}\n"+
 			"%s"+
 			"%s"+
 			"ret := tpl.CompileRet{}\n"+
-- 
2.43.0


From 0831f1cae2d6e1f448e7b4db325f869c524610a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 24/37] fix: generated compiler ignores the scan mode

---
 tpl/generator/static_parser_gen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 8232af1..a724110 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -229,6 +229,7 @@ func GenStaticCode(source string) (string, error) {
 			"ret.Matcher = &tpl.Matcher{\n"+
 			"		Grammar: doc,\n"+
 			"		Scanner: cmplr.Scanner,\n"+
+			"		ScanMode: cmplr.ScanMode,\n"+
 			"		Init: cmplr.Init,\n"+
 			"	}\n"+
 			"return ret}\n",
-- 
2.43.0


From cee6c8a759e9648143b32ff5fb2299bca0464c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 25/37] fix: generated code of a sequence of ! alone panics

---
 tpl/generator/static_parser_gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index a724110..9dc54a1 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -34,10 +34,10 @@ func GenStaticCode(source string) (string, error) {
 	}
 	and := func(tokens []tpl.Token, g tpl.Grammar) {
 		m := g.Len()
-		if m == 1 {
+		n := len(stk)
+		if m == 1 && stk[n-1] != "nil" { // a '!' alone is a sequence, too
 			return
 		}
-		n := len(stk)
 		stk[n-m] = fmt.Sprintf("tpl.And(%s)", strings.Join(stk[n-m:], ","))
 		stk = stk[:n-m+1]
 	}
-- 
2.43.0


From a6fbf4b5011b1f4fa2aa406d546e23ea25e23739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 26/37] fix: generated code is in random order

---
 tpl/generator/static_parser_gen.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 9dc54a1..da4d1af 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -11,6 +11,7 @@ import (
 // GenStaticCode 生成StaticCompiler的Cl() method.
 func GenStaticCode(source string) (string, error) {
 	var stk []string
+	var names []string // in order of definition
 	grammars := make(map[string]string)
 	vars := make(map[string]string)
 	scanner := new(tpl.AutoKwScanner)
@@ -64,6 +65,7 @@ func GenStaticCode(source string) (string, error) {
 		} else {
 			grammars[name] = a
 		}
+		names = append(names, name)
 		stk = stk[:n-1]
 	}
 	ident := func(tokens []tpl.Token, g tpl.Grammar) {
@@ -198,12 +200,15 @@ func GenStaticCode(source string) (string, error) {
 		if v == "" {
 			return "", fmt.Errorf("variable `%s` is not assigned", k)
 		}
-		declarations += fmt.Sprintf("%s = tpl.Var(\"%s\")\n", k, k)
-		assignments += fmt.Sprintf("// GrVar %s\n%s.Assign(%s)\n", k, k, v)
 	}
-	for k, v := range grammars {
-		declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\n", k)
-		assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, v)
+	for _, k := range names {
+		if v, ok := vars[k]; ok {
+			declarations += fmt.Sprintf("%s = tpl.Var(\"%s\")\n", k, k)
+			assignments += fmt.Sprintf("// GrVar %s\n%s.Assign(%s)\n", k, k, v)
+		} else {
+			declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\n", k)
+			assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, grammars[k])
+		}
 	}
 	declarations += ")\n"
 	_, ok := grammars["doc"]
-- 
2.43.0


From 3ce721130bad71163690460f8cfff0572c708cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 27/37] fix: rules of a generated compiler are not found by
 EvalSub

---
 tpl/generator/static_parser_gen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index da4d1af..c38207c 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -195,6 +195,7 @@ func GenStaticCode(source string) (string, error) {
 	var (
 		declarations string = "var (\n"
 		assignments  string
+		rules        string
 	)
 	for k, v := range vars {
 		if v == "" {
@@ -209,6 +210,7 @@ func GenStaticCode(source string) (string, error) {
 			declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\n", k)
 			assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, grammars[k])
 		}
+		rules += fmt.Sprintf("\"%s\": %s,\n", k, k)
 	}
 	declarations += ")\n"
 	_, ok := grammars["doc"]
@@ -237,9 +239,13 @@ func GenStaticCode(source string) (string, error) {
 			"		ScanMode: cmplr.ScanMode,\n"+
 			"		Init: cmplr.Init,\n"+
 			"	}\n"+
+			"ret.Grammars = map[string]tpl.Grammar{\n"+
+			"%s"+
+			"}\n"+
 			"return ret}\n",
 			declarations,
 			assignments,
+			rules,
 		)
 		return output, nil
 	}
-- 
2.43.0


From ccc20b1f8fb06b9c0336dd4588464bbb31e593aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 28/37] fix: generated compiler without a marker panics

---
 tpl/generator/static_parser_gen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index c38207c..6d74ecc 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -227,6 +227,9 @@ func GenStaticCode(source string) (string, error) {
 			"	ScanMode tpl.ScanMode\n"+
 			"}\n"+
 			"func(cmplr *StaticCompiler)Cl()tpl.CompileRet{\n"+
+			"if cmplr.Marker == nil {\n"+
+			"	cmplr.Marker = func(g tpl.Grammar, mark string) tpl.Grammar { return g }\n"+
+			"}\n"+
 			"if cmplr.Scanner == nil {\n"+
 			"	cmplr.Scanner = new(tpl.AutoKwScanner)\n"+
 			"}\n"+
-- 
2.43.0


From deaf64ab3c4f31f34fae1ca979e76a84ea10b1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 29/37] fix: generated code of rules with names that mean
 something in Go does not compile

---
 tpl/generator/static_parser_gen.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 6d74ecc..8210296 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -2,12 +2,25 @@ package generator
 
 import (
 	"fmt"
+	"go/token"
 	"strconv"
 	"strings"
 
 	"github.com/qiniu/text/tpl"
 )
 
+// goName returns the Go variable of a rule. Rules cannot start with an uppercase letter.
+func goName(name string) string {
+	switch name {
+	case "_", "cmplr", "new", "nil", "ret", "string", "tpl", "true":
+		return "Gr_" + name
+	}
+	if token.IsKeyword(name) {
+		return "Gr_" + name
+	}
+	return name
+}
+
 // GenStaticCode 生成StaticCompiler的Cl() method.
 func GenStaticCode(source string) (string, error) {
 	var stk []string
@@ -83,7 +96,7 @@ func GenStaticCode(source string) (string, error) {
 				s = fmt.Sprintf("tpl.Gr(tpl.%s)", name)
 			}
 		} else {
-			s = name
+			s = goName(name)
 			if _, ok := grammars[name]; !ok {
 				if _, ok = vars[name]; !ok {
 					if name == "true" {
@@ -203,14 +216,15 @@ func GenStaticCode(source string) (string, error) {
 		}
 	}
 	for _, k := range names {
+		x := goName(k)
 		if v, ok := vars[k]; ok {
-			declarations += fmt.Sprintf("%s = tpl.Var(\"%s\")\n", k, k)
-			assignments += fmt.Sprintf("// GrVar %s\n%s.Assign(%s)\n", k, k, v)
+			declarations += fmt.Sprintf("%s = tpl.Var(\"%s\")\n", x, k)
+			assignments += fmt.Sprintf("// GrVar %s\n%s.Assign(%s)\n", k, x, v)
 		} else {
-			declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\n", k)
-			assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, grammars[k])
+			declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\n", x)
+			assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, x, k, grammars[k])
 		}
-		rules += fmt.Sprintf("\"%s\": %s,\n", k, k)
+		rules += fmt.Sprintf("\"%s\": %s,\n", k, x)
 	}
 	declarations += ")\n"
 	_, ok := grammars["doc"]
-- 
2.43.0


From c9cbdcbce9bfccbab859b43d9b66d8a8d3fcec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 30/37] fix: Go functions of a script-defined interpreter
 cannot take operands of a stack of values

---
 tpl/qlang/cl/interpreter/interpret.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/qlang/cl/interpreter/interpret.go b/tpl/qlang/cl/interpreter/interpret.go
index 496e034..75aa348 100644
--- a/tpl/qlang/cl/interpreter/interpret.go
+++ b/tpl/qlang/cl/interpreter/interpret.go
@@ -78,7 +78,11 @@ func callFn(stk *qlang.Object, fn interface{}, arity int) {
 		n := ret.Len()
 		in = make([]reflect.Value, n)
 		for i := 0; i < n; i++ {
-			in[i] = ret.Index(i)
+			v := ret.Index(i)
+			if v.Kind() == reflect.Interface && !v.IsNil() { // the operand itself
+				v = v.Elem()
+			}
+			in[i] = v
 		}
 	}
 	vfn := reflect.ValueOf(fn)
-- 
2.43.0


From 89eabf85c5ca8709caadf9be9b6cbe42f2d539bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:11 +0000
Subject: [PATCH 31/37] fix: tplgen output imports packages that exist

---
 tpl/cmd/tplgen/output.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index 2094864..dd12007 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -8,9 +8,9 @@ import (
 	"strconv"
 	{{ end }}
 
-	"github.com/qiniu/text/tpl.v1"
+	"github.com/qiniu/text/tpl"
 	{{ if .genInterpreter}}
-	"github.com/qiniu/text/tpl.v1/interpreter.util"
+	"github.com/qiniu/text/tpl/interpreter.util"
 	{{ end }}
 )
 {{if .genInterpreter}}
-- 
2.43.0


From b83ae755afe037bb8b5c24e0987fab6eb0c16495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 32/37] fix: tplgen: static interpreters pass the same
 arguments as interpreters made at run time

---
 tpl/cmd/tplgen/output.tpl | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index dd12007..4766822 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -19,6 +19,7 @@ import (
 var (
 	typeIntf    = reflect.TypeOf((*interface{})(nil)).Elem()
 	typeEng     = reflect.TypeOf((*interpreter.Engine)(nil)).Elem()
+	typeCtx     = reflect.TypeOf((*interpreter.Context)(nil))
 	typeFline   = reflect.TypeOf((*interpreter.FileLine)(nil))
 	zeroIntfVal = reflect.Zero(typeIntf)
 )
@@ -57,6 +58,9 @@ func ParseFloat(lit string) (v float64, err error) {
 			if err1 == nil {
 				return float64(v1), nil
 			}
+			if e, ok := err1.(*strconv.NumError); ok && e.Err == strconv.ErrRange {
+				return float64(v1), err1
+			}
 		}
 	}
 	return strconv.ParseFloat(lit, 64)
@@ -69,26 +73,26 @@ func GetValue(t reflect.Type, lit string) (ret reflect.Value, err error) {
 	case reflect.String:
 		return reflect.ValueOf(lit), nil
 	case reflect.Float64:
-		v, err1 := strconv.ParseFloat(lit, 64)
+		v, err1 := ParseFloat(lit)
 		if err1 != nil {
 			err = err1
 			return
 		}
 		return reflect.ValueOf(v), nil
 	case reflect.Int64:
-		v, err1 := strconv.ParseInt(lit, 10, 64)
+		v, err1 := ParseInt(lit)
 		if err1 != nil {
 			err = err1
 			return
 		}
 		return reflect.ValueOf(v), nil
 	case reflect.Int:
-		v, err1 := strconv.Atoi(lit)
+		v, err1 := ParseInt(lit)
 		if err1 != nil {
 			err = err1
 			return
 		}
-		return reflect.ValueOf(v), nil
+		return reflect.ValueOf(int(v)), nil
 	}
 	err = errors.New("unsupported type: " + t.String())
 	return
@@ -201,7 +205,7 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 			kindRecvr = 2
 		}
 		if kindRecvr > 0 {
-			if n > 2 {
+			if n > 3 {
 				panic("invalid function (too many params): " + mark)
 			}
 			if nout := tfn.NumOut(); nout > 0 {
@@ -256,7 +260,7 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 				} else {
 					args[0] = reflect.ValueOf(p.Interpreter)
 				}
-				if n == 2 {
+				if n >= 2 {
 					targ1 := tfn.In(1)
 					if isLen {
 						if targ1 != typeInt {
@@ -265,6 +269,8 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 						args[1] = reflect.ValueOf(g.Len())
 					} else {
 						switch targ1 {
+						case typeCtx:
+							args[1] = p.ctxValue(tokens)
 						case typeIntf:
 							if len(tokens) == 0 { // use nil as empty source
 								args[1] = zeroIntfVal
@@ -288,6 +294,9 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 						}
 					}
 				}
+				if n == 3 {
+					args[2] = p.ctxValue(tokens)
+				}
 				ret := reflect.ValueOf(fn).Call(args)
 				if len(ret) > 0 {
 					if retv := ret[0].Interface(); retv != nil {
@@ -315,6 +324,16 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 	return
 }
 
+func (p *Engine) ctxValue(tokens []tpl.Token) reflect.Value {
+
+	ctx := &interpreter.Context{Src: tokens, Engine: interpreter.Engine(p)}
+	if len(tokens) > 0 {
+		ctx.Pos = tokens[0].Pos
+		ctx.End = tokens[len(tokens)-1].End()
+	}
+	return reflect.ValueOf(ctx)
+}
+
 func (p *Engine) Source(src interface{}) (text []byte) {
 
 	if src == nil {
-- 
2.43.0


From 960cc3139a3e0b985e3bb5d82dd0a48a339d7e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 33/37] fix: tplgen: declarations without a string are skipped,
 escapes in string literals are honoured

---
 tpl/cmd/tplgen/main.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tpl/cmd/tplgen/main.go b/tpl/cmd/tplgen/main.go
index cfa3541..9305370 100644
--- a/tpl/cmd/tplgen/main.go
+++ b/tpl/cmd/tplgen/main.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path"
 	"runtime"
+	"strconv"
 	"text/template"
 
 	"github.com/qiniu/text/tpl/generator"
@@ -33,9 +34,9 @@ func findInGenDecl(genDecl *ast.GenDecl, grammarName string) string {
 					index = i
 				}
 			}
-			if index != -1 {
+			if index != -1 && index < len(valueSpec.Values) {
 				basicLit, ok := valueSpec.Values[index].(*ast.BasicLit)
-				if ok {
+				if ok && basicLit.Kind == token.STRING {
 					return basicLit.Value
 				}
 			}
@@ -55,9 +56,9 @@ func findInAssignment(assignStmt *ast.AssignStmt, grammarName string) string {
 			}
 		}
 	}
-	if index != -1 {
+	if index != -1 && index < len(assignStmt.Rhs) {
 		basicLit, ok := assignStmt.Rhs[index].(*ast.BasicLit)
-		if ok {
+		if ok && basicLit.Kind == token.STRING {
 			return basicLit.Value
 		}
 	}
@@ -73,7 +74,7 @@ func findInDecl(decl ast.Decl, grammarName string) string {
 		}
 	}
 	funcDecl, ok := decl.(*ast.FuncDecl)
-	if ok {
+	if ok && funcDecl.Body != nil {
 		for _, stmt := range funcDecl.Body.List {
 			declStmt, ok := stmt.(*ast.DeclStmt)
 			if ok {
@@ -123,7 +124,9 @@ OUT:
 	if grammarContent == "" {
 		exitIfNotNil(errors.New(*grammarName + " not found."))
 	}
-	code, err := generator.GenStaticCode(grammarContent[1 : len(grammarContent)-1])
+	grammarContent, err = strconv.Unquote(grammarContent)
+	exitIfNotNil(err)
+	code, err := generator.GenStaticCode(grammarContent)
 	exitIfNotNil(err)
 	fd, err := os.OpenFile(*outputFileName, os.O_RDWR|os.O_CREATE, 0664)
 	exitIfNotNil(err)
-- 
2.43.0


From 0e1f465c8d280b170aa1dae639a253e3aff962c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:07 +0000
Subject: [PATCH 34/37] fix: errors keep describing their source after the
 scanner goes on to another one

---
 tpl/cmd/tplgen/output.tpl      |  2 +-
 tpl/compiler.go                |  5 +++--
 tpl/interpreter/interpreter.go |  2 +-
 tpl/match.go                   | 27 +++++++++++++++++++++++++--
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index 4766822..be9bbfa 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -246,7 +246,7 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 					}
 					err = &RuntimeError{
 						Grammar: g,
-						Ctx:     p.Matcher,
+						Ctx:     p.Snapshot(),
 						Err:     err,
 						Src:     tokens,
 					}
diff --git a/tpl/compiler.go b/tpl/compiler.go
index 9546558..035ccd2 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -93,12 +93,13 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		if p.Init != nil { // 因为下面调 Grammar.Match，需要先主动调用 Init
 			p.Init()
 		}
-		matched, err := g.Match(doc, p.Matcher)
+		ctx := p.Snapshot()
+		matched, err := g.Match(doc, ctx)
 		if err != nil {
 			return err
 		}
 		if len(doc) != matched {
-			return &MatchError{GrEOF, p.Matcher, doc[matched:], nil, 0}
+			return &MatchError{GrEOF, ctx, doc[matched:], nil, 0}
 		}
 		return nil
 	case []byte:
diff --git a/tpl/interpreter/interpreter.go b/tpl/interpreter/interpreter.go
index 4cfda75..92c39ca 100644
--- a/tpl/interpreter/interpreter.go
+++ b/tpl/interpreter/interpreter.go
@@ -244,7 +244,7 @@ func New(ipt interpreter.Interface, options *Options) (p *Engine, err error) {
 					}
 					err = &RuntimeError{
 						Grammar: g,
-						Ctx:     p.Matcher,
+						Ctx:     p.Snapshot(),
 						Err:     err,
 						Src:     tokens,
 					}
diff --git a/tpl/match.go b/tpl/match.go
index 33fb3d3..6a4503f 100644
--- a/tpl/match.go
+++ b/tpl/match.go
@@ -76,6 +76,29 @@ func (p *Matcher) Tokener() Tokener {
 	return p.requireScanner()
 }
 
+type sourceTokener struct {
+	Tokener
+	src TokenSource
+}
+
+func (p *sourceTokener) Source() TokenSource {
+	return p.src
+}
+
+type snapshot struct {
+	t sourceTokener
+}
+
+func (p *snapshot) Tokener() Tokener {
+	return &p.t
+}
+
+// Snapshot returns the context of the current source. It stays the same after the scanner goes on to another source.
+func (p *Matcher) Snapshot() Context {
+	s := p.requireScanner()
+	return &snapshot{sourceTokener{s, s.Source()}}
+}
+
 // Match matches src.
 func (p *Matcher) Match(src []byte, fname string) (next []Token, err error) {
 	g := p.Grammar
@@ -91,7 +114,7 @@ func (p *Matcher) Match(src []byte, fname string) (next []Token, err error) {
 	if p.Init != nil {
 		p.Init()
 	}
-	n, err := g.Match(tokens, p)
+	n, err := g.Match(tokens, p.Snapshot())
 	if err != nil {
 		return
 	}
@@ -106,7 +129,7 @@ func (p *Matcher) MatchExactly(src []byte, fname string) (err error) {
 	}
 
 	if len(next) != 0 {
-		return &MatchError{GrEOF, p, next, nil, 0}
+		return &MatchError{GrEOF, p.Snapshot(), next, nil, 0}
 	}
 	return
 }
-- 
2.43.0


From 8a5ab0fc3f9e1046acec1b23686ce13a510ae72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 35/37] fix: evaluating another source while matching leaves
 the current source as it was

---
 tpl/compiler.go | 16 +++++++++++++---
 tpl/match.go    | 11 ++++++++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 035ccd2..b9b9743 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -93,13 +93,12 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		if p.Init != nil { // 因为下面调 Grammar.Match，需要先主动调用 Init
 			p.Init()
 		}
-		ctx := p.Snapshot()
-		matched, err := g.Match(doc, ctx)
+		matched, err := p.match(g, doc)
 		if err != nil {
 			return err
 		}
 		if len(doc) != matched {
-			return &MatchError{GrEOF, ctx, doc[matched:], nil, 0}
+			return &MatchError{GrEOF, p.Snapshot(), doc[matched:], nil, 0}
 		}
 		return nil
 	case []byte:
@@ -116,6 +115,17 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		ScanMode: p.ScanMode,
 		Init:     p.Init,
 	}
+	if p.depth > 0 { // 正在匹配另一份源代码，完成后需要恢复
+		s := p.requireScanner()
+		old := s.Source()
+		defer func() {
+			s.Init(old.File, old.Src, nil, p.ScanMode)
+		}()
+	}
+	p.depth++
+	defer func() {
+		p.depth--
+	}()
 	return m.MatchExactly(text, "")
 }
 
diff --git a/tpl/match.go b/tpl/match.go
index 6a4503f..0c69cae 100644
--- a/tpl/match.go
+++ b/tpl/match.go
@@ -18,6 +18,7 @@ type Matcher struct {
 	Scanner  Tokener
 	ScanMode ScanMode
 	Init     func()
+	depth    int
 }
 
 // TokenizeError represents a tokenize error.
@@ -114,13 +115,21 @@ func (p *Matcher) Match(src []byte, fname string) (next []Token, err error) {
 	if p.Init != nil {
 		p.Init()
 	}
-	n, err := g.Match(tokens, p.Snapshot())
+	n, err := p.match(g, tokens)
 	if err != nil {
 		return
 	}
 	return tokens[n:], nil
 }
 
+func (p *Matcher) match(g Grammar, tokens []Token) (n int, err error) {
+	p.depth++
+	defer func() {
+		p.depth--
+	}()
+	return g.Match(tokens, p.Snapshot())
+}
+
 // MatchExactly matches src exactly.
 func (p *Matcher) MatchExactly(src []byte, fname string) (err error) {
 	next, err := p.Match(src, fname)
-- 
2.43.0


From 202261d8b108cfffcab31fdae6a7d578cd7df596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 36/37] fix: failures in functions of earlier scripts name the
 script of the function

---
 tpl/compiler.go          |  6 +-----
 tpl/match.go             | 10 ++++++++++
 tpl/qlang/cl/class.go    |  1 +
 tpl/qlang/cl/function.go | 21 +++++++++++++++++++++
 4 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index b9b9743..ce06b09 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -116,11 +116,7 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		Init:     p.Init,
 	}
 	if p.depth > 0 { // 正在匹配另一份源代码，完成后需要恢复
-		s := p.requireScanner()
-		old := s.Source()
-		defer func() {
-			s.Init(old.File, old.Src, nil, p.ScanMode)
-		}()
+		defer p.SwitchSource(p.Tokener().Source())
 	}
 	p.depth++
 	defer func() {
diff --git a/tpl/match.go b/tpl/match.go
index 0c69cae..4e6f1ad 100644
--- a/tpl/match.go
+++ b/tpl/match.go
@@ -100,6 +100,16 @@ func (p *Matcher) Snapshot() Context {
 	return &snapshot{sourceTokener{s, s.Source()}}
 }
 
+// SwitchSource makes src the current source, and returns the one that was.
+func (p *Matcher) SwitchSource(src TokenSource) (old TokenSource) {
+	s := p.requireScanner()
+	old = s.Source()
+	if src.File != nil {
+		s.Init(src.File, src.Src, nil, p.ScanMode)
+	}
+	return
+}
+
 // Match matches src.
 func (p *Matcher) Match(src []byte, fname string) (next []Token, err error) {
 	g := p.Grammar
diff --git a/tpl/qlang/cl/class.go b/tpl/qlang/cl/class.go
index c889c4f..623a0b1 100644
--- a/tpl/qlang/cl/class.go
+++ b/tpl/qlang/cl/class.go
@@ -88,6 +88,7 @@ func (p *Interpreter) newClass(e interpreter.Engine, m []interface{}) *Class {
 			Args:     v.args,
 			fnb:      v.fnb,
 			engine:   e,
+			src:      sourceOf(e),
 			parent:   p,
 			Cls:      cls,
 			Variadic: v.variadic,
diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index 65ce868..50d0187 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"reflect"
 
+	"github.com/qiniu/text/tpl"
 	"github.com/qiniu/text/tpl/interpreter.util"
 
 	qip "github.com/qiniu/text/tpl/interpreter"
@@ -267,6 +268,7 @@ func (p *Interpreter) Function(e interpreter.Engine) error {
 		Args:     args,
 		fnb:      fnb,
 		engine:   e,
+		src:      sourceOf(e),
 		parent:   p,
 		Variadic: variadic != 0,
 	}
@@ -354,11 +356,25 @@ type Function struct {
 	Args     []string
 	fnb      interface{}
 	engine   interpreter.Engine
+	src      tpl.TokenSource // fnb 所在的源代码
 	parent   *Interpreter
 	Cls      *Class
 	Variadic bool
 }
 
+type sourcer interface {
+	Tokener() tpl.Tokener
+	SwitchSource(src tpl.TokenSource) (old tpl.TokenSource)
+}
+
+func sourceOf(e interpreter.Engine) (src tpl.TokenSource) {
+
+	if s, ok := e.(sourcer); ok {
+		src = s.Tokener().Source()
+	}
+	return
+}
+
 func (p *Function) Call(args ...interface{}) interface{} {
 
 	n := len(p.Args)
@@ -376,6 +392,10 @@ func (p *Function) Call(args ...interface{}) interface{} {
 		return nil
 	}
 
+	if s, ok := p.engine.(sourcer); ok {
+		defer s.SwitchSource(s.SwitchSource(p.src))
+	}
+
 	parent := p.parent
 	stk := parent.stk
 	vars := make(map[string]interface{})
@@ -426,6 +446,7 @@ func (p *Interpreter) Main(e interpreter.Engine) {
 	fn := &Function{
 		fnb:    fnb,
 		engine: e,
+		src:    sourceOf(e),
 		parent: p,
 	}
 	ret := fn.Call()
-- 
2.43.0


From 72e76208e0566632997b17afea26795a288ccb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:05 +0000
Subject: [PATCH 37/37] fix: reading a variable of an outer function that was
 unset is reported

---
 tpl/qlang/cl/function.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index 50d0187..e8323d3 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -227,7 +227,9 @@ func (p *Interpreter) getRef(name string) interface{} {
 	val, ok := p.vars[name]
 	if ok {
 		if e, ok1 := val.(externVar); ok1 {
-			val = e.vars[name]
+			if val, ok = e.vars[name]; !ok { // 该变量已经被 unset
+				panic("symbol not found: " + name)
+			}
 		}
 	} else {
 		if name[0] != '_' { // NOTE: '_' 开头的变量是私有的，不可继承
@@ -235,7 +237,9 @@ func (p *Interpreter) getRef(name string) interface{} {
 				if val, ok = t.vars[name]; ok {
 					e, ok1 := val.(externVar)
 					if ok1 {
-						val = e.vars[name]
+						if val, ok = e.vars[name]; !ok {
+							panic("symbol not found: " + name)
+						}
 					} else {
 						e = externVar{t.vars}
 					}
-- 
2.43.0

