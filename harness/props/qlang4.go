package props

import (
	"errors"
	"math"
	"reflect"
	"strconv"
	"unicode/utf8"

	"verif/sym"

	"github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/qlang/lib/builtin/types"
	"github.com/qiniu/text/tpl/qlang/spec"
)

// ---- Q16: literals ----

// unesc is the character at the front of a literal between quotes q: its bytes, and what is left. One that is an escape for
// a byte stands for that byte, all others for their UTF-8 form; one tells whether a char literal may hold it
func unesc(s string, q byte) (v []byte, rest string, one, ok bool) {
	hex := func(n int) (r int, ok bool) {
		if len(s) < 2+n {
			return 0, false
		}
		for i := 0; i < n; i++ {
			c := s[2+i]
			switch {
			case c >= '0' && c <= '9':
				r = r*16 + int(c-'0')
			case c >= 'a' && c <= 'f':
				r = r*16 + int(c-'a') + 10
			case c >= 'A' && c <= 'F':
				r = r*16 + int(c-'A') + 10
			default:
				return 0, false
			}
		}
		return r, true
	}
	if s == "" || s[0] == q || s[0] == '\n' {
		return nil, s, false, false
	}
	if s[0] >= 128 {
		_, n := utf8.DecodeRuneInString(s)
		return []byte(s[:n]), s[n:], false, n > 1
	}
	if s[0] != '\\' {
		return []byte{s[0]}, s[1:], true, true
	}
	if len(s) < 2 {
		return nil, s, false, false
	}
	switch c := s[1]; c {
	case 'a':
		return []byte{7}, s[2:], true, true
	case 'b':
		return []byte{8}, s[2:], true, true
	case 'f':
		return []byte{12}, s[2:], true, true
	case 'n':
		return []byte{10}, s[2:], true, true
	case 'r':
		return []byte{13}, s[2:], true, true
	case 't':
		return []byte{9}, s[2:], true, true
	case 'v':
		return []byte{11}, s[2:], true, true
	case '\\':
		return []byte{'\\'}, s[2:], true, true
	case 'x':
		if r, ok := hex(2); ok {
			return []byte{byte(r)}, s[4:], true, true
		}
	case 'u':
		if r, ok := hex(4); ok && !(r >= 0xd800 && r < 0xe000) {
			return []byte(string(rune(r))), s[6:], r < 128, true
		}
	case '0', '1', '2', '3', '4', '5', '6', '7':
		r := 0
		for i := 1; i < 4; i++ {
			if i >= len(s) || s[i] < '0' || s[i] > '7' {
				return nil, s, false, false
			}
			r = r*8 + int(s[i]-'0')
		}
		return []byte{byte(r)}, s[4:], true, r < 256
	default:
		if c == q {
			return []byte{q}, s[2:], true, true
		}
	}
	return nil, s, false, false
}

// body is the inside of a literal: any bytes, or pieces of escapes
func q16body() string {
	if sym.Choice("bytes", 2) == 0 {
		return string(sym.Bytes("s", sym.Choice("length", 3+sym.Tier())))
	}
	s := ""
	for i, n := 0, 1+sym.Choice("pieces", sym.Bound("pieces", 2)); i < n; i++ {
		switch sym.Choice("piece", 4) {
		case 0:
			s += `\x` + string(sym.Bytes("x", 2))
		case 1:
			s += `\` + string(sym.Bytes("o", 3))
		case 2:
			if i > 0 {
				return s + "z"
			}
			s += `\u` + string(sym.Bytes("u", 1)) + "0" + string(sym.Bytes("w", 1)) + "0"
		case 3:
			s += string(sym.Bytes("c", 1))
		}
	}
	return s
}

func noneOf(s string, c byte) {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != c)
	}
}

// a valid text: anything else is the scanner's business
func q16text(s string) {
	noneOf(s, 0)
	sym.Assume(utf8.ValidString(s))
	for i := 0; i+3 <= len(s); i++ {
		sym.Assume(s[i:i+3] != "\ufeff")
	}
}

func Q16_char() {
	l := newQ()
	s := q16body()
	q16text(s)
	v, rest, one, ok := unesc(s, '\'')
	ok = ok && one && rest == ""
	if !ok {
		noneOf(s, '\'')
	}
	if len(s) > 1 && s[:2] == `\u` {
		sym.Skip() // whether one that needs no more than a byte can be written so is not said
	}
	r, failed := qeval(l, "'"+s+"'")
	sym.Assert(failed == !ok, "a character literal is rejected exactly if it is not one character of one byte")
	if ok {
		b, is := r.(byte)
		sym.Assert(is && b == v[0], "a character literal is the character")
		sym.Reach("character")
	}
}

func Q16_string() {
	l := newQ()
	s := q16body()
	q16text(s)
	var want []byte
	ok := true
	for rest := s; ok && rest != ""; {
		var v []byte
		v, rest, _, ok = unesc(rest, '"')
		want = append(want, v...)
	}
	if !ok {
		noneOf(s, '"')
	}
	r, failed := qeval(l, `"`+s+`"`)
	sym.Assert(failed == !ok, "a string literal is rejected exactly if a character of it is none")
	if ok {
		t, is := r.(string)
		sym.Assert(is && t == string(want), "a string literal is its characters")
		sym.Reach("string")
	}
}

func Q16_raw() {
	l := newQ()
	s := string(sym.Bytes("s", sym.Choice("length", 4)))
	q16text(s)
	noneOf(s, '`')
	noneOf(s, '\r')
	r, failed := qeval(l, "`"+s+"`")
	sym.Assert(!failed, "a raw string is made")
	t, is := r.(string)
	sym.Assert(is && t == s, "a raw string is what is written")
	sym.Reach("string")
}

// integers in all bases, and where they end
func Q16_number() {
	l := newQ()
	s, base := "", 10
	switch sym.Choice("base", 3) {
	case 1:
		s, base = "0x", 16
	case 2:
		s, base = "0", 8
	}
	n := 1 + sym.Choice("digits", 3)
	want := 0
	for i := 0; i < n; i++ {
		c := sym.Bytes("d", 1)[0]
		d := int(c - '0')
		if base == 16 {
			sym.Assume(sym.Or(sym.And(c >= '0', c <= '9'), sym.And(c >= 'a', c <= 'f')))
			d = sym.Ite(c > '9', int(c)-'a'+10, int(c)-'0')
		} else {
			sym.Assume(c >= '0')
			sym.Assume(int(c) < '0'+base)
			if base == 10 && i == 0 {
				sym.Assume(c != '0')
			}
		}
		s += string([]byte{c})
		want = want*base + d
	}
	neg := sym.Choice("sign", 3)
	v, failed := qeval(l, []string{"", "-", "1 - "}[neg]+s)
	switch neg {
	case 1:
		want = -want
	case 2:
		want = 1 - want
	}
	sym.Assert(!failed, "a number is read")
	i, ok := v.(int)
	sym.Assert(ok && i == want, "a number has the value that is written")
	sym.Reach("number")
}

// numbers at the ends of what can be kept, floats, and what looks like a number
func Q16_limits() {
	l := newQ()
	maxInt := strconv.Itoa(math.MaxInt64)
	k := sym.Choice("number", 16)
	code := []string{maxInt, "-" + maxInt, "-" + maxInt + " - 1", "9223372036854775808", "18446744073709551616", "0x7fffffffffffffff", "0x8000000000000000", "0777777777777777777777", "01000000000000000000000",
		"1.5", ".5", "1e3", "25e-2", "1e308", "1e400", "6.25E+2"}[k]
	wants := []interface{}{math.MaxInt64, -math.MaxInt64, math.MinInt64, nil, nil, math.MaxInt64, nil, math.MaxInt64, nil,
		1.5, 0.5, 1000.0, 0.25, 1e308, nil, 625.0}
	v, failed := qeval(l, code)
	sym.Assert(failed == (wants[k] == nil), "a number that cannot be kept is reported")
	sym.Assert(failed || v == wants[k], "a number has the value that is written")
	sym.Reach("number")
}

// ---- Q06: variables that are removed ----

func Q06_unset() {
	p := newQtest()
	p.set("x", sym.Int("x"))
	v := []string{"x", "y", "_p"}[sym.Choice("variable", 2+sym.Tier())]
	step := func(name string, k int) *qn {
		switch sym.Choice(name, 5) {
		case 1:
			return qlog(k, qvar(v))
		case 2:
			return qset(v, qlog(k, qint(k)))
		case 3:
			n := nd("unset")
			n.s = v
			return n
		case 4:
			op := nd("+=", qint(100))
			op.s = v
			return op
		}
		return qlog(k, qint(0))
	}
	inner := qdoc(step("inner", 1), step("inner", 2), nd("return", qint(0)))
	outer := qdoc(step("outer", 3), nd("return", qfn(inner)))
	first := qlog(7, qint(0))
	if sym.Tier() > 0 {
		first = step("top", 7)
	}
	top := qdoc(first, qset("mk", qfn(outer)), qset("g", qcall(qvar("mk"))), step("top", 4), qcall(qvar("g")), step("top", 5), qcall(qvar("g")))
	if _, failed := p.run(top); failed {
		sym.Reach("reported")
	} else {
		sym.Reach("value")
	}
}

// ---- Q13: sizes, and constructors with arguments of all kinds ----

func Q13_size() {
	l := newQ()
	vs := []interface{}{nil, []int{1, 2, 3}[:2], [3]int{}, make([]string, 1, 5), map[string]int{"a": 1}, string(sym.Bytes("s", sym.Choice("length", 3))), 1, 1.5, true, &types.Chan{Data: reflect.ValueOf([]int{1, 2, 3, 4}[:3])}}
	k := sym.Choice("value", len(vs))
	l.SetVar("v", vs[k])
	fn := sym.Choice("function", 2)
	v, failed := qeval(l, []string{"len(v)", "cap(v)"}[fn])
	want := [][]int{{0, 0}, {2, 3}, {3, 3}, {1, 5}, {1, -1}, {-1, -1}, {-1, -1}, {-1, -1}, {-1, -1}, {3, 4}}[k][fn]
	if k == 5 && fn == 0 {
		want = len(vs[5].(string))
	}
	sym.Assert(failed == (want < 0), "what has no size has none")
	sym.Assert(failed || v == interface{}(want), "the size is the number of elements")
	sym.Reach("size")
}

func Q13_slice() {
	l := newQ()
	n := sym.Choice("arguments", 3)
	code := "slice(\"float\""
	size := [2]int{}
	ok := true
	for i := 0; i <= n && i < 2; i++ {
		if i == n {
			size[1] = size[0]
			break
		}
		name := "n" + strconv.Itoa(i)
		code += ", " + name
		switch v := qelem(l, name, sym.Choice(name+" kind", 5)).(type) {
		case int:
			sym.Assume(v > -5)
			sym.Assume(v < 5)
			size[i] = v
			ok = ok && v >= 0
		default:
			ok = false
		}
	}
	if n == 0 {
		size[1] = 0
	}
	ok = ok && size[0] <= size[1]
	v, failed := qeval(l, code+")")
	sym.Assert(failed == !ok, "a slice is made exactly if its size is one")
	if ok {
		o := reflect.ValueOf(v)
		sym.Assert(o.Type() == reflect.TypeOf([]float64{}) && o.Len() == size[0] && o.Cap() == size[1], "a slice has the size that was asked for")
		for i := 0; i < size[0]; i++ {
			sym.Assert(o.Index(i).Interface() == 0.0, "the elements of a new slice are zero")
		}
		sym.Reach("made")
	}
}

// errors a script raises are those it gets
func Q13_panic() {
	l := newQ()
	e := errors.New("why")
	l.SetVar("e", e)
	n := sym.Int("n")
	sym.Assume(n >= 0)
	sym.Assume(n < 10)
	l.SetVar("n", n)
	k := sym.Choice("call", 5)
	call := []string{"panic(\"why\")", "panic(e)", "panicf(\"why %v%v\", 1, \"a\")", "panicf(\"why\")", "n / 0"}[k]
	text := []string{"why", "why", "why 1a", "why", "runtime error: integer divide by zero"}[k]
	is := func(v interface{}, what string) {
		re, ok := v.(*interpreter.RuntimeError)
		sym.Assert(ok && re.Err != nil && re.Err.Error() == text && re.Error() == "line 1: runtime error: "+text, what)
		sym.Assert(k != 1 || re.Err == e, what)
	}
	switch sym.Choice("use", 3) {
	case 0:
		is(l.SafeEval(call), "the error is the one that was raised")
		sym.Reach("reported")
	case 1:
		is(l.SafeEval("f = fn() { "+call+" }; g = fn() { return f() }; [1, g()]"), "the error is the one that was raised")
		sym.Reach("reported")
	case 2:
		v, failed := qeval(l, "f = fn() { defer fn() { r = recover(); set(log, \"r\", r) }(); "+call+"; return 1 }; log = mkmap(\"string:var\"); f(); log.r")
		sym.Assert(!failed, "an error can be recovered")
		is(v, "recover yields the error")
		sym.Reach("recovered")
	}
	v, failed := qeval(l, "n + 1")
	sym.Assert(!failed && v == interface{}(n+1), "the next script runs")
}

// bytes as text
func Q13_text() {
	l := newQ()
	b := sym.Bytes("b", sym.Choice("length", 4))
	l.SetVar("b", b)
	v, failed := qeval(l, "string(b)")
	s, ok := v.(string)
	sym.Assert(!failed && ok && s == string(b), "bytes give their text")
	b2 := append([]byte{}, b...)
	if len(b) > 0 {
		b[0]++
		sym.Assert(s == string(b2), "a text does not change")
	}
	sym.Reach("text")
}

// ---- Q09: what cannot be set or assigned ----

func Q09_reject() {
	l := newQ()
	x, y := sym.Int("x"), sym.Int("y")
	l.SetVar("x", x)
	l.SetVar("y", y)
	l.SetVar("v", []interface{}{1, 1.5, "ab", true, nil, map[string]int{"a": 1}}[sym.Choice("value", 6)])
	k := sym.Choice("script", 9)
	code := []string{"x, y = v", "x, y = [1]", "x, y = [1, 2, 3]", "set([1, 2], 0)", "s = [3, 4]; set(s, 0, 1, 1)", "set(v, \"a\", 1)", "m = {\"a\": 1}; set(m, \"a\")", "f(v...)", "f(...)"}[k]
	called := false
	l.SetVar("f", func(a ...interface{}) { called = true })
	_, failed := qeval(l, code)
	mv, _ := l.Var("v")
	_, isMap := mv.(map[string]int)
	sym.Assert(failed == !(k == 5 && isMap), "what cannot be set or spread is reported")
	sym.Assert(!called, "a call that fails does not happen")
	v, failed := qeval(l, "[x, y]")
	o, ok := v.([]int)
	sym.Assert(!failed && ok && o[0] == x && o[1] == y, "an assignment that is reported changes nothing")
	switch k {
	case 4:
		s, _ := l.Var("s")
		o, ok := s.([]int)
		sym.Assert(ok && o[0] == 3 && o[1] == 4, "a change that is reported does not happen")
	case 6:
		m, _ := l.Var("m")
		o, ok := m.(map[string]int)
		sym.Assert(ok && len(o) == 1 && o["a"] == 1, "a change that is reported does not happen")
	}
	sym.Reach("reported")
}

// appending to collections of the host, of all element types
func Q09_append() {
	l := newQ()
	n := sym.Int("n")
	l.SetVar("n", n)
	s := []interface{}{[]bool{true}, []float64{1}, []interface{}{1}, []map[string]int{nil}, []error{nil}, [][]int{{1}}, []byte{1}}[sym.Choice("slice", 7)]
	l.SetVar("s", s)
	v := []interface{}{nil, true, 1, float32(2.5), 2.5, map[string]int{"a": n}, []int{2}, byte(3), errors.New("e")}[sym.Choice("value", 9)]
	l.SetVar("v", v)
	et := reflect.TypeOf(s).Elem()
	var want interface{}
	fits := false
	switch {
	case et == reflect.TypeOf(0.5):
		switch x := v.(type) {
		case int:
			want, fits = float64(x), true
		case float32:
			want, fits = float64(x), true
		case float64:
			want, fits = x, true
		}
	case v == nil:
		want, fits = reflect.Zero(et).Interface(), true
		switch et.Kind() {
		case reflect.Bool, reflect.Uint8:
			return // nil is no value of these
		}
	default:
		want, fits = v, reflect.TypeOf(v).AssignableTo(et)
	}
	r, failed := qeval(l, "append(s, v)")
	sym.Assert(failed == !fits, "values are appended exactly if they fit")
	if fits {
		o := reflect.ValueOf(r)
		sym.Assert(o.Type() == reflect.TypeOf(s) && o.Len() == 2, "append adds the values at the end")
		sym.Assert(qeq(o.Index(0).Interface(), reflect.ValueOf(s).Index(0).Interface()), "append keeps the elements")
		sym.Assert(qeq(o.Index(1).Interface(), want), "append adds the values at the end")
		sym.Reach("append")
	}
}

func qeq(a, b interface{}) bool {
	switch b := b.(type) {
	case []int:
		a, ok := a.([]int)
		return ok && len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0])
	case map[string]int:
		a, ok := a.(map[string]int)
		return ok && len(a) == len(b) && a["a"] == b["a"]
	}
	return a == b
}

// ---- Q17: where a failure is reported ----

// q17in puts x, which is an expression, in some part of a script
func q17in(name string, k int, x string) string {
	switch sym.Choice(name, k) {
	case 1:
		return "if true {\n _y = 1;\n" + x + " }"
	case 2:
		return "[1,\n2, " + x + ",\n 3]"
	case 3:
		return "for _i = 0; _i < 1; _i++ {\n\n" + x + "\n}"
	case 4:
		return "fn(a) {\n return\n " + x + " }(\n1)"
	case 5:
		return "fn() {\n defer " + x + ";\n\n_z = 3 }()"
	case 6:
		return "switch 3 {\ncase 2: 5;\ncase 3:\n " + x + "\n}"
	case 7:
		return "fn() {\n _C = class {\nfn _init() {\n _w = 1;\n " + x + "} };\nreturn new _C }()"
	case 8:
		return "true\n&& (\n\n1 == (" + x + "))"
	}
	return x
}

func Q17_place() {
	l := newQ()
	e := errors.New("why")
	l.SetVar("h", func() int { panic(e) })
	x := []string{"nosuch", "h()", "(5/d)"}[sym.Choice("failure", 3)]
	d := 0
	if x == "(5/d)" {
		d = sym.Int("d")
	}
	l.SetVar("d", d)
	script := q17in("outer", 9, q17in("inner", 9, x))
	body := script
	first, second := "", "y = 2;\n"
	names := []string{"", "a.ql"}
	file := names[sym.Choice("name", 2)]
	at := &second
	switch sym.Choice("where", 5) {
	case 0:
		second += body
	case 1: // in a function of an earlier script
		first, second, at = "\n\n\n\nf = fn() {\n"+body+" }", second+"f()", &first
	case 2: // in a function made by a function of an earlier script
		first, second, at = "\n\n\n\ng = fn() {\n v = 1; return fn() {"+body+" } }", second+"k = g();\n\nk()", &first
	case 3: // after a function of an earlier script
		first, second = "\n\n\n\n\n\n\n\n\n\ng = fn() {\n v = 1; return v }", second+"g();\n"+body
	case 4: // in a method
		first, second, at = "\n\n\nB = class {\nfn m() {\n"+body+" } }; o = new B", second+"m = o.m;\n[m()]", &first
	}
	if first != "" {
		sym.Assert(l.SafeExec([]byte(first), "first"+file) == nil, "functions are made")
	}
	err := l.SafeExec([]byte(second), "second"+file)
	sym.Assert((err != nil) == (d == 0), "a failure is reported")
	if err == nil {
		sym.Reach("no failure")
		return
	}
	if sym.Choice("later", 2) == 1 {
		l.SafeExec([]byte("1 +\n2\n+ 3"), "third")
	}
	line := 1
	i := 0
	for s := *at; s[i:i+len(x)] != x; i++ {
		if s[i] == '\n' {
			line++
		}
	}
	want := "second" + file
	if at == &first {
		want = "first" + file
	}
	msg := err.Error()
	want += ":" + strconv.Itoa(line) + ": runtime error: "
	sym.Assert(len(msg) > len(want) && msg[:len(want)] == want, "a failure is reported with the script and line of the step that failed")
	sym.Reach("reported")
}

// a script goes on in its own text after a step of another one failed
func Q17_after() {
	l := newQ()
	e := errors.New("why")
	l.SetVar("h", func() int { panic(e) })
	d := sym.Int("d")
	l.SetVar("d", d)
	sym.Assert(l.SafeExec([]byte("\n\n\n\n\n\n\nf = fn() {\n d;\n return 5 / d }; g = fn(k) { defer fn() { recover() }(); k() }"), "first") == nil, "functions are made")
	k := sym.Choice("script", 5)
	script := []string{
		"1;\ndefer nosuch;\n\nf()",
		"1;\ndefer\n 3 + h();\n\n\ng(f); f()",
		"g(f);\n\n\nnosuch",
		"k = fn() {\n defer fn() { recover(); }(); f() };\n k();\n nosuch",
		"k = fn() {\n defer nosuch; defer h();\n\n defer fn() { recover(); }(); f() };\n k()",
	}[k]
	err := l.SafeExec([]byte(script), "second")
	sym.Assert(err != nil, "a failure is reported")
	line := []string{"2", "3", "4", "4", "2"}[k]
	want := "second:" + line + ": runtime error: "
	msg := err.Error()
	sym.Assert(len(msg) > len(want) && msg[:len(want)] == want, "a failure is reported with the script and line of the step that failed, the last of several")
	sym.Reach("reported")
}

// an assignment with an operator is the assignment of what the operator yields
func Q09_ops() {
	l := newQ()
	l.SetVar("a", qvalue("a", sym.Choice("kind a", 6)))
	l.SetVar("b", qvalue("b", sym.Choice("kind b", 6)))
	op := []string{"+", "-", "*", "/", "%"}[sym.Choice("operator", 5)]
	want, failed := qeval(l, "a "+op+" b")
	v, failed2 := qeval(l, "x = a; x "+op+"= b")
	sym.Assert(failed == failed2, "an assignment with an operator fails exactly if the operator does")
	if failed {
		sym.Reach("reported")
		return
	}
	sym.Assert(sym.TypeName(v) == sym.TypeName(want) && sym.Same(v, want), "an assignment with an operator has the value of the operator")
	x, _ := l.Var("x")
	sym.Assert(sym.TypeName(x) == sym.TypeName(want) && sym.Same(x, want), "an assignment with an operator assigns the value of the operator")
	sym.Reach("assigned")
}

// an entry that is undefined is none
func Q09_undef() {
	l := newQ()
	keys := [][]string{{"a", "b"}, {"1", "2"}}[sym.Choice("keys", 2)]
	n := sym.Int("n")
	vs := []interface{}{n, 0.1, "ab", true, nil, spec.Undefined}
	a, b := vs[sym.Choice("first", 6)], vs[sym.Choice("second", 6)]
	l.SetVar("v", a)
	l.SetVar("w", b)
	q := ""
	if keys[0] == "a" {
		q = "\""
	}
	v, failed := qeval(l, "m = {"+q+keys[0]+q+": v, "+q+keys[1]+q+": w}")
	sym.Assert(!failed, "a map is made of its entries")
	want := map[int]interface{}{}
	if a != spec.Undefined {
		want[0] = a
	}
	if b != spec.Undefined {
		want[1] = b
	}
	sym.Assert(reflect.ValueOf(v).Len() == len(want), "an entry that is undefined is none")
	for i, k := range keys {
		v, failed = qeval(l, "m["+q+k+q+"]")
		sym.Assert(!failed, "a key can be looked up")
		w, ok := want[i]
		_, ok1 := v.(float64)
		switch {
		case !ok:
			sym.Assert(v == spec.Undefined, "a key that is not there is undefined")
		case ok1 && reflect.TypeOf(w) == reflect.TypeOf(1):
			sym.Assert(sym.Same(v, asF(w)) && (a == 0.1 || b == 0.1), "a key selects the value of its entry")
		default:
			sym.Assert(sym.Same(v, w), "a key selects the value of its entry")
		}
	}
	sym.Reach("looked up")
}

// the bytes of a text
func Q09_text() {
	l := newQ()
	s := string(sym.Bytes("s", sym.Choice("length", 4)))
	i, j := sym.Int("i"), sym.Int("j")
	l.SetVar("s", s)
	l.SetVar("i", i)
	l.SetVar("j", j)
	v, failed := qeval(l, "s[i]")
	sym.Assert(failed == sym.Or(i < 0, i >= len(s)), "an index is reported exactly if there is no such element")
	if !failed {
		sym.Assert(v == interface{}(s[i]), "an index selects the element")
		sym.Reach("byte")
	}
	form := sym.Choice("part", 4)
	v, failed = qeval(l, []string{"s[i:j]", "s[i:]", "s[:j]", "s[:]"}[form])
	if form > 1 {
		i = 0
	}
	if form&1 == 1 {
		j = len(s)
	}
	sym.Assert(failed == sym.Or(i < 0, sym.Or(i > j, j > len(s))), "a part is reported exactly if there is none")
	if !failed {
		sym.Assert(v == interface{}(s[i:j]), "a part has the elements between its ends")
		sym.Reach("part")
	}
}
