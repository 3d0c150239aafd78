package props

import (
	"errors"
	"strconv"

	"verif/sym"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/extractor"
)

// ---- X: documents that the extractor makes from sources ----

type xdoc = map[string]interface{}

// xsame asserts that a document is the one it should be
func xsame(got, want xdoc) {
	sym.Assert(len(got) == len(want), "a document has the members that were matched")
	for k, w := range want {
		g, ok := got[k]
		sym.Assert(ok, "a document has the members that were matched")
		switch w := w.(type) {
		case xdoc:
			g, ok := g.(xdoc)
			sym.Assert(ok, "a node is a document")
			xsame(g, w)
		case []xdoc:
			g, ok := g.([]xdoc)
			sym.Assert(ok && len(g) == len(w), "an array has every node that was matched")
			for i := range w {
				xsame(g[i], w[i])
			}
		case []interface{}:
			g, ok := g.([]interface{})
			sym.Assert(ok && len(g) == len(w), "an array has every value that was matched")
			for i := range w {
				sym.Assert(sym.TypeName(g[i]) == sym.TypeName(w[i]), "a value has the type of its mark")
				sym.Assert(sym.Same(g[i], w[i]), "an array has the values in order")
			}
		default:
			sym.Assert(sym.TypeName(g) == sym.TypeName(w), "a value has the type of its mark")
			sym.Assert(sym.Same(g, w), "a member has the value that was matched")
		}
	}
}

// xparse runs SafeParse; a document comes with no error, an error with no document
func xparse(e *extractor.Engine, src []byte) (xdoc, bool) {
	doc, err := e.SafeParse(src, "")
	if err != nil {
		sym.Assert(doc == nil, "an error comes without a document")
	}
	return doc, err == nil
}

// xparseAny does the same in any of the ways that are said to be safe
func xparseAny(e *extractor.Engine, src []byte) (doc xdoc, err error) {
	switch sym.Choice("way", 3) {
	case 0:
		doc, err = e.SafeParse(src, "")
	case 1:
		doc, err = e.Extract(string(src))
	case 2:
		doc, err = e.SafeExtract(string(src))
	}
	if err != nil {
		sym.Assert(doc == nil, "an error comes without a document")
	}
	return
}

const x01Grammar = `
group = IDENT/name_Text ?(':' INT/id_Int) '{' *item '}' ?('@' pos/pos_Node)

item =
	INT/num_Ints |
	FLOAT/flt_FloatArray |
	STRING/str_Strings |
	CHAR/chr_CharArray |
	('=' STRING/str_TextArray) |
	('[' *(INT/n_Ints | '-' INT/m_IntArray) ']')/list_Nodes |
	group/sub_NodeArray |
	('&' group)/sub_Nodes

pos = INT/x_Int ',' INT/y_Int

doc = *(group/root_Nodes) ?(';' IDENT/last_Text)
`

type x01 struct {
	src   []byte
	n     int
	left  int
	depth int
}

func (p *x01) text(s string) { p.src = append(p.src, s...) }

func (p *x01) sym(kind string, lo, hi byte) byte {
	b := sym.Byte(kind + strconv.Itoa(p.n))
	p.n++
	sym.Assume(b >= lo)
	sym.Assume(b <= hi)
	p.src = append(p.src, b)
	return b
}

func (p *x01) digit() int64 {
	v := int64(p.sym("d", '0', '9') - '0')
	p.text(" ")
	return v
}

func xadd(m xdoc, k string, v interface{}) {
	a, _ := m[k].([]interface{})
	m[k] = append(a, v)
}

func (p *x01) group() xdoc {
	m := xdoc{"name": string([]byte{p.sym("i", 'a', 'z')})}
	if p.left > 0 && sym.Choice("id", 2) == 1 {
		p.left--
		p.text(":")
		m["id"] = p.digit()
	}
	p.text("{")
	for p.left > 0 {
		c := sym.Choice("item", 9)
		if c == 0 {
			break
		}
		p.left--
		switch c {
		case 1:
			xadd(m, "num", p.digit())
		case 2:
			p.text("0.5 ")
			xadd(m, "flt", 0.5)
		case 3:
			p.text("\"")
			b := p.sym("s", 'a', 'z')
			p.text("\"")
			xadd(m, "str", string([]byte{b}))
		case 4:
			p.text("'")
			b := p.sym("c", 'A', 'Z')
			p.text("'")
			xadd(m, "chr", b)
		case 5:
			p.text("=\"")
			b := p.sym("s", 'a', 'z')
			p.text("\"")
			xadd(m, "str", string([]byte{'"', b, '"'}))
		case 6:
			p.text("[")
			l := xdoc{}
			for p.left > 0 {
				c := sym.Choice("list", 3)
				if c == 0 {
					break
				}
				p.left--
				if c == 1 {
					xadd(l, "n", p.digit())
				} else {
					p.text("-")
					xadd(l, "m", p.digit())
				}
			}
			p.text("]")
			a, _ := m["list"].([]xdoc)
			m["list"] = append(a, l)
		case 7, 8:
			if p.depth == 0 {
				sym.Skip()
			}
			p.depth--
			if c == 8 {
				p.text("&")
			}
			g := p.group()
			a, _ := m["sub"].([]xdoc)
			m["sub"] = append(a, g)
			p.depth++
		}
	}
	p.text("}")
	if p.left > 0 && sym.Choice("pos", 2) == 1 {
		p.left--
		p.text("@")
		x := p.digit()
		p.text(",")
		m["pos"] = xdoc{"x": x, "y": p.digit()}
	}
	return m
}

func X01_tree() {
	e, err := extractor.New(x01Grammar, nil)
	sym.Assert(err == nil, "the grammar is accepted")
	p := &x01{left: sym.Bound("items", 4+sym.Tier()), depth: 1 + sym.Tier()}
	want := xdoc{}
	var roots []xdoc
	for i := 0; i < 2 && (i == 0 || p.left > 0); i++ {
		if sym.Choice("root", 2) == 1 {
			break
		}
		p.left--
		roots = append(roots, p.group())
	}
	if len(roots) > 0 {
		want["root"] = roots
	}
	if p.left > 0 && sym.Choice("last", 2) == 1 {
		p.text(";")
		want["last"] = string([]byte{p.sym("i", 'a', 'z')})
	}
	doc, ok := xparse(e, p.src)
	sym.Assert(ok, "a source of the grammar is accepted")
	xsame(doc, want)
	xsame(e.Result(), want)
	sym.Reach("document")
}

// ---- X02: values of leaves ----

func X02_values() {
	typ := []string{"Int", "Float", "String", "Char", "Text"}[sym.Choice("type", 5)]
	arr := []string{"", "s", "Array"}[sym.Choice("array", 3)]
	n := sym.Choice("length", sym.Bound("bytes", 3+sym.Tier()))
	b := sym.Bytes("b", n)
	var lit []byte
	kind := ""
	form := sym.Choice("token", 4)
	switch form {
	case 0: // a number
		kind = "INT"
		lit = append([]byte{'7'}, b...)
		for _, c := range b {
			sym.Assume(c >= '0')
			sym.Assume(c <= '9')
		}
	case 1:
		kind = "STRING"
		lit = append(append([]byte{'"'}, b...), '"')
		for _, c := range b {
			sym.Assume(sym.And(c >= ' ', c < 127))
			sym.Assume(sym.And(c != '"', c != '\\'))
		}
	case 2:
		if n != 1 {
			return
		}
		kind = "CHAR"
		lit = []byte{'\'', b[0], '\''}
		sym.Assume(sym.And(b[0] >= ' ', b[0] < 127))
		sym.Assume(sym.And(b[0] != '\'', b[0] != '\\'))
	case 3:
		kind = "IDENT"
		lit = append([]byte{'x'}, b...)
		for _, c := range b {
			sym.Assume(sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= '0', c <= '9')))
		}
	}
	e, err := extractor.New("doc = "+kind+"/v_"+typ+arr, nil)
	sym.Assert(err == nil, "the grammar is accepted")
	doc, ok := xparse(e, lit)
	var want interface{}
	num := int64(7)
	if form == 0 {
		for _, c := range b {
			num = num*10 + int64(c-'0')
		}
	}
	switch {
	case typ == "Text":
		want = string(lit)
	case typ == "Int" && form == 0:
		want = num
	case typ == "Float" && form == 0:
		want = float64(num)
	case typ == "String" && form == 1:
		want = string(b)
	case typ == "Char" && form == 2:
		want = b[0]
	case typ == "Char" && form != 2 && len(lit) == 2:
		// nothing between the first and the last character
	case typ == "String" && form == 2 || typ == "Char" && form != 2:
		return // not said
	case typ == "Float" && form == 3:
		return // xyz is no number, but this is up to the library
	}
	sym.Assert(ok == (want != nil), "a literal that is no value of the type is reported")
	if !ok {
		sym.Reach("reported")
		return
	}
	m := xdoc{}
	if arr == "" {
		m["v"] = want
	} else {
		m["v"] = []interface{}{want}
	}
	xsame(doc, m)
	sym.Reach("value")
}

func X02_literals() {
	k := sym.Choice("literal", 22)
	typ := []string{"Int", "Int", "Int", "Int", "Float", "Float", "Float", "String", "String", "String", "String", "Char", "Char", "Char", "Char", "Char", "Bool", "Int", "Int", "Text", "Text", "String"}[k]
	lit := []string{"9223372036854775807", "9223372036854775808", "0", "1.5", "1.25e2", "1e999", "3", `"a\n\x41\u00e9"`, "`a\\n`", `""`, `"é"`, `'\n'`, `'\''`, `'\xff'`, `'é'`, `'\u00e9'`, "true", "0x10", "99999999999999999999", "`a\\n`", `"\n"`, "x"}[k]
	want := []interface{}{int64(9223372036854775807), nil, int64(0), nil, 125.0, nil, 3.0, "a\nAé", `a\n`, "", "é", byte('\n'), byte('\''), byte(255), nil, nil, nil, nil, nil, "`a\\n`", `"\n"`, nil}[k]
	e, err := extractor.New("doc = (INT|FLOAT|STRING|CHAR|IDENT)/v_"+typ, nil)
	sym.Assert(err == nil, "the grammar is accepted")
	doc, err := xparseAny(e, []byte(lit))
	ok := err == nil
	sym.Assert(ok == (want != nil), "a literal that is no value of the type is reported")
	if ok {
		xsame(doc, xdoc{"v": want})
		sym.Reach("value")
	}
}

// a function of the user fails
func X02_fails() {
	fail := errors.New("why")
	kind := sym.Choice("kind", 4)
	at := sym.Choice("at", 3)
	calls := 0
	e, err := extractor.New("doc = *(INT/a_Ints | (IDENT INT/n_Int)/c_Nodes)", &extractor.Options{
		GetValue: func(typ string, lit string) interface{} {
			calls++
			if calls == at+1 {
				switch kind {
				case 0:
					panic("why")
				case 1:
					panic(fail)
				case 2:
					panic(oddErr{3})
				}
			}
			return calls
		},
	})
	sym.Assert(err == nil, "the grammar is accepted")
	src := []byte([]string{"", "1", "x 1 2", "1 x 2 x 3"}[sym.Choice("source", 4)])
	n := []int{0, 1, 2, 3}[(len(src)+2)/3]
	var doc xdoc
	var got interface{}
	func() {
		defer func() { got = recover() }()
		doc, err = xparseAny(e, src)
	}()
	if at >= n || kind == 3 {
		sym.Assert(got == nil && err == nil && calls == n, "without a failing function there is a document")
		return
	}
	sym.Assert(doc == nil && calls == at+1, "after a failing function nothing is made")
	if kind == 2 {
		o, ok := got.(oddErr)
		sym.Assert(ok && o.n == 3, "a panic that is no error is passed on")
	} else {
		sym.Assert(got == nil && err != nil && err.Error() == "why", "the error of the function is reported")
		sym.Assert(kind == 0 || err == fail, "the error of the function is reported")
		sym.Reach("reported")
	}
	doc, err = e.SafeParse([]byte("5 x 6"), "") // afterwards all is as before
	sym.Assert(err == nil, "a source of the grammar is accepted")
	xsame(doc, xdoc{"a": []interface{}{calls - 1}, "c": []xdoc{{"n": calls}}})
	sym.Reach("again")
}

// a function of the user makes the values
func X02_custom() {
	n := sym.Int("n")
	var got []string
	e, err := extractor.New("doc = *(INT/a_Ints | IDENT/b_c_Special | (STRING CHAR)/d_Pair)", &extractor.Options{
		GetValue: func(typ string, lit string) interface{} {
			got = append(got, typ+":"+lit)
			return n + len(got)
		},
	})
	sym.Assert(err == nil, "the grammar is accepted")
	k := sym.Choice("source", 4)
	doc, ok := xparse(e, []byte([]string{"1 x 2", "7", "x \"a\" 'b'", ""}[k]))
	sym.Assert(ok, "a source of the grammar is accepted")
	wantDoc := []xdoc{
		{"a": []interface{}{n + 1, n + 3}, "b_c": n + 2},
		{"a": []interface{}{n + 1}},
		{"b_c": n + 1, "d": n + 2},
		{},
	}[k]
	xsame(doc, wantDoc)
	wantGot := [][]string{{"Int:1", "Special:x", "Int:2"}, {"Int:7"}, {"Special:x", "Pair:\"a\""}, {}}[k]
	sym.Assert(len(got) == len(wantGot), "a value is made for every match")
	for i := range got {
		sym.Assert(got[i] == wantGot[i], "a value is made of the type of the mark and the text of the match")
	}
	sym.Reach("value")
}

// ---- X03: nodes that fail leave nothing ----

const x03Grammar = `
pair = INT/x_Int inner/in_Node ',' inner/in2_Nodes ';'
single = INT/x_Int inner/in_Node ';'
bare = INT/y_Ints +(',' INT/y_Ints) ';'
inner = (IDENT/a_Text '=' IDENT/b_Text)/eq_Node | IDENT/c_Text
doc = +(pair/p_Nodes | single/s_Nodes | bare/q_Nodes | (IDENT '!')/mark_Text)
`

// tokens: 0 number, 1 name, 2 ',', 3 ';', 4 '=', 5 '!'
type x03 struct {
	k    []int
	lit  []string
	vals []int64
}

func (p *x03) inner(i int) (m xdoc, n int) {
	if i+2 < len(p.k) && p.k[i] == 1 && p.k[i+1] == 4 && p.k[i+2] == 1 {
		return xdoc{"eq": xdoc{"a": p.lit[i], "b": p.lit[i+2]}}, 3
	}
	if i < len(p.k) && p.k[i] == 1 {
		return xdoc{"c": p.lit[i]}, 1
	}
	return nil, -1
}

func (p *x03) is(i, k int) bool { return i < len(p.k) && p.k[i] == k }

func (p *x03) item(i int, doc xdoc) int {
	put := func(k string, m xdoc) {
		a, _ := doc[k].([]xdoc)
		doc[k] = append(a, m)
	}
	if p.is(i, 0) {
		if m, n := p.inner(i + 1); n > 0 {
			j := i + 1 + n
			if p.is(j, 2) {
				if m2, n2 := p.inner(j + 1); n2 > 0 && p.is(j+1+n2, 3) {
					put("p", xdoc{"x": p.vals[i], "in": m, "in2": []xdoc{m2}})
					return j + 1 + n2 + 1
				}
			}
			if p.is(j, 3) {
				put("s", xdoc{"x": p.vals[i], "in": m})
				return j + 1
			}
		}
		l := []interface{}{p.vals[i]}
		j := i + 1
		for p.is(j, 2) && p.is(j+1, 0) {
			l = append(l, p.vals[j+1])
			j += 2
		}
		if len(l) > 1 && p.is(j, 3) {
			put("q", xdoc{"y": l})
			return j + 1
		}
		return -1
	}
	if p.is(i, 1) && p.is(i+1, 5) {
		doc["mark"] = p.lit[i]
		return i + 2
	}
	return -1
}

func X03_rollback() {
	e, err := extractor.New(x03Grammar, nil)
	sym.Assert(err == nil, "the grammar is accepted")
	p := &x03{}
	src := []byte{}
	n := sym.Choice("tokens", 1+sym.Bound("tokens", 6+sym.Tier()))
	marks := 0
	for i := 0; i < n; i++ {
		k := sym.Choice("token", 6)
		lit, val := "", int64(0)
		switch k {
		case 0:
			b := sym.Byte("d" + strconv.Itoa(i))
			sym.Assume(sym.And(b >= '0', b <= '9'))
			lit, val = string([]byte{b}), int64(b-'0')
		case 1:
			b := sym.Byte("i" + strconv.Itoa(i))
			sym.Assume(sym.And(b >= 'a', b <= 'z'))
			lit = string([]byte{b})
		default:
			lit = string(",;=!"[k-2])
			if k == 5 {
				marks++
			}
		}
		src = append(append(src, lit...), ' ')
		p.k, p.lit, p.vals = append(p.k, k), append(p.lit, lit), append(p.vals, val)
	}
	if marks > 1 {
		return // what a single member is that was matched twice is not said
	}
	want := xdoc{}
	i := 0
	for i >= 0 && i < n || i == 0 {
		i = p.item(i, want)
	}
	doc, ok := xparse(e, src)
	sym.Assert(ok == (i > 0), "a source is accepted exactly if the grammar matches it")
	if ok {
		xsame(doc, want)
		sym.Reach("document")
	}
}

// ---- X04: every parse makes its own document ----

func X04_reuse() {
	e, err := extractor.New(x03Grammar, nil)
	sym.Assert(err == nil, "the grammar is accepted")
	var docs, wants []xdoc
	n := sym.Bound("parses", 3)
	for i := 0; i < n; i++ {
		b := sym.Byte("d" + strconv.Itoa(i))
		sym.Assume(sym.And(b >= '0', b <= '9'))
		v, d := int64(b-'0'), string([]byte{b})
		var want xdoc
		src := ""
		switch sym.Choice("source", 7) {
		case 0:
			src, want = d+" a;", xdoc{"s": []xdoc{{"x": v, "in": xdoc{"c": "a"}}}}
		case 1:
			src, want = d+","+d+"; z!", xdoc{"q": []xdoc{{"y": []interface{}{v, v}}}, "mark": "z"}
		case 2:
			src, want = d+" a, b=c;", xdoc{"p": []xdoc{{"x": v, "in": xdoc{"c": "a"}, "in2": []xdoc{{"eq": xdoc{"a": "b", "b": "c"}}}}}}
		case 3:
			src = d + " a;" + d + " b="
		case 4:
			src = d + " a;" + d + "9999999999999999999 b;"
		case 5:
			src = ""
		case 6:
			src = d + " a; '"
		}
		doc, ok := xparse(e, []byte(src))
		sym.Assert(ok == (want != nil), "a source is accepted exactly if the grammar matches it")
		if ok {
			docs, wants = append(docs, doc), append(wants, want)
			sym.Reach("document")
		}
	}
	for i := range docs {
		xsame(docs[i], wants[i])
	}
}

// an interpreter that cannot be made is reported one way or the other
func X04_grammar() {
	k := sym.Choice("grammar", 10)
	g := []string{
		"doc = INT/nomark", "doc = INT/n_Int", "doc = INT/n_Ints", "x = INT/n_Int", "doc = x", "doc = (", "doc = INT/n_Node", "doc = INT/s", "doc = INT/Array", "doc = INT/n_IntArray"}[k]
	var e *extractor.Engine
	var err error
	bad := false
	func() {
		defer func() {
			if recover() != nil {
				bad = true
			}
		}()
		if sym.Choice("bytes", 2) == 1 {
			e, err = extractor.New([]byte(g), nil)
		} else {
			e, err = extractor.New(g, nil)
		}
	}()
	bad = bad || err != nil
	good := k == 1 || k == 2 || k == 6 || k == 9
	sym.Assert(bad == !good, "a grammar or mark that cannot be used is rejected")
	if bad {
		sym.Reach("rejected")
		return
	}
	doc, ok := xparse(e, []byte("5"))
	sym.Assert(ok, "a source of the grammar is accepted")
	switch k {
	case 1:
		xsame(doc, xdoc{"n": int64(5)})
	case 6:
		xsame(doc, xdoc{"n": xdoc{}})
	default:
		xsame(doc, xdoc{"n": []interface{}{int64(5)}})
	}
}

// line ends are separators if that is asked for
func X04_options() {
	semis := sym.Choice("semicolons", 2) == 1
	o := (*extractor.Options)(nil)
	if semis {
		o = extractor.InsertSemis
	}
	e, err := extractor.New("doc = +(INT/n_Ints ';')", o)
	sym.Assert(err == nil, "the grammar is accepted")
	var src []byte
	var want []interface{}
	k := 1 + sym.Choice("numbers", 2)
	ok := true
	for i := 0; i < k; i++ {
		b := sym.Byte("d" + strconv.Itoa(i))
		sym.Assume(sym.And(b >= '0', b <= '9'))
		sep := sym.Choice("separator", 3)
		src = append(append(src, b), []string{";", "\n", " "}[sep]...)
		want = append(want, int64(b-'0'))
		if sep == 1 && !semis || sep == 2 && (i < k-1 || !semis) {
			ok = false
		}
	}
	doc, got := xparse(e, src)
	sym.Assert(got == ok, "line ends are separators exactly if that is asked for")
	if ok {
		xsame(doc, xdoc{"n": want})
		sym.Reach("document")
	}
}

// xscanner reads names of one letter as numbers
type xscanner struct {
	*tpl.Scanner
	n int
}

func (p *xscanner) Scan() tpl.Token {
	t := p.Scanner.Scan()
	if t.Kind == tpl.IDENT && len(t.Literal) == 1 {
		p.n++
		t.Kind, t.Literal = tpl.INT, strconv.Itoa(p.n)
	}
	return t
}

// the scanner of the options is used, and all ways to extract give the same
func X04_ways() {
	o := &extractor.Options{}
	own := sym.Choice("scanner", 2) == 1
	if own {
		o.Scanner = &xscanner{Scanner: new(tpl.Scanner)}
	}
	e, err := extractor.New("doc = *(INT/n_Ints | IDENT/t_TextArray) ?('!' CHAR/c_Char)", o)
	sym.Assert(err == nil, "the grammar is accepted")
	var src []byte
	var ns, ts []interface{}
	count := 0
	for i, k := 0, sym.Choice("tokens", 4); i < k; i++ {
		b := sym.Byte("b" + strconv.Itoa(i))
		switch sym.Choice("token", 3) {
		case 0:
			sym.Assume(sym.And(b >= '0', b <= '9'))
			src = append(src, b, ' ')
			ns = append(ns, int64(b-'0'))
		case 1:
			sym.Assume(sym.And(b >= 'a', b <= 'z'))
			src = append(src, b, ' ')
			if own {
				count++
				ns = append(ns, int64(count))
			} else {
				ts = append(ts, string([]byte{b}))
			}
		case 2:
			sym.Assume(sym.And(b >= 'a', b <= 'z'))
			src = append(src, b, 'x', ' ')
			ts = append(ts, string([]byte{b, 'x'}))
		}
	}
	ok := true
	want := xdoc{}
	switch sym.Choice("tail", 3) {
	case 1:
		src = append(src, "!'a'"...)
		want["c"] = byte('a')
	case 2:
		src = append(src, "!"...)
		ok = false
	}
	if ns != nil {
		want["n"] = ns
	}
	if ts != nil {
		want["t"] = ts
	}
	var doc xdoc
	switch sym.Choice("way", 4) {
	case 0:
		doc, err = e.Parse(src, "")
	case 1:
		doc, err = e.SafeParse(src, "")
	case 2:
		doc, err = e.Extract(string(src))
	case 3:
		doc, err = e.SafeExtract(string(src))
	}
	sym.Assert((err == nil) == ok, "a source is accepted exactly if the grammar matches it")
	if !ok {
		sym.Assert(doc == nil, "an error comes without a document")
		return
	}
	xsame(doc, want)
	xsame(e.Result(), want)
}
