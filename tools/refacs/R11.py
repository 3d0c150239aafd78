# generator: text by builders and templates
checks = "G01"
F = "tpl/generator/static_parser_gen.go"
edits = [
(F, '''	list := func(tokens []tpl.Token, g tpl.Grammar) {
		n := len(stk)
		a, b := stk[n-2], stk[n-1]
		stk[n-2] = fmt.Sprintf("tpl.List(%s,%s)", a, b)
		stk = stk[:n-1]
	}
	list0 := func(tokens []tpl.Token, g tpl.Grammar) {
		n := len(stk)
		a, b := stk[n-2], stk[n-1]
		stk[n-2] = fmt.Sprintf("tpl.List0(%s,%s)", a, b)
		stk = stk[:n-1]
	}
''', '''	wrap := func(fn string, n int) {
		from := len(stk) - n
		stk = append(stk[:from], "tpl."+fn+"("+strings.Join(stk[from:], ",")+")")
	}
	wrapper := func(fn string, n int) func([]tpl.Token, tpl.Grammar) {
		return func([]tpl.Token, tpl.Grammar) {
			wrap(fn, n)
		}
	}
	list, list0 := wrapper("List", 2), wrapper("List0", 2)
'''),
(F, '''	repeat0 := func(tokens []tpl.Token, g tpl.Grammar) {
		n := len(stk)
		a := stk[n-1]
		stk[n-1] = fmt.Sprintf("tpl.Repeat0(%s)", a)
	}

	repeat1 := func(tokens []tpl.Token, g tpl.Grammar) {
		n := len(stk)
		a := stk[n-1]
		stk[n-1] = fmt.Sprintf("tpl.Repeat1(%s)", a)
	}

	repeat01 := func(tokens []tpl.Token, g tpl.Grammar) {
		n := len(stk)
		a := stk[n-1]
		stk[n-1] = fmt.Sprintf("tpl.Repeat01(%s)", a)
	}

	not := func(tokens []tpl.Token, g tpl.Grammar) {
		n := len(stk)
		a := stk[n-1]
		stk[n-1] = fmt.Sprintf("tpl.Not(%s)", a)
	}

	peek := func(tokens []tpl.Token, g tpl.Grammar) {
		n := len(stk)
		a := stk[n-1]
		stk[n-1] = fmt.Sprintf("tpl.Peek(%s)", a)
	}
''', '''	repeat0, repeat1, repeat01 := wrapper("Repeat0", 1), wrapper("Repeat1", 1), wrapper("Repeat01", 1)
	not, peek := wrapper("Not", 1), wrapper("Peek", 1)
'''),
(F, '''		stk[n-m] = fmt.Sprintf("tpl.And(%s)", strings.Join(stk[n-m:], ","))
		stk = stk[:n-m+1]
''', '''		wrap("And", m)
'''),
(F, '''		n := len(stk)
		stk[n-m] = fmt.Sprintf("tpl.Or(%s)", strings.Join(stk[n-m:], ","))
		stk = stk[:n-m+1]
''', '''		wrap("Or", m)
'''),
(F, '''	for _, k := range names {
		x := goName(k)
		if v, ok := vars[k]; ok {
			declarations += fmt.Sprintf("%s = tpl.Var(\\"%s\\")\\n", x, k)
			assignments += fmt.Sprintf("// GrVar %s\\n%s.Assign(%s)\\n", k, x, v)
		} else {
			declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\\n", x)
			assignments += fmt.Sprintf("// GrNamed %s\\n%s.Assign(\\"%s\\", %s)\\n", k, x, k, grammars[k])
		}
		rules += fmt.Sprintf("\\"%s\\": %s,\\n", k, x)
	}
	declarations += ")\\n"
''', '''	var assign2, rules2 strings.Builder
	for i := range names {
		k := names[i]
		x := goName(k)
		v, isVar := vars[k]
		if isVar {
			declarations += x + " = tpl.Var(" + strconv.Quote(k) + ")\\n"
			fmt.Fprintf(&assign2, "%s.Assign(%s)\\n", x, v)
		} else {
			declarations += x + " = &tpl.GrNamed{}\\n"
			fmt.Fprintf(&assign2, "%s.Assign(%q, %s)\\n", x, k, grammars[k])
		}
		rules2.WriteString(strconv.Quote(k) + ": " + x + ",\\n")
	}
	assignments, rules = assign2.String(), rules2.String()
	declarations += ")\\n"
'''),
]
