# generated code: words in a sorted table, output by a builder, operators by a helper; tplgen: early exits, text made before the file
checks = "G01 G02"
S = "tpl/generator/static_parser_gen.go"
M = "tpl/cmd/tplgen/main.go"
edits = [
(S, '''	switch name {
	case "_", "cmplr", "new", "nil", "ret", "string", "tpl", "true":
		return "Gr_" + name
	}
	if token.IsKeyword(name) {
		return "Gr_" + name
	}
	return name
}
''', '''	i := sort.SearchStrings(taken, name)
	if found := i < len(taken) && taken[i] == name; found || token.Lookup(name).IsKeyword() {
		name = "Gr_" + name
	}
	return name
}

var taken = []string{"_", "cmplr", "new", "nil", "ret", "string", "tpl", "true"}
'''),
(S, '''	"go/token"
	"strconv"
''', '''	"go/token"
	"sort"
	"strconv"
'''),
(S, '''	list := func(tokens []tpl.Token, g tpl.Grammar) {
		n := len(stk)
		a, b := stk[n-2], stk[n-1]
		stk[n-2] = fmt.Sprintf("tpl.List(%s,%s)", a, b)
		stk = stk[:n-1]
	}
	list0 := func(tokens []tpl.Token, g tpl.Grammar) {
		n := len(stk)
		a, b := stk[n-2], stk[n-1]
		stk[n-2] = fmt.Sprintf("tpl.List0(%s,%s)", a, b)
		stk = stk[:n-1]
	}
''', '''	apply := func(fn string, m int) {
		rest, args := stk[:len(stk)-m], stk[len(stk)-m:]
		stk = append(rest, "tpl."+fn+"("+strings.Join(args, ",")+")")
	}
	list := func(tokens []tpl.Token, g tpl.Grammar) { apply("List", 2) }
	list0 := func(tokens []tpl.Token, g tpl.Grammar) { apply("List0", 2) }
'''),
(S, '''		stk[n-m] = fmt.Sprintf("tpl.And(%s)", strings.Join(stk[n-m:], ","))
		stk = stk[:n-m+1]
''', '''		apply("And", m)
'''),
(S, '''		if m == 1 {
			return
		}
		n := len(stk)
		stk[n-m] = fmt.Sprintf("tpl.Or(%s)", strings.Join(stk[n-m:], ","))
		stk = stk[:n-m+1]
''', '''		if m != 1 {
			apply("Or", m)
		}
'''),
(S, '''	repeat0 := func(tokens []tpl.Token, g tpl.Grammar) {
		n := len(stk)
		a := stk[n-1]
		stk[n-1] = fmt.Sprintf("tpl.Repeat0(%s)", a)
	}
''', '''	repeat0 := func(tokens []tpl.Token, g tpl.Grammar) { apply("Repeat0", 1) }
'''),
(S, '''	var (
		declarations string = "var (\\n"
		assignments  string
		rules        string
	)
	for k, v := range vars {
		if v == "" {
			return "", fmt.Errorf("variable `%s` is not assigned", k)
		}
	}
''', '''	for k, v := range vars {
		if len(v) == 0 {
			return "", fmt.Errorf("variable `%s` is not assigned", k)
		}
	}
	_, known := grammars["doc"]
	if _, ok := vars["doc"]; !ok && !known {
		return "", tpl.ErrNoDoc
	}
	var decls, assigns, table strings.Builder
'''),
(S, '''			declarations += fmt.Sprintf("%s = tpl.Var(\\"%s\\")\\n", x, k)
			assignments += fmt.Sprintf("// GrVar %s\\n%s.Assign(%s)\\n", k, x, v)
		} else {
			declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\\n", x)
			assignments += fmt.Sprintf("// GrNamed %s\\n%s.Assign(\\"%s\\", %s)\\n", k, x, k, grammars[k])
		}
		rules += fmt.Sprintf("\\"%s\\": %s,\\n", k, x)
	}
	declarations += ")\\n"
	_, ok := grammars["doc"]
	if !ok {
		_, ok = vars["doc"]
	}
	if ok {
		output''', '''			fmt.Fprintf(&decls, "	%s = tpl.Var(%q)\\n", x, k)
			assigns.WriteString(strings.Join([]string{x, ".Assign(", v, ") // variable\\n"}, ""))
		} else {
			decls.WriteString("	" + x + " = new(tpl.GrNamed)\\n")
			assigns.WriteString(x + ".Assign(" + strconv.Quote(k) + ", " + grammars[k] + ") // named\\n")
		}
		fmt.Fprintf(&table, "%q: %s,\\n", k, x)
	}
	{
		declarations := "var (\\n" + decls.String() + ")\\n"
		assignments, rules := assigns.String(), table.String()
		output'''),
(S, '''		return output, nil
	}
	return "", tpl.ErrNoDoc
}
''', '''		return output, nil
	}
}
'''),
(M, '''			index := -1
			for i, ident := range valueSpec.Names {
				if ident.Name == grammarName {
					index = i
				}
			}
			if index != -1 && index < len(valueSpec.Values) {
				basicLit, ok := valueSpec.Values[index].(*ast.BasicLit)
				if ok && basicLit.Kind == token.STRING {
					return basicLit.Value
				}
			}
''', '''			index := len(valueSpec.Names) - 1
			for index >= 0 && valueSpec.Names[index].Name != grammarName {
				index--
			}
			if index < 0 || index >= len(valueSpec.Values) {
				continue
			}
			if lit := stringLit(valueSpec.Values[index]); lit != "" {
				return lit
			}
'''),
(M, '''func findInAssignment(assignStmt *ast.AssignStmt, grammarName string) string {
	index := -1
	for i, expr := range assignStmt.Lhs {
		ident, ok := expr.(*ast.Ident)
		if ok {
			if ident.Name == grammarName {
				index = i
				break
			}
		}
	}
	if index != -1 && index < len(assignStmt.Rhs) {
		basicLit, ok := assignStmt.Rhs[index].(*ast.BasicLit)
		if ok && basicLit.Kind == token.STRING {
			return basicLit.Value
		}
	}
	return ""
}
''', '''func stringLit(expr ast.Expr) string {
	switch lit := expr.(type) {
	case *ast.BasicLit:
		if lit.Kind == token.STRING {
			return lit.Value
		}
	}
	return ""
}

func findInAssignment(assignStmt *ast.AssignStmt, grammarName string) string {
	for i, expr := range assignStmt.Lhs {
		if ident, ok := expr.(*ast.Ident); ok && ident.Name == grammarName {
			if i < len(assignStmt.Rhs) {
				return stringLit(assignStmt.Rhs[i])
			}
			break
		}
	}
	return ""
}
'''),
(M, '''	fd, err := os.OpenFile(*outputFileName, os.O_RDWR|os.O_CREATE, 0664)
	exitIfNotNil(err)
	defer fd.Close()
''', ''),
(M, '''	t.Execute(fd, map[string]interface{}{
		"packageName":    packageName,
		"genInterpreter": *genInterpreter,
		"code":           code,
	})
}''', '''	var text bytes.Buffer
	exitIfNotNil(t.Execute(&text, map[string]interface{}{
		"packageName":    packageName,
		"genInterpreter": *genInterpreter,
		"code":           code,
	}))
	exitIfNotNil(ioutil.WriteFile(*outputFileName, text.Bytes(), 0664))
}'''),
(M, '''import (
	"errors"
''', '''import (
	"bytes"
	"errors"
'''),
(M, '''	"go/token"
''', '''	"go/token"
	"io/ioutil"
'''),
]
