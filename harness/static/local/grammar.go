// Package local declares its grammar in a function.
package local

var grammar string

type decoy struct{ grammar string }

func other() (string, string) { return "a", "b" }

// Source returns the grammar.
func (decoy) Source() string {
	n := 1
	n++
	var x, y string
	x, y = other()
	_, _ = x, y
	name, grammar := "doc = IDENT", `
term = factor *('*' factor/mul)
doc = term *('+' term/add)
factor = INT/push | '-' factor/neg | '(' doc ')' | @IDENT !call
call = IDENT '(' (doc %= ',')/arity ')'
`
	_ = name
	return grammar
}

// Source returns the grammar.
func Source() string { return decoy{}.Source() }

func init() {
	a, grammar := other()
	_, _ = a, grammar
}
