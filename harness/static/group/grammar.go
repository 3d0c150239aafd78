// Package group declares its grammar in a declaration of a function.
package group

func two() (int, string) { return 1, "doc = INT" }

var n, gr = two()

// Source returns the grammar.
func Source() string {
	var m, gr string
	m = gr
	{
		_ = n
	}
	_ = m
	return text()
}

func text() string {
	const (
		size = 4
		kind = 'x'
	)
	var (
		a, gr, b = 5, `doc = *(~')' IDENT/a | +INT/b | (CHAR STRING)/c | ?FLOAT ','/d) EOF`, "doc = INT"
	)
	_, _, _, _ = a, b, size, kind
	return gr
}
