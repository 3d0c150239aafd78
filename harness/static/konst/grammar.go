// Package konst declares its grammar in an interpreted string.
package konst

const Other = `doc = CHAR`

const (
	first, Text = 1, "\n\tlist = INT % ','\n" +
		""
	number, Grammar = 1, "\n\tlist = INT/x % \",\"\n\x64oc = \"l\u0065t\" IDENT '=' ! list/y ?\";\"\n"
	last            = "doc = IDENT"
)
