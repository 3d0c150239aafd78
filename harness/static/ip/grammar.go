// Package ip gets a static interpreter that tplgen writes.
package ip

// Grammar has one operator for each kind of function.
var Grammar = `
elem = IDENT | INT | FLOAT
item =
	('+' elem/none) | ('-' elem/str) | ('*' elem/flo) | ('/' elem/int) | ('%' elem/lng) |
	('&' (*elem)/tok) | ('|' elem/eng) | ('^' (*elem)/ctx) | ('<' (*elem)/Len) | ('>' (elem %= ',')/_Len) |
	('=' elem/both) | ('!' elem/ipt) | ('?' elem/ip1) | ('~' elem/bad) | ('@' elem/Bad) |
	(':' (?elem)/tok3) | ('.' (+elem)/Len3) | ("++" elem/add) | ('(' elem/fail) | (')' elem/nofail) |
	('[' (*elem)/sub) | ("--" elem/deep) | ("<<" elem/_deep) |
	'{'/_mute | '}'/_unmute | ';'
body = *(IDENT/ipt | INT/fail | FLOAT/ip1 | '{'/_mute | '}'/_unmute | ('>' elem)/_Len)
doc = *item
`
