prop="I03"
needs="A hexadecimal integer literal between 2^63 and 2^64."
breaks="The literal is read as a negative number instead of being reported as out of range."
edits=[("tpl/interpreter/interpreter.go","""func ParseInt(lit string) (v int64, err error) {
	switch lit[0] {
	case '0':
		if len(lit) == 1 {
			return
		}
		switch lit[1] {
		case 'x', 'X':
			return strconv.ParseInt(lit[2:], 16, 64)""","""func ParseInt(lit string) (v int64, err error) {
	switch lit[0] {
	case '0':
		if len(lit) == 1 {
			return
		}
		switch lit[1] {
		case 'x', 'X':
			u, err := strconv.ParseUint(lit[2:], 16, 64)
			return int64(u), err""")]
demo='''
package main

import "github.com/qiniu/text/tpl/interpreter"

func main() {
	if v, err := interpreter.ParseInt("0x7fffffffffffffff"); err != nil || v != 9223372036854775807 {
		panic("hexadecimal literal")
	}
	v, err := interpreter.ParseInt("0x8000000000000000")
	if err == nil {
		println(v)
		panic("out of range but not reported")
	}
}
'''
