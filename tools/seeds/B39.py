prop='G01'
needs='A choice in parentheses of which an alternative has several parts, next to others on the stack.'
breaks='The generated choice takes the wrong operands.'
edits=[('tpl/generator/static_parser_gen.go', '\t\tstk[n-m] = fmt.Sprintf("tpl.Or(%s)", strings.Join(stk[n-m:], ","))\n\t\tstk = stk[:n-m+1]', '\t\tstk[n-m] = fmt.Sprintf("tpl.Or(%s)", strings.Join(stk[n-m:n-m+2], ","))\n\t\tstk = stk[:n-m+1]')]
demo='''
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/qiniu/text/tpl/generator"
)

// run generates code and runs it with body in main
func run(grammar, body string) {
	code, err := generator.GenStaticCode(grammar)
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp("", "gen")
	if err != nil {
		panic(err)
	}
	mod, _ := os.ReadFile("go.mod")
	os.WriteFile(filepath.Join(dir, "go.mod"), mod, 0o644)
	src := "package main\\n\\nimport (\\n\\"os\\"\\n\\"github.com/qiniu/text/tpl\\"\\n)\\n" + code +
		"\\nvar c = new(StaticCompiler)\\n\\nfunc ok(b bool) {\\n\\tif !b {\\n\\t\\tos.Exit(7)\\n\\t}\\n}\\n\\nvar _ tpl.Grammar\\n\\n" +
		"func match(s string) bool {\\n\\tr := c.Cl()\\n\\treturn r.MatchExactly([]byte(s), \\"\\") == nil\\n}\\n\\nfunc main() {\\n" + body + "\\n}\\n"
	os.WriteFile(filepath.Join(dir, "main.go"), []byte(src), 0o644)
	cmd := exec.Command("go", "run", ".")
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	os.RemoveAll(dir)
	if err != nil {
		fmt.Println(strings.TrimSpace(string(out)))
		panic("the generated code is not what it should be")
	}
}

func main() {
	run("doc = INT (IDENT | STRING | '!')", "ok(match(`1 a`)); ok(match(`1 \\"a\\"`)); ok(match(`1!`))")
}
'''
