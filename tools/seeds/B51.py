prop='G02'
needs='A grammar that is the second of several values of one declaration.'
breaks='Another value is taken for the grammar.'
edits=[('tpl/cmd/tplgen/main.go', 'basicLit, ok := valueSpec.Values[index].(*ast.BasicLit)', 'basicLit, ok := valueSpec.Values[0].(*ast.BasicLit)')]
demo=r'''
package main

import (
	"os"
	"os/exec"
	"path/filepath"
)

// a package whose grammar tplgen compiles, in a directory of its own
const grammar = "package gen\n\nconst other, grammar = \"doc = INT\", \"doc = IDENT\\n\"\n"

const use = `package main

import "demo/gen"

func main() {
	ret := (&gen.StaticCompiler{}).Cl()
	if err := ret.Eval("a"); err != nil {
		panic(err)
	}
}
`

func main() {
	dir, err := os.MkdirTemp("", "tplgen")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	mod, err := os.ReadFile("go.mod")
	if err != nil {
		panic(err)
	}
	sub := filepath.Join(dir, "gen")
	os.Mkdir(sub, 0o755)
	for name, text := range map[string]string{"go.mod": string(mod), "main.go": use, "gen/grammar.go": grammar} {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	run := func(where, name string, args ...string) {
		c := exec.Command(name, args...)
		c.Dir = where
		if out, err := c.CombinedOutput(); err != nil {
			os.RemoveAll(dir)
			panic(string(out))
		}
	}
	tool := filepath.Join(dir, "tplgen")
	run(dir, "go", "build", "-o", tool, "github.com/qiniu/text/tpl/cmd/tplgen")
	run(sub, tool, "-g", "grammar")
	run(dir, "go", "run", ".")
}
'''
