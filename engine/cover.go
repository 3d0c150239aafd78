package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa/ssautil"
)

// coverFile gets a line "file:line hit|miss" for each source line of /repo: a map for the people who extend the harness.
var coverFile string

func writeCover() {
	if coverFile == "" {
		return
	}
	lines := map[string]bool{}
	for f := range ssautil.AllFunctions(P.prog) {
		fn := P.fnOf(f)
		if !fn.isRepo {
			continue
		}
		fn.ensure()
		for pc := range fn.code {
			if p := fn.code[pc].pos; p != token.NoPos {
				at := P.prog.Fset.Position(p)
				k := fmt.Sprintf("%s:%d", at.Filename, at.Line)
				lines[k] = lines[k] || fn.hit != nil && fn.hit[pc]
			}
		}
	}
	var out []string
	for k, v := range lines {
		out = append(out, fmt.Sprintf("%s %v\n", k, v))
	}
	sort.Strings(out)
	w, err := os.OpenFile(coverFile, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	defer w.Close()
	for _, l := range out {
		w.WriteString(l)
	}
}
