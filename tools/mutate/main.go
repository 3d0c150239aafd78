// mutate FILE: prints one mutant per line as JSON {off,end,new,line,kind}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	Off, End  int
	New, Kind string
	Line      int
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	enc := json.NewEncoder(os.Stdout)
	emit := func(a, b token.Pos, s, kind string) {
		enc.Encode(mut{off(a), off(b), s, kind, fs.Position(a).Line})
	}
	swap := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			return n.Tok == token.VAR
		case *ast.BinaryExpr:
			for _, s := range swap[n.Op] {
				emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, "op")
			}
		case *ast.IfStmt:
			emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "neg")
			emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never")
			emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always")
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
			emit(n.Pos(), n.End(), "", "del")
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				s := ""
				for _, r := range n.Rhs { // keep uses
					if s != "" {
						s += ","
					}
					s += text(r)
				}
				u := ""
				for range n.Rhs {
					if u != "" {
						u += ","
					}
					u += "_"
				}
				if len(n.Lhs) != len(n.Rhs) {
					u = ""
					for range n.Lhs {
						if u != "" {
							u += ","
						}
						u += "_"
					}
				}
				emit(n.Pos(), n.End(), u+" = "+s, "del")
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.Atoi(n.Value); err == nil {
					emit(n.Pos(), n.End(), fmt.Sprint(v+1), "const")
					if v > 0 {
						emit(n.Pos(), n.End(), fmt.Sprint(v-1), "const")
					}
				}
			}
		case *ast.Ident:
			if n.Name == "true" {
				emit(n.Pos(), n.End(), "false", "bool")
			} else if n.Name == "false" {
				emit(n.Pos(), n.End(), "true", "bool")
			}
		case *ast.CaseClause:
			if len(n.Body) > 0 {
				last := n.Body[len(n.Body)-1]
				_ = last
			}
		case *ast.BranchStmt:
			if n.Tok == token.CONTINUE && n.Label == nil {
				emit(n.Pos(), n.End(), "break", "branch")
			}
		}
		return true
	})
}
