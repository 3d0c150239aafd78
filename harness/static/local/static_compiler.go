package local

import (
	

	"github.com/qiniu/text/tpl"
	
)


type StaticCompiler struct {
	Grammar  string
	Marker   func(g tpl.Grammar, mark string) tpl.Grammar
	Init     func()
	Scanner  tpl.Tokener
	ScanMode tpl.ScanMode
}
func(cmplr *StaticCompiler)Cl()tpl.CompileRet{
if cmplr.Marker == nil {
	cmplr.Marker = func(g tpl.Grammar, mark string) tpl.Grammar { return g }
}
if cmplr.Scanner == nil {
	cmplr.Scanner = new(tpl.AutoKwScanner)
}
var (
term = new(tpl.GrNamed)
doc = new(tpl.GrNamed)
factor = tpl.Var("factor")
call = tpl.Var("call")
)
// GrNamed term
term.Assign("term", tpl.And(factor,tpl.Repeat0(tpl.And(tpl.Gr('*'),cmplr.Marker(factor,"mul")))))
// GrNamed doc
doc.Assign("doc", tpl.And(term,tpl.Repeat0(tpl.And(tpl.Gr('+'),cmplr.Marker(term,"add")))))
// GrVar factor
factor.Assign(tpl.Or(cmplr.Marker(tpl.Gr(tpl.INT),"push"),tpl.And(tpl.Gr('-'),cmplr.Marker(factor,"neg")),tpl.And(tpl.Gr('('),doc,tpl.Gr(')')),tpl.And(tpl.Peek(tpl.Gr(tpl.IDENT)),nil,call)))
// GrVar call
call.Assign(tpl.And(tpl.Gr(tpl.IDENT),tpl.Gr('('),cmplr.Marker(tpl.List0(doc,tpl.Gr(',')),"arity"),tpl.Gr(')')))
ret := tpl.CompileRet{}
ret.Matcher = &tpl.Matcher{
		Grammar: doc,
		Scanner: cmplr.Scanner,
		ScanMode: cmplr.ScanMode,
		Init: cmplr.Init,
	}
ret.Grammars = map[string]tpl.Grammar{
"term": term,
"doc": doc,
"factor": factor,
"call": call,
}
return ret}

