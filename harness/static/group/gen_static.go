package group

import (
	

	"github.com/qiniu/text/tpl"
	
)


type StaticCompiler struct {
	Grammar  string
	Marker   func(g tpl.Grammar, mark string) tpl.Grammar
	Init     func()
	Scanner  tpl.Tokener
	ScanMode tpl.ScanMode
}
func(cmplr *StaticCompiler)Cl()tpl.CompileRet{
if cmplr.Marker == nil {
	cmplr.Marker = func(g tpl.Grammar, mark string) tpl.Grammar { return g }
}
if cmplr.Scanner == nil {
	cmplr.Scanner = new(tpl.AutoKwScanner)
}
var (
doc = new(tpl.GrNamed)
)
// GrNamed doc
doc.Assign("doc", tpl.And(tpl.Repeat0(tpl.Or(tpl.And(tpl.Not(tpl.Gr(')')),cmplr.Marker(tpl.Gr(tpl.IDENT),"a")),cmplr.Marker(tpl.Repeat1(tpl.Gr(tpl.INT)),"b"),cmplr.Marker(tpl.And(tpl.Gr(tpl.CHAR),tpl.Gr(tpl.STRING)),"c"),tpl.And(tpl.Repeat01(tpl.Gr(tpl.FLOAT)),cmplr.Marker(tpl.Gr(','),"d")))),tpl.GrEOF))
ret := tpl.CompileRet{}
ret.Matcher = &tpl.Matcher{
		Grammar: doc,
		Scanner: cmplr.Scanner,
		ScanMode: cmplr.ScanMode,
		Init: cmplr.Init,
	}
ret.Grammars = map[string]tpl.Grammar{
"doc": doc,
}
return ret}

