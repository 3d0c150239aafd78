package konst

import (
	

	"github.com/qiniu/text/tpl"
	
)


type StaticCompiler struct {
	Grammar  string
	Marker   func(g tpl.Grammar, mark string) tpl.Grammar
	Init     func()
	Scanner  tpl.Tokener
	ScanMode tpl.ScanMode
}
func(cmplr *StaticCompiler)Cl()tpl.CompileRet{
if cmplr.Marker == nil {
	cmplr.Marker = func(g tpl.Grammar, mark string) tpl.Grammar { return g }
}
if cmplr.Scanner == nil {
	cmplr.Scanner = new(tpl.AutoKwScanner)
}
var (
list = new(tpl.GrNamed)
doc = new(tpl.GrNamed)
)
// GrNamed list
list.Assign("list", tpl.List(cmplr.Marker(tpl.Gr(tpl.INT),"x"),tpl.Gr(cmplr.Scanner.Ltot("\",\""))))
// GrNamed doc
doc.Assign("doc", tpl.And(tpl.Gr(cmplr.Scanner.Ltot("\"let\"")),tpl.Gr(tpl.IDENT),tpl.Gr('='),nil,cmplr.Marker(list,"y"),tpl.Repeat01(tpl.Gr(cmplr.Scanner.Ltot("\";\"")))))
ret := tpl.CompileRet{}
ret.Matcher = &tpl.Matcher{
		Grammar: doc,
		Scanner: cmplr.Scanner,
		ScanMode: cmplr.ScanMode,
		Init: cmplr.Init,
	}
ret.Grammars = map[string]tpl.Grammar{
"list": list,
"doc": doc,
}
return ret}

