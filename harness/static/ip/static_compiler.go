package ip

import (
	
	"errors"
	"fmt"
	"reflect"
	"strconv"
	

	"github.com/qiniu/text/tpl"
	
	"github.com/qiniu/text/tpl/interpreter.util"
	
)

// -----------------------------------------------------------------------------

var (
	typeIntf    = reflect.TypeOf((*interface{})(nil)).Elem()
	typeEng     = reflect.TypeOf((*interpreter.Engine)(nil)).Elem()
	typeCtx     = reflect.TypeOf((*interpreter.Context)(nil))
	typeFline   = reflect.TypeOf((*interpreter.FileLine)(nil))
	zeroIntfVal = reflect.Zero(typeIntf)
)

func ParseInt(lit string) (v int64, err error) {

	switch lit[0] {
	case '0':
		if len(lit) == 1 {
			return
		}
		switch lit[1] {
		case 'x', 'X':
			return strconv.ParseInt(lit[2:], 16, 64)
		default:
			return strconv.ParseInt(lit[1:], 8, 64)
		}
	default:
		return strconv.ParseInt(lit, 10, 64)
	}
}

func ParseFloat(lit string) (v float64, err error) {

	switch lit[0] {
	case '0':
		if len(lit) == 1 {
			return
		}
		switch lit[1] {
		case 'x', 'X':
			v1, err1 := strconv.ParseInt(lit[2:], 16, 64)
			return float64(v1), err1
		default:
			v1, err1 := strconv.ParseInt(lit[1:], 8, 64)
			if err1 == nil {
				return float64(v1), nil
			}
			if e, ok := err1.(*strconv.NumError); ok && e.Err == strconv.ErrRange {
				return float64(v1), err1
			}
		}
	}
	return strconv.ParseFloat(lit, 64)
}


func GetValue(t reflect.Type, lit string) (ret reflect.Value, err error) {

	switch t.Kind() {
	case reflect.String:
		return reflect.ValueOf(lit), nil
	case reflect.Float64:
		v, err1 := ParseFloat(lit)
		if err1 != nil {
			err = err1
			return
		}
		return reflect.ValueOf(v), nil
	case reflect.Int64:
		v, err1 := ParseInt(lit)
		if err1 != nil {
			err = err1
			return
		}
		return reflect.ValueOf(v), nil
	case reflect.Int:
		v, err1 := ParseInt(lit)
		if err1 != nil {
			err = err1
			return
		}
		return reflect.ValueOf(int(v)), nil
	}
	err = errors.New("unsupported type: " + t.String())
	return
}

// -----------------------------------------------------------------------------

type RuntimeError struct {
	Grammar tpl.Grammar
	Ctx     tpl.Context
	Err     error
	Src     []tpl.Token
}

func (p *RuntimeError) Error() string {
	if p.Ctx == nil {
		return fmt.Sprintf("runtime error: %v", p.Err)
	}
	s := p.Ctx.Tokener()
	file, line := tpl.FileLine(p.Src, s)
	if file == "" {
		return fmt.Sprintf("line %d: runtime error: %v", line, p.Err)
	}
	return fmt.Sprintf("%s:%d: runtime error: %v", file, line, p.Err)
}

// -----------------------------------------------------------------------------

type Options struct {
	Scanner  tpl.Tokener
	ScanMode tpl.ScanMode
}

type Engine struct {
	*tpl.CompileRet
	Interpreter interpreter.Interface
	mute        int
}

type fnCaller interface {
	CallFn(fn interface{})
}

var (
	optionsDef Options
	ptrError   *error
	typeError  = reflect.TypeOf(ptrError).Elem()
	typeInt    = reflect.TypeOf(0)
)

var (
	InsertSemis = &Options{ScanMode: tpl.InsertSemis}
)

func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engine, err error) {

	if options == nil {
		options = &optionsDef
	}

	p = new(Engine)

	stk := ipt.Stack()
	tstk := reflect.TypeOf(stk)
	tipt := reflect.TypeOf(ipt)
	compiler := new(StaticCompiler)
	vEngine := reflect.ValueOf(interpreter.Engine(p))
	fnCaller, hasFnCaller := ipt.(fnCaller)

	fntable := ipt.Fntable()
	initer := func() {
		p.mute = 0 // bugfix: 语法匹配过程有可能有异常，需要通过 init 完成 mute 状态的重置
	}
	marker := func(g tpl.Grammar, mark string) tpl.Grammar {
		fn, ok := fntable["$"+mark]
		if !ok {
			switch mark {
			case "_mute":
				return tpl.Action(g, func(tokens []tpl.Token, g tpl.Grammar) {
					p.mute++
				})
			case "_unmute":
				return tpl.Action(g, func(tokens []tpl.Token, g tpl.Grammar) {
					p.mute--
				})
			case "_tr":
				return tpl.Action(g, func(tokens []tpl.Token, g tpl.Grammar) {
					println(string(tpl.Source(tokens, compiler.Scanner)))
				})
			default:
				panic("invalid grammar mark: " + mark)
			}
		}
		tfn := reflect.TypeOf(fn)
		if tfn.Kind() != reflect.Func {
			panic("function table item not a function: " + mark)
		}
		if tfn.IsVariadic() {
			panic("invalid mark - doesn't support variadic function: " + mark)
		}
		n := tfn.NumIn()
		if n < 1 {
			panic("invalid function (no param): " + mark)
		}
		trecvr := tfn.In(0)
		kindRecvr := 0
		if trecvr == tstk {
			kindRecvr = 1
		} else if trecvr == tipt {
			kindRecvr = 2
		}
		if kindRecvr > 0 {
			if n > 3 {
				panic("invalid function (too many params): " + mark)
			}
			if nout := tfn.NumOut(); nout > 0 {
				if nout != 1 {
					panic("invalid function (too many return values): " + mark)
				}
				if tfn.Out(0) != typeError {
					panic("invalid function (return type isn't error): " + mark)
				}
			}
		}
		idxLen := 0
		if mark[0] == '_' {
			idxLen++
		}
		isLen := (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') // 用大写的mark表示取Grammar.Len()
		action := func(tokens []tpl.Token, g tpl.Grammar) {
			if p.mute > 0 { // 禁止所有非 '_' 开头的 action
				if mark[0] != '_' || p.mute > 1 {
					return
				}
			}
			defer func() {
				if e := recover(); e != nil {
					if err, ok := e.(*RuntimeError); ok {
						panic(err)
					}
					if err, ok := e.(*tpl.MatchError); ok {
						panic(err)
					}
					err, ok := e.(error)
					if !ok {
						if s, ok := e.(string); ok {
							err = errors.New(s)
						} else {
							panic(e)
						}
					}
					err = &RuntimeError{
						Grammar: g,
						Ctx:     p.Matcher,
						Err:     err,
						Src:     tokens,
					}
					panic(err)
				}
			}()
			if kindRecvr > 0 {
				args := make([]reflect.Value, n)
				if kindRecvr == 1 {
					args[0] = reflect.ValueOf(stk)
				} else {
					args[0] = reflect.ValueOf(p.Interpreter)
				}
				if n >= 2 {
					targ1 := tfn.In(1)
					if isLen {
						if targ1 != typeInt {
							panic("invalid function (second argument type isn't int): " + mark)
						}
						args[1] = reflect.ValueOf(g.Len())
					} else {
						switch targ1 {
						case typeCtx:
							args[1] = p.ctxValue(tokens)
						case typeIntf:
							if len(tokens) == 0 { // use nil as empty source
								args[1] = zeroIntfVal
							} else {
								args[1] = reflect.ValueOf(tokens)
							}
						case typeEng:
							args[1] = vEngine
						case typeFline:
							file, line := tpl.FileLine(tokens, p.Scanner)
							args[1] = reflect.ValueOf(&interpreter.FileLine{
								File: file,
								Line: line,
							})
						default:
							v, err := GetValue(targ1, tokens[0].Literal)
							if err != nil {
								panic("invalid function `" + mark + "` argument, " + err.Error())
							}
							args[1] = v
						}
					}
				}
				if n == 3 {
					args[2] = p.ctxValue(tokens)
				}
				ret := reflect.ValueOf(fn).Call(args)
				if len(ret) > 0 {
					if retv := ret[0].Interface(); retv != nil {
						panic(retv.(error))
					}
				}
			} else if hasFnCaller {
				fnCaller.CallFn(fn)
			} else {
				if err := interpreter.DoCall(stk, fn, n, n, false); err != nil {
					panic("call function `$" + mark + "`: " + err.Error())
				}
			}
		}
		return tpl.Action(g, action)
	}

	compiler.Scanner = options.Scanner
	compiler.ScanMode = options.ScanMode
	compiler.Marker = marker
	compiler.Init = initer
	ret := compiler.Cl()
	p.CompileRet = &ret
	p.Interpreter = ipt
	return
}

func (p *Engine) ctxValue(tokens []tpl.Token) reflect.Value {

	ctx := &interpreter.Context{Src: tokens, Engine: interpreter.Engine(p)}
	if len(tokens) > 0 {
		ctx.Pos = tokens[0].Pos
		ctx.End = tokens[len(tokens)-1].End()
	}
	return reflect.ValueOf(ctx)
}

func (p *Engine) Source(src interface{}) (text []byte) {

	if src == nil {
		return
	}
	return tpl.Source(src.([]tpl.Token), p.Scanner)
}


func (p *Engine) FileLine(src interface{}) (f interpreter.FileLine) {

	if src == nil {
		return
	}
	f.File, f.Line = tpl.FileLine(src.([]tpl.Token), p.Scanner)
	return
}

func (p *Engine) EvalCode(fn interpreter.Interface, name string, src interface{}) error {

	old := p.Interpreter
	mute := p.mute
	p.Interpreter = fn
	defer func() { // 正常的 return 使用了 panic，所以需要保护
		p.Interpreter = old
		p.mute = mute
	}()
	return p.EvalSub(name, src)
}

//


type StaticCompiler struct {
	Grammar  string
	Marker   func(g tpl.Grammar, mark string) tpl.Grammar
	Init     func()
	Scanner  tpl.Tokener
	ScanMode tpl.ScanMode
}
func(cmplr *StaticCompiler)Cl()tpl.CompileRet{
if cmplr.Marker == nil {
	cmplr.Marker = func(g tpl.Grammar, mark string) tpl.Grammar { return g }
}
if cmplr.Scanner == nil {
	cmplr.Scanner = new(tpl.AutoKwScanner)
}
var (
elem = new(tpl.GrNamed)
item = new(tpl.GrNamed)
body = new(tpl.GrNamed)
doc = new(tpl.GrNamed)
)
// GrNamed elem
elem.Assign("elem", tpl.Or(tpl.Gr(tpl.IDENT),tpl.Gr(tpl.INT),tpl.Gr(tpl.FLOAT)))
// GrNamed item
item.Assign("item", tpl.Or(tpl.And(tpl.Gr('+'),cmplr.Marker(elem,"none")),tpl.And(tpl.Gr('-'),cmplr.Marker(elem,"str")),tpl.And(tpl.Gr('*'),cmplr.Marker(elem,"flo")),tpl.And(tpl.Gr('/'),cmplr.Marker(elem,"int")),tpl.And(tpl.Gr('%'),cmplr.Marker(elem,"lng")),tpl.And(tpl.Gr('&'),cmplr.Marker(tpl.Repeat0(elem),"tok")),tpl.And(tpl.Gr('|'),cmplr.Marker(elem,"eng")),tpl.And(tpl.Gr('^'),cmplr.Marker(tpl.Repeat0(elem),"ctx")),tpl.And(tpl.Gr('<'),cmplr.Marker(tpl.Repeat0(elem),"Len")),tpl.And(tpl.Gr('>'),cmplr.Marker(tpl.List0(elem,tpl.Gr(',')),"_Len")),tpl.And(tpl.Gr('='),cmplr.Marker(elem,"both")),tpl.And(tpl.Gr('!'),cmplr.Marker(elem,"ipt")),tpl.And(tpl.Gr('?'),cmplr.Marker(elem,"ip1")),tpl.And(tpl.Gr('~'),cmplr.Marker(elem,"bad")),tpl.And(tpl.Gr('@'),cmplr.Marker(elem,"Bad")),tpl.And(tpl.Gr(':'),cmplr.Marker(tpl.Repeat01(elem),"tok3")),tpl.And(tpl.Gr('.'),cmplr.Marker(tpl.Repeat1(elem),"Len3")),tpl.And(tpl.Gr(cmplr.Scanner.Ltot("\"++\"")),cmplr.Marker(elem,"add")),tpl.And(tpl.Gr('('),cmplr.Marker(elem,"fail")),tpl.And(tpl.Gr(')'),cmplr.Marker(elem,"nofail")),tpl.And(tpl.Gr('['),cmplr.Marker(tpl.Repeat0(elem),"sub")),tpl.And(tpl.Gr(cmplr.Scanner.Ltot("\"--\"")),cmplr.Marker(elem,"deep")),tpl.And(tpl.Gr(cmplr.Scanner.Ltot("\"<<\"")),cmplr.Marker(elem,"_deep")),cmplr.Marker(tpl.Gr('{'),"_mute"),cmplr.Marker(tpl.Gr('}'),"_unmute"),tpl.Gr(';')))
// GrNamed body
body.Assign("body", tpl.Repeat0(tpl.Or(cmplr.Marker(tpl.Gr(tpl.IDENT),"ipt"),cmplr.Marker(tpl.Gr(tpl.INT),"fail"),cmplr.Marker(tpl.Gr(tpl.FLOAT),"ip1"),cmplr.Marker(tpl.Gr('{'),"_mute"),cmplr.Marker(tpl.Gr('}'),"_unmute"),cmplr.Marker(tpl.And(tpl.Gr('>'),elem),"_Len"))))
// GrNamed doc
doc.Assign("doc", tpl.Repeat0(item))
ret := tpl.CompileRet{}
ret.Matcher = &tpl.Matcher{
		Grammar: doc,
		Scanner: cmplr.Scanner,
		ScanMode: cmplr.ScanMode,
		Init: cmplr.Init,
	}
ret.Grammars = map[string]tpl.Grammar{
"elem": elem,
"item": item,
"body": body,
"doc": doc,
}
return ret}

