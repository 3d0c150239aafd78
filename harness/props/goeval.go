package props

import (
	"go/ast"
	"go/parser"
	"go/token"
	"reflect"
	"strconv"

	"verif/sym"

	"github.com/qiniu/text/tpl"
)

// An interpreter for generated Go code: the text is parsed by go/parser, values are handled through reflect. Code that is
// not Go (as far as syntax, names and assignability go) violates; Go that is not modelled leaves the path undecided.

const notGo = "the generated code is Go"

type gconst int // an untyped integer or character constant

type govar struct {
	v    reflect.Value // settable, or a constant, function or type
	typ  reflect.Type  // a type name
	fn   *ast.FuncDecl
	used bool
}

type goscope struct {
	names map[string]*govar
	up    *goscope
}

type goeval struct {
	methods map[string]*ast.FuncDecl
	funcs   map[string]*ast.FuncDecl
	recv    string // name of the generated type
	file    *goscope
	depth   int
}

type goframe struct {
	*goeval
	env  *goscope
	res  []reflect.Type
	ret  []reflect.Value
	done bool
}

// genCompiler stands for the type that is declared by the generated code.
type genCompiler struct {
	Grammar  string
	Marker   func(g tpl.Grammar, mark string) tpl.Grammar
	Init     func()
	Scanner  tpl.Tokener
	ScanMode tpl.ScanMode
}

var (
	tGrammar = reflect.TypeOf((*tpl.Grammar)(nil)).Elem()
	tTokener = reflect.TypeOf((*tpl.Tokener)(nil)).Elem()
	goTypes  = map[string]reflect.Type{
		"Grammar": tGrammar, "Tokener": tTokener, "ScanMode": reflect.TypeOf(tpl.ScanMode(0)), "CompileRet": reflect.TypeOf(tpl.CompileRet{}),
		"Matcher": reflect.TypeOf(tpl.Matcher{}), "GrVar": reflect.TypeOf(tpl.GrVar{}), "GrNamed": reflect.TypeOf(tpl.GrNamed{}),
		"AutoKwScanner": reflect.TypeOf(tpl.AutoKwScanner{}), "Scanner": reflect.TypeOf(tpl.Scanner{}), "Token": reflect.TypeOf(tpl.Token{}),
		"Compiler": reflect.TypeOf(tpl.Compiler{}),
	}
	goBasic = map[string]reflect.Type{"string": reflect.TypeOf(""), "bool": reflect.TypeOf(true), "int": reflect.TypeOf(0), "uint": reflect.TypeOf(uint(0)),
		"byte": reflect.TypeOf(byte(0)), "error": reflect.TypeOf((*error)(nil)).Elem(), "rune": reflect.TypeOf('a')}
	goMembers = map[string]interface{}{
		"And": tpl.And, "Or": tpl.Or, "List": tpl.List, "List0": tpl.List0, "Repeat0": tpl.Repeat0, "Repeat1": tpl.Repeat1, "Repeat01": tpl.Repeat01,
		"Not": tpl.Not, "Peek": tpl.Peek, "Gr": tpl.Gr, "Var": tpl.Var, "Named": tpl.Named, "Action": tpl.Action, "Clone": tpl.Clone,
		"Lit2Token": tpl.Lit2Token, "Token2Lit": tpl.Token2Lit,
		"EOF": gconst(tpl.EOF), "ILLEGAL": gconst(tpl.ILLEGAL), "InsertSemis": gconst(tpl.InsertSemis), "ScanComments": gconst(tpl.ScanComments),
	}
)

func init() {
	for n, k := range classes {
		goMembers[n] = gconst(k)
	}
}

func goBad() { sym.Assert(false, notGo) }

func unmodelled(what string) {
	sym.Unsupported("generated code: " + what)
}

// to converts v for an assignment to type t; an invalid v is nil.
func goTo(v reflect.Value, t reflect.Type) reflect.Value {
	r := reflect.New(t).Elem()
	if !v.IsValid() {
		switch t.Kind() {
		case reflect.Ptr, reflect.Func, reflect.Interface, reflect.Map, reflect.Slice:
		default:
			goBad()
		}
		return r
	}
	if c, ok := constOf(v); ok {
		switch t.Kind() {
		case reflect.Interface:
			v = reflect.ValueOf(int(c))
		case reflect.Int, reflect.Uint, reflect.Uint8, reflect.Int32, reflect.Int64, reflect.Uint64:
			v = reflect.ValueOf(int(c)).Convert(t)
		default:
			goBad()
		}
	}
	if !v.Type().AssignableTo(t) {
		goBad()
	}
	r.Set(v)
	return r
}

func constOf(v reflect.Value) (gconst, bool) {
	if v.IsValid() && v.Type() == reflect.TypeOf(gconst(0)) {
		return gconst(v.Int()), true
	}
	return 0, false
}

// goVal gives an expression value its default type.
func goVal(v reflect.Value) reflect.Value {
	if !v.IsValid() {
		goBad() // use of untyped nil
	}
	if c, ok := constOf(v); ok {
		return reflect.ValueOf(int(c))
	}
	return v
}

func (p *goframe) lookup(s string) *govar {
	for e := p.env; e != nil; e = e.up {
		if v, ok := e.names[s]; ok {
			v.used = true
			return v
		}
	}
	return nil
}

func (p *goframe) declare(id *ast.Ident, v reflect.Value, t reflect.Type) {
	x := reflect.New(t).Elem()
	if v.IsValid() {
		x.Set(goTo(v, t))
	} else if t.Kind() == reflect.Interface {
		x.Set(reflect.Zero(t))
	}
	if id.Name == "_" {
		return
	}
	if _, ok := p.env.names[id.Name]; ok {
		goBad()
	}
	p.env.names[id.Name] = &govar{v: x}
}

func (p *goframe) typeOf(x ast.Expr) reflect.Type {
	switch e := x.(type) {
	case *ast.ParenExpr:
		return p.typeOf(e.X)
	case *ast.Ident:
		if v := p.lookup(e.Name); v != nil {
			if v.typ == nil {
				goBad()
			}
			return v.typ
		}
		if t := goBasic[e.Name]; t != nil {
			return t
		}
		goBad()
	case *ast.SelectorExpr:
		if p.isTpl(e.X) {
			if t := goTypes[e.Sel.Name]; t != nil {
				return t
			}
			unmodelled("type tpl." + e.Sel.Name)
		}
		goBad()
	case *ast.StarExpr:
		return reflect.PtrTo(p.typeOf(e.X))
	case *ast.ArrayType:
		if e.Len == nil {
			return reflect.SliceOf(p.typeOf(e.Elt))
		}
	case *ast.MapType:
		return reflect.MapOf(p.typeOf(e.Key), p.typeOf(e.Value))
	case *ast.FuncType:
		var in, out []reflect.Type
		variadic := false
		for _, f := range fieldTypes(e.Params) {
			if l, ok := f.(*ast.Ellipsis); ok {
				variadic = true
				in = append(in, reflect.SliceOf(p.typeOf(l.Elt)))
				continue
			}
			in = append(in, p.typeOf(f))
		}
		for _, f := range fieldTypes(e.Results) {
			out = append(out, p.typeOf(f))
		}
		return reflect.FuncOf(in, out, variadic)
	case *ast.InterfaceType:
		if e.Methods == nil || len(e.Methods.List) == 0 {
			return reflect.TypeOf((*interface{})(nil)).Elem()
		}
	}
	unmodelled("a type")
	return nil
}

func fieldTypes(l *ast.FieldList) (ts []ast.Expr) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		n := len(f.Names)
		if n == 0 {
			n = 1
		}
		for ; n > 0; n-- {
			ts = append(ts, f.Type)
		}
	}
	return
}

func fieldNames(l *ast.FieldList) (ns []*ast.Ident) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		if len(f.Names) == 0 {
			ns = append(ns, &ast.Ident{Name: "_"})
		}
		ns = append(ns, f.Names...)
	}
	return
}

func (p *goframe) isType(x ast.Expr) bool {
	switch e := x.(type) {
	case *ast.ParenExpr:
		return p.isType(e.X)
	case *ast.StarExpr:
		return p.isType(e.X)
	case *ast.ArrayType, *ast.MapType, *ast.FuncType, *ast.InterfaceType:
		return true
	case *ast.Ident:
		if v := p.lookup(e.Name); v != nil {
			return v.typ != nil
		}
		return goBasic[e.Name] != nil
	case *ast.SelectorExpr:
		return p.isTpl(e.X) && goTypes[e.Sel.Name] != nil
	}
	return false
}

func (p *goframe) isTpl(x ast.Expr) bool {
	id, ok := x.(*ast.Ident)
	if !ok || id.Name != "tpl" {
		return false
	}
	for e := p.env; e != nil; e = e.up {
		if _, ok := e.names["tpl"]; ok {
			return false
		}
	}
	return true
}

// makeFunc makes a function value that runs body.
func (p *goframe) makeFunc(t *ast.FuncType, body *ast.BlockStmt, recv *ast.FieldList, self reflect.Value) reflect.Value {
	ft := p.typeOf(t)
	env := p.env
	return reflect.MakeFunc(ft, func(in []reflect.Value) []reflect.Value {
		p.depth++
		if p.depth > 50 {
			unmodelled("deep recursion")
		}
		q := &goframe{goeval: p.goeval, env: &goscope{map[string]*govar{}, env}}
		for i := 0; i < ft.NumOut(); i++ {
			q.res = append(q.res, ft.Out(i))
		}
		if recv != nil {
			for _, n := range fieldNames(recv) {
				q.declare(n, self, self.Type())
			}
		}
		for i, n := range fieldNames(t.Params) {
			q.declare(n, in[i], ft.In(i))
		}
		for _, n := range fieldNames(t.Results) {
			if n.Name != "_" {
				unmodelled("named results")
			}
		}
		q.stmts(body.List)
		p.depth--
		if !q.done && len(q.res) > 0 {
			goBad() // missing return
		}
		return q.ret
	})
}

func (p *goframe) block(b *ast.BlockStmt) {
	p.env = &goscope{map[string]*govar{}, p.env}
	p.stmts(b.List)
	p.env = p.env.up
}

func (p *goframe) stmts(l []ast.Stmt) {
	for _, s := range l {
		if p.done {
			return
		}
		p.stmt(s)
	}
}

func (p *goframe) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.EmptyStmt:
	case *ast.BlockStmt:
		p.block(s)
	case *ast.ExprStmt:
		call, ok := s.X.(*ast.CallExpr)
		if !ok {
			goBad()
		}
		p.call(call, -1)
	case *ast.DeclStmt:
		d := s.Decl.(*ast.GenDecl)
		for _, sp := range d.Specs {
			v, ok := sp.(*ast.ValueSpec)
			if !ok {
				unmodelled("a declaration")
			}
			var t reflect.Type
			if v.Type != nil {
				t = p.typeOf(v.Type)
			}
			if len(v.Values) == 0 && t == nil {
				unmodelled("implicit constants")
			}
			vals := p.exprs(v.Values, len(v.Names))
			for i, n := range v.Names {
				switch {
				case len(vals) == 0:
					p.declare(n, reflect.Value{}, t)
				case t == nil && d.Tok == token.CONST:
					if p.env.names[n.Name] != nil {
						goBad()
					}
					p.env.names[n.Name] = &govar{v: vals[i]}
				case t == nil:
					x := goVal(vals[i])
					p.declare(n, x, x.Type())
				default:
					p.declare(n, goTo(vals[i], t), t)
				}
			}
		}
	case *ast.AssignStmt:
		if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
			unmodelled("assignment " + s.Tok.String())
		}
		vals := p.exprs(s.Rhs, len(s.Lhs))
		if s.Tok == token.DEFINE {
			fresh := false
			for i, x := range s.Lhs {
				id, ok := x.(*ast.Ident)
				if !ok {
					goBad()
				}
				if v, ok := p.env.names[id.Name]; ok {
					v.v.Set(goTo(vals[i], v.v.Type()))
					continue
				}
				fresh = fresh || id.Name != "_"
				v := goVal(vals[i])
				p.declare(id, v, v.Type())
			}
			if !fresh {
				goBad()
			}
			return
		}
		for i, x := range s.Lhs {
			if id, ok := x.(*ast.Ident); ok && id.Name == "_" {
				continue
			}
			if ix, ok := x.(*ast.IndexExpr); ok {
				m := p.expr(ix.X)
				if m.Kind() == reflect.Map {
					m.SetMapIndex(goTo(p.expr(ix.Index), m.Type().Key()), goTo(vals[i], m.Type().Elem()))
					continue
				}
			}
			d := p.expr(x)
			if !d.CanSet() {
				goBad()
			}
			d.Set(goTo(vals[i], d.Type()))
		}
	case *ast.IfStmt:
		p.env = &goscope{map[string]*govar{}, p.env}
		if s.Init != nil {
			p.stmt(s.Init)
		}
		if p.boolean(s.Cond) {
			p.block(s.Body)
		} else if s.Else != nil {
			p.stmt(s.Else)
		}
		p.env = p.env.up
	case *ast.RangeStmt:
		p.ranges(s)
	case *ast.ReturnStmt:
		vals := p.exprs(s.Results, len(p.res))
		for i, v := range vals {
			p.ret = append(p.ret, goTo(v, p.res[i]))
		}
		p.done = true
	default:
		unmodelled("a statement")
	}
}

func (p *goframe) ranges(s *ast.RangeStmt) {
	x := p.expr(s.X)
	if s.Tok == token.ASSIGN {
		unmodelled("range with =")
	}
	one := func(k, v reflect.Value) {
		p.env = &goscope{map[string]*govar{}, p.env}
		if id, ok := s.Key.(*ast.Ident); ok {
			p.declare(id, k, k.Type())
		}
		if id, ok := s.Value.(*ast.Ident); ok {
			p.declare(id, v, v.Type())
		}
		p.block(s.Body)
		p.env = p.env.up
	}
	switch x.Kind() {
	case reflect.Slice:
		for i := 0; i < x.Len() && !p.done; i++ {
			one(reflect.ValueOf(i), x.Index(i))
		}
	case reflect.Map:
		for _, k := range x.MapKeys() {
			if !p.done {
				one(k, x.MapIndex(k))
			}
		}
	default:
		unmodelled("range")
	}
}

// exprs evaluates a list of n expressions, or a call with n results.
func (p *goframe) exprs(l []ast.Expr, n int) []reflect.Value {
	if len(l) == 1 && n > 1 {
		if c, ok := l[0].(*ast.CallExpr); ok {
			return p.call(c, n)
		}
		unmodelled("a comma-ok form")
	}
	if len(l) != n && len(l) > 0 {
		goBad()
	}
	var vs []reflect.Value
	for _, x := range l {
		vs = append(vs, p.expr(x))
	}
	return vs
}

func (p *goframe) boolean(x ast.Expr) bool {
	v := p.expr(x)
	if !v.IsValid() || v.Kind() != reflect.Bool {
		goBad()
	}
	return v.Bool()
}

func (p *goframe) expr(x ast.Expr) reflect.Value {
	switch e := x.(type) {
	case *ast.ParenExpr:
		return p.expr(e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.STRING:
			s, err := strconv.Unquote(e.Value)
			sym.Assert(err == nil, notGo)
			return reflect.ValueOf(s)
		case token.CHAR:
			c, _, tail, err := strconv.UnquoteChar(e.Value[1:], '\'')
			sym.Assert(err == nil && tail == "'", notGo)
			return reflect.ValueOf(gconst(c))
		case token.INT:
			n, err := strconv.ParseInt(e.Value, 0, 64)
			sym.Assert(err == nil, notGo)
			return reflect.ValueOf(gconst(n))
		}
	case *ast.Ident:
		if v := p.lookup(e.Name); v != nil {
			if v.typ != nil {
				goBad()
			}
			return v.v
		}
		switch e.Name {
		case "nil":
			return reflect.Value{}
		case "true", "false":
			return reflect.ValueOf(e.Name == "true")
		}
		if f := p.funcs[e.Name]; f != nil {
			q := &goframe{goeval: p.goeval, env: p.file}
			return q.makeFunc(f.Type, f.Body, nil, reflect.Value{})
		}
		goBad()
	case *ast.SelectorExpr:
		if p.isTpl(e.X) {
			v, ok := goMember(e.Sel.Name)
			if !ok {
				unmodelled("tpl." + e.Sel.Name)
			}
			return reflect.ValueOf(v)
		}
		return p.member(p.expr(e.X), e.Sel.Name)
	case *ast.CallExpr:
		return p.call(e, 1)[0]
	case *ast.FuncLit:
		return p.makeFunc(e.Type, e.Body, nil, reflect.Value{})
	case *ast.CompositeLit:
		return p.literal(e, nil)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			if l, ok := e.X.(*ast.CompositeLit); ok {
				return p.literal(l, nil).Addr()
			}
			v := p.expr(e.X)
			if !v.CanAddr() {
				goBad()
			}
			return v.Addr()
		case token.NOT:
			return reflect.ValueOf(!p.boolean(e.X))
		}
	case *ast.StarExpr:
		v := p.expr(e.X)
		if v.Kind() != reflect.Ptr {
			goBad()
		}
		return v.Elem()
	case *ast.IndexExpr:
		v := p.expr(e.X)
		switch v.Kind() {
		case reflect.Map:
			r := v.MapIndex(goTo(p.expr(e.Index), v.Type().Key()))
			if !r.IsValid() {
				return reflect.Zero(v.Type().Elem())
			}
			return r
		case reflect.Slice:
			i := goTo(p.expr(e.Index), reflect.TypeOf(0)).Int()
			if i < 0 || i >= int64(v.Len()) {
				panic("index out of range")
			}
			return v.Index(int(i))
		}
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			return reflect.ValueOf(p.boolean(e.X) && p.boolean(e.Y))
		case token.LOR:
			return reflect.ValueOf(p.boolean(e.X) || p.boolean(e.Y))
		case token.EQL, token.NEQ:
			return reflect.ValueOf(goEq(p.expr(e.X), p.expr(e.Y)) == (e.Op == token.EQL))
		case token.ADD:
			a, b := p.expr(e.X), p.expr(e.Y)
			if a.IsValid() && b.IsValid() && a.Kind() == reflect.String && b.Kind() == reflect.String {
				return reflect.ValueOf(a.String() + b.String())
			}
		}
	}
	unmodelled("an expression")
	return reflect.Value{}
}

func goMember(s string) (v interface{}, ok bool) {
	switch s { // variables
	case "GrTrue":
		return tpl.GrTrue, true
	case "GrEOF":
		return tpl.GrEOF, true
	case "ErrNoDoc":
		return tpl.ErrNoDoc, true
	}
	v, ok = goMembers[s]
	return
}

func goEq(a, b reflect.Value) bool {
	if !a.IsValid() {
		a, b = b, a
	}
	if !a.IsValid() {
		goBad()
	}
	if !b.IsValid() {
		switch a.Kind() {
		case reflect.Ptr, reflect.Func, reflect.Interface, reflect.Map, reflect.Slice:
			return a.IsNil()
		}
		goBad()
	}
	if _, ok := constOf(a); ok {
		a, b = b, a
	}
	if _, ok := constOf(b); ok {
		if _, ok := constOf(a); !ok {
			b = goTo(b, a.Type())
		}
	}
	if k := a.Kind(); k == reflect.Func || k == reflect.Map || k == reflect.Slice {
		goBad()
	}
	return a.Interface() == b.Interface()
}

func (p *goframe) literal(e *ast.CompositeLit, t reflect.Type) reflect.Value {
	if e.Type != nil {
		t = p.typeOf(e.Type)
	}
	r := reflect.New(t).Elem()
	elem := func(x ast.Expr, t reflect.Type) reflect.Value {
		if l, ok := x.(*ast.CompositeLit); ok && l.Type == nil {
			if t.Kind() == reflect.Ptr {
				return p.literal(l, t.Elem()).Addr()
			}
			return p.literal(l, t)
		}
		return goTo(p.expr(x), t)
	}
	switch t.Kind() {
	case reflect.Struct:
		seen := map[string]bool{}
		for i, x := range e.Elts {
			kv, ok := x.(*ast.KeyValueExpr)
			if !ok {
				if len(e.Elts) != t.NumField() {
					goBad()
				}
				r.Field(i).Set(goTo(p.expr(x), t.Field(i).Type))
				continue
			}
			n := kv.Key.(*ast.Ident).Name
			f := r.FieldByName(n)
			if !f.IsValid() || !f.CanSet() || seen[n] {
				goBad()
			}
			seen[n] = true
			f.Set(goTo(p.expr(kv.Value), f.Type()))
		}
	case reflect.Map:
		r.Set(reflect.MakeMap(t))
		for _, x := range e.Elts {
			kv, ok := x.(*ast.KeyValueExpr)
			if !ok {
				goBad()
			}
			k := elem(kv.Key, t.Key())
			if r.MapIndex(k).IsValid() {
				goBad() // duplicate key
			}
			r.SetMapIndex(k, elem(kv.Value, t.Elem()))
		}
	case reflect.Slice:
		r.Set(reflect.MakeSlice(t, 0, 0))
		for _, x := range e.Elts {
			if _, ok := x.(*ast.KeyValueExpr); ok {
				unmodelled("an indexed literal")
			}
			r.Set(reflect.Append(r, elem(x, t.Elem())))
		}
	default:
		unmodelled("a literal")
	}
	return r
}

func (p *goframe) member(v reflect.Value, s string) reflect.Value {
	if !v.IsValid() {
		goBad()
	}
	st := v
	if v.Kind() == reflect.Ptr {
		if v.Type().Elem() == reflect.TypeOf(genCompiler{}) {
			if f := p.methods[s]; f != nil {
				q := &goframe{goeval: p.goeval, env: p.file}
				return q.makeFunc(f.Type, f.Body, f.Recv, v)
			}
		}
		if v.IsNil() {
			panic("nil pointer")
		}
		st = v.Elem()
	}
	if st.Kind() == reflect.Struct {
		if f := st.FieldByName(s); f.IsValid() && f.CanInterface() {
			return f
		}
	}
	if v.Kind() == reflect.Interface {
		if _, ok := v.Type().MethodByName(s); !ok {
			goBad()
		}
		if v.IsNil() {
			panic("nil interface")
		}
	}
	m := v.MethodByName(s)
	if !m.IsValid() && v.CanAddr() {
		m = v.Addr().MethodByName(s)
	}
	if !m.IsValid() {
		goBad()
	}
	return m
}

// call evaluates a call with n results (any number for -1).
func (p *goframe) call(e *ast.CallExpr, n int) []reflect.Value {
	one := func(v reflect.Value) []reflect.Value {
		if n > 1 {
			goBad()
		}
		return []reflect.Value{v}
	}
	if p.isType(e.Fun) {
		if len(e.Args) != 1 {
			goBad()
		}
		t := p.typeOf(e.Fun)
		v := p.expr(e.Args[0])
		if c, ok := constOf(v); ok {
			v = reflect.ValueOf(int(c))
		}
		if !v.IsValid() {
			return one(goTo(v, t))
		}
		if !v.Type().ConvertibleTo(t) {
			goBad()
		}
		return one(v.Convert(t))
	}
	if id, ok := e.Fun.(*ast.Ident); ok && p.lookup(id.Name) == nil && p.funcs[id.Name] == nil {
		switch id.Name {
		case "new":
			if len(e.Args) != 1 || n < 0 {
				goBad()
			}
			return one(reflect.New(p.typeOf(e.Args[0])))
		case "make":
			t := p.typeOf(e.Args[0])
			if t.Kind() == reflect.Map {
				return one(reflect.MakeMap(t))
			}
			if t.Kind() == reflect.Slice && len(e.Args) >= 2 {
				k := int(goTo(p.expr(e.Args[1]), reflect.TypeOf(0)).Int())
				return one(reflect.MakeSlice(t, k, k))
			}
		case "len":
			v := p.expr(e.Args[0])
			return one(reflect.ValueOf(v.Len()))
		case "append":
			v := p.expr(e.Args[0])
			if v.IsValid() && v.Kind() == reflect.Slice {
				for i, x := range e.Args[1:] {
					if e.Ellipsis.IsValid() && i == len(e.Args)-2 {
						v = reflect.AppendSlice(v, p.expr(x))
					} else {
						v = reflect.Append(v, goTo(p.expr(x), v.Type().Elem()))
					}
				}
				return one(v)
			}
		case "panic":
			panic(goVal(p.expr(e.Args[0])).Interface())
		default:
			goBad() // undefined
		}
		unmodelled("a call of " + id.Name)
	}
	f := p.expr(e.Fun)
	if !f.IsValid() || f.Kind() != reflect.Func {
		goBad()
	}
	t := f.Type()
	if n >= 0 && t.NumOut() != n {
		goBad()
	}
	var args, in []reflect.Value
	if c, ok := unparen(e.Args).(*ast.CallExpr); ok && t.NumIn() > 1 {
		args = p.call(c, -1) // f(g()) with several results
	} else {
		for _, x := range e.Args {
			args = append(args, p.expr(x))
		}
	}
	fixed := t.NumIn()
	if t.IsVariadic() && !e.Ellipsis.IsValid() {
		fixed--
	}
	if len(args) < fixed || len(args) > fixed && (!t.IsVariadic() || e.Ellipsis.IsValid()) || e.Ellipsis.IsValid() && !t.IsVariadic() {
		goBad()
	}
	for i, a := range args {
		if i < fixed {
			in = append(in, goTo(a, t.In(i)))
		} else {
			in = append(in, goTo(a, t.In(fixed).Elem()))
		}
	}
	if f.IsNil() {
		panic("nil function")
	}
	if e.Ellipsis.IsValid() {
		return f.CallSlice(in)
	}
	return f.Call(in)
}

func unparen(args []ast.Expr) ast.Expr {
	if len(args) != 1 {
		return nil
	}
	return args[0]
}

// unused reports a local variable without a use.
func goUnused(f *ast.FuncDecl) bool {
	decl, uses := map[string]bool{}, map[string]int{}
	ast.Inspect(f.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ValueSpec:
			for _, id := range n.Names {
				decl[id.Name] = true
			}
		case *ast.AssignStmt:
			if n.Tok == token.DEFINE {
				for _, x := range n.Lhs {
					decl[x.(*ast.Ident).Name] = true
				}
			}
		case *ast.Ident:
			uses[n.Name]++
		}
		return true
	})
	for n := range decl {
		if n != "_" && uses[n] < 2 {
			return true
		}
	}
	return false
}

// gocl executes the Cl method of generated code.
func gocl(code string, marker func(g tpl.Grammar, mark string) tpl.Grammar, init func(), mode tpl.ScanMode) tpl.CompileRet {
	f, err := parser.ParseFile(token.NewFileSet(), "", "package p\nimport \"github.com/qiniu/text/tpl\"\n"+code, 0)
	sym.Assert(err == nil, notGo)
	g := &goeval{methods: map[string]*ast.FuncDecl{}, funcs: map[string]*ast.FuncDecl{}, file: &goscope{map[string]*govar{}, nil}}
	p := &goframe{goeval: g, env: g.file}
	names := map[string]bool{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			m := g.funcs
			if d.Recv != nil {
				m = g.methods
			}
			sym.Assert(m[d.Name.Name] == nil && d.Body != nil, notGo)
			m[d.Name.Name] = d
			sym.Assert(!goUnused(d), notGo)
		case *ast.GenDecl:
			for _, s := range d.Specs {
				t, ok := s.(*ast.TypeSpec)
				if !ok {
					if _, ok := s.(*ast.ImportSpec); !ok {
						unmodelled("a declaration of the file")
					}
					continue
				}
				st, ok := t.Type.(*ast.StructType)
				if !ok || g.recv != "" {
					unmodelled("a type declaration")
				}
				g.recv = t.Name.Name
				gt := reflect.TypeOf(genCompiler{})
				g.file.names[g.recv] = &govar{typ: gt}
				for i, n := range fieldNames(st.Fields) {
					sym.Assert(!names[n.Name], notGo)
					names[n.Name] = true
					want, ok := gt.FieldByName(n.Name)
					if !ok || p.typeOf(fieldTypes(st.Fields)[i]) != want.Type {
						unmodelled("fields of the compiler")
					}
				}
				if len(names) != gt.NumField() {
					unmodelled("fields of the compiler")
				}
			}
		}
	}
	cl := g.methods["Cl"]
	sym.Assert(cl != nil && g.recv != "", "the generated code has a Cl method")
	r := p.member(reflect.ValueOf(&genCompiler{Marker: marker, Init: init, ScanMode: mode}), "Cl").Call(nil)
	sym.Assert(len(r) == 1, "the generated code returns the compiled grammar")
	ret, ok := r[0].Interface().(tpl.CompileRet)
	sym.Assert(ok && ret.Matcher != nil, "the generated code returns the compiled grammar")
	return ret
}
