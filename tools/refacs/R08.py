# classes, control structures, stack
checks = "Q02 Q03 Q04 Q08 Q09 Q10 Q12 Q14"
C = "tpl/qlang/cl/class.go"
T = "tpl/qlang/cl/ctrl.go"
Q = "tpl/qlang/cl/qlang.go"
edits = [
(C, '''	args := make([]interface{}, len(a)+1)
	args[0] = p.this
	for i, v := range a {
		args[i+1] = v
	}
	return p.fn.Call(args...)
''', '''	return p.fn.Call(append([]interface{}{p.this}, a...)...)
'''),
(C, '''	t := reflect.TypeOf(v)
	switch t {
	case typeObjectPtr:
		o := v.(*Object)
		val, ok := o.vars[name]
		if !ok {
			if fn, ok := o.Cls.Fns[name]; ok {
				t := &thisDeref{
					this: o,
					fn:   fn,
				}
				val = t
			} else {
				return fmt.Errorf("object doesn't has member `%s`", name)
			}
		}
		p.stk.Push(val)
		return nil
	case typeClassPtr:
		o := v.(*Class)
		val, ok := o.Fns[name]
		if !ok {
			return fmt.Errorf("class doesn't has method `%s`", name)
		}
		p.stk.Push(val)
		return nil
	}

	obj := reflect.ValueOf(v)
	switch {
	case obj.Kind() == reflect.Map:
		m := obj.MapIndex(reflect.ValueOf(name))
		if m.IsValid() {
			p.stk.Push(m.Interface())
		} else {
			return fmt.Errorf("member `%s` not found", name)
		}
	default:
		name = strings.Title(name)
		m := obj.MethodByName(name)
		if m.IsValid() {
			if qlang.AutoCall[t] && m.Type().NumIn() == 0 {
				out := m.Call(nil)
				p.stk.PushRet(out)
				return nil
			}
		} else {
			m = reflect.Indirect(obj).FieldByName(name)
			if !m.IsValid() {
				return fmt.Errorf("type `%v` doesn't has member `%s`", obj.Type(), name)
			}
		}
		p.stk.Push(m.Interface())
	}
	return nil
}
''', '''	switch o := v.(type) {
	case *Object:
		val, err := o.member(name)
		if err == nil {
			p.stk.Push(val)
		}
		return err
	case *Class:
		fn := o.Fns[name]
		if fn == nil {
			return fmt.Errorf("class doesn't has method `%s`", name)
		}
		p.stk.Push(fn)
		return nil
	}
	return p.hostMember(reflect.ValueOf(v), name)
}

func (p *Object) member(name string) (interface{}, error) {
	if val, ok := p.vars[name]; ok {
		return val, nil
	}
	fn := p.Cls.Fns[name]
	if fn == nil {
		return nil, fmt.Errorf("object doesn't has member `%s`", name)
	}
	return &thisDeref{p, fn}, nil
}

func (p *Interpreter) hostMember(obj reflect.Value, name string) error {
	if obj.Kind() == reflect.Map {
		m := obj.MapIndex(reflect.ValueOf(name))
		if !m.IsValid() {
			return fmt.Errorf("member `%s` not found", name)
		}
		p.stk.Push(m.Interface())
		return nil
	}
	r, size := utf8.DecodeRuneInString(name)
	name = string(unicode.ToTitle(r)) + name[size:]
	m := obj.MethodByName(name)
	if m.IsValid() && qlang.AutoCall[obj.Type()] && m.Type().NumIn() == 0 {
		return p.stk.PushRet(m.Call(nil))
	}
	if !m.IsValid() {
		if m = reflect.Indirect(obj).FieldByName(name); !m.IsValid() {
			return fmt.Errorf("type `%v` doesn't has member `%s`", obj.Type(), name)
		}
	}
	p.stk.Push(m.Interface())
	return nil
}
'''),
(C, '''var (
	typeObjectPtr = reflect.TypeOf((*Object)(nil))
	typeClassPtr  = reflect.TypeOf((*Class)(nil))
)
''', ''),
(C, '''	"strings"
''', '''	"unicode"
	"unicode/utf8"
'''),
(C, '''	if v, ok := stk.Pop(); ok {
		if cls, ok := v.(*Class); ok {
			obj := &Object{
				vars: make(map[string]interface{}),
				Cls:  cls,
			}
			if init, ok := cls.Fns["_init"]; ok { // 构造函数
				closure := &thisDeref{
					this: obj,
					fn:   init,
				}
				closure.Call(args...)
			}
			stk.Push(obj)
			return nil
		}
		return ErrNewObjectWithNotClass
	}
	return ErrNewWithoutClassName
''', '''	v, ok := stk.Pop()
	if !ok {
		return ErrNewWithoutClassName
	}
	cls, ok := v.(*Class)
	if !ok {
		return ErrNewObjectWithNotClass
	}
	stk.Push(cls.instance(args))
	return nil
}

func (p *Class) instance(args []interface{}) *Object {
	obj := &Object{vars: map[string]interface{}{}, Cls: p}
	if init := p.Fns["_init"]; init != nil {
		(&thisDeref{obj, init}).Call(args...)
	}
	return obj
'''),
(T, '''			bodyCode := ifbr[(i<<1)+1]
			if bodyCode == nil {
				stk.Push(nil)
			} else {
				evalCode(e, p, "doc", bodyCode)
			}
			return
		}
	}
	if elseCode == nil {
		stk.Push(nil)
	} else {
		evalCode(e, p, "doc", elseCode)
	}
}
''', '''			p.evalBody(e, ifbr[2*i+1])
			return
		}
	}
	p.evalBody(e, elseCode)
}

func (p *Interpreter) evalBody(e interpreter.Engine, code interface{}) {
	if code != nil {
		evalCode(e, p, "doc", code)
		return
	}
	p.stk.Push(nil)
}
'''),
(T, '''		vCond := qlang.EQ(switchCond, caseCond)
		if cond, ok := vCond.(bool); ok && cond {
			bodyCode := casebr[(i<<1)+1]
			if bodyCode == nil {
				stk.Push(nil)
			} else {
				evalCode(e, p, "doc", bodyCode)
			}
			return
		}
	}
	if defaultCode == nil {
		stk.Push(nil)
	} else {
		evalCode(e, p, "doc", defaultCode)
	}
''', '''		if qlang.EQ(switchCond, caseCond) != interface{}(true) {
			continue
		}
		p.evalBody(e, casebr[i*2+1])
		return
	}
	p.evalBody(e, defaultCode)
'''),
(T, '''	for condCode == nil || p.evalCondS(e, condCode) {
		if bodyCode != nil {
			evalCode(e, p, "doc", bodyCode)
			stk.Pop()
		}
		if stepCode != nil {
			evalCode(e, p, "s", stepCode)
			stk.Pop()
		}
	}
	stk.Push(nil)
''', '''	drop := func(rule string, code interface{}) {
		if code == nil {
			return
		}
		evalCode(e, p, rule, code)
		stk.Pop()
	}
	for {
		if condCode != nil && !p.evalCondS(e, condCode) {
			break
		}
		drop("doc", bodyCode)
		drop("s", stepCode)
	}
	PushNil(stk)
'''),
(T, '''	bCode, _ := p.stk.Pop()
	a, _ := p.stk.Pop()
	a1, ok := a.(bool)
	if !ok {
		panic("left operand of || operator isn't a boolean expression")
	}
	if a1 {
		p.stk.Push(true)
		return
	}
	evalCode(e, p, "term4", bCode)
''', '''	p.shortcut(e, "||", true, "term4")
'''),
(T, '''	bCode, _ := p.stk.Pop()
	a, _ := p.stk.Pop()
	a1, ok := a.(bool)
	if !ok {
		panic("left operand of && operator isn't a boolean expression")
	}
	if !a1 {
		p.stk.Push(false)
		return
	}
	evalCode(e, p, "term3", bCode)
''', '''	p.shortcut(e, "&&", false, "term3")
}

func (p *Interpreter) shortcut(e interpreter.Engine, op string, stop bool, rule string) {
	code, _ := p.stk.Pop()
	a, _ := p.stk.Pop()
	switch a {
	case stop:
		p.stk.Push(stop)
	case !stop:
		evalCode(e, p, rule, code)
	default:
		panic("left operand of " + op + " operator isn't a boolean expression")
	}
'''),
(Q, '''	pstk := *stk
	n := len(pstk)
	if n >= arity {
		args := make([]interface{}, arity)
		n -= arity
		for i := 0; i < arity; i++ {
			args[i] = pstk[n+i]
		}
		*stk = pstk[:n]
		return args
	}
	panic("unexpected argument count")
''', '''	n := len(*stk) - arity
	if n < 0 {
		panic("unexpected argument count")
	}
	args := make([]interface{}, arity)
	copy(args, (*stk)[n:])
	stk.SetFrame(n)
	return args
'''),
(Q, '''	ok := false
	pstk := *stk
	n := len(pstk)
	if n >= arity {
		args := make([]string, arity)
		n -= arity
		for i := 0; i < arity; i++ {
			if args[i], ok = pstk[n+i].(string); !ok {
				panic("function argument isn't a symbol?")
			}
		}
		*stk = pstk[:n]
		return args
	}
	panic("unexpected argument count")
''', '''	var args []string
	for _, v := range stk.popNArgs(arity) {
		s, ok := v.(string)
		if !ok {
			panic("function argument isn't a symbol?")
		}
		args = append(args, s)
	}
	return args
'''),
(Q, '''	switch kind := v.Kind(); {
	case kind == reflect.Float64 || kind == reflect.Int:
		return v.Interface()
	case kind > reflect.Int && kind <= reflect.Int64:
		if kind != reflect.Uint8 {
			return int(v.Int())
		} else {
			return v.Interface()
		}
	case kind >= reflect.Uint && kind <= reflect.Uintptr:
		return int(v.Uint())
	case kind == reflect.Float32:
		return v.Float()
	default:
		return v.Interface()
	}
''', '''	switch v.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return int(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return int(v.Uint())
	case reflect.Float32:
		return v.Float()
	}
	return v.Interface()
'''),
(Q, '''	case 0:
		stk.Push(nil)
	case 1:
		stk.Push(castVal(ret[0]))
	default:
		slice := make([]interface{}, len(ret))
		for i, v := range ret {
			slice[i] = castVal(v)
		}
		stk.Push(slice)
	}
	return nil
''', '''	case 0:
		stk.Push(nil)
		return nil
	case 1:
		stk.Push(castVal(ret[0]))
		return nil
	}
	var all []interface{}
	for i := range ret {
		all = append(all, castVal(ret[i]))
	}
	stk.Push(all)
	return nil
'''),
(Q, '''	if variadic != 0 {
		if arity == 0 {
			panic("what do you mean of `...`?")
		}
		if val, ok := stk.Pop(); ok {
			v := reflect.ValueOf(val)
			if v.Kind() != reflect.Slice {
				panic("apply `...` on non-slice object")
			}
			n := v.Len()
			for i := 0; i < n; i++ {
				stk.Push(v.Index(i).Interface())
			}
			arity += (n - 1)
		} else {
			panic("unexpected")
		}
	}
	return interpreter.VCall(stk, arity)
''', '''	if variadic == 0 {
		return interpreter.VCall(stk, arity)
	}
	if arity == 0 {
		panic("what do you mean of `...`?")
	}
	return interpreter.VCall(stk, arity-1+stk.spread())
}

// spread replaces the slice on top of the stack by its elements.
func (stk *Stack) spread() (n int) {
	val, ok := stk.Pop()
	if !ok {
		panic("unexpected")
	}
	v := reflect.ValueOf(val)
	if v.Kind() != reflect.Slice {
		panic("apply `...` on non-slice object")
	}
	for n = 0; n < v.Len(); n++ {
		stk.Push(v.Index(n).Interface())
	}
	return
'''),
]
