# interpreter and calls from the stack: shared argument checks, parsing split up, marks classified once
checks = "I01 I02 I03 I04 I05 K02 Q10"
U = "tpl/interpreter.util/call.go"
F = "tpl/interpreter/interpreter.go"
edits = [
(U, '''	tfn := reflect.TypeOf(fn)
	n := tfn.NumIn()

	isVariadic := tfn.IsVariadic() // 可变参数函数
	if isVariadic {
		if arity < n-1 {
			return ErrArgumentsNotEnough
		}
	} else if arity != n {
		return fmt.Errorf("invalid argument count: require %d, but we got %d", n, arity)
	}

	return DoCall(stk, fn, arity, n, isVariadic)
}
''', '''	tfn := reflect.TypeOf(fn)
	if err := checkArity(tfn, arity); err != nil {
		return err
	}
	return DoCall(stk, fn, arity, tfn.NumIn(), tfn.IsVariadic())
}

func checkArity(tfn reflect.Type, arity int) error {
	n := tfn.NumIn()
	switch variadic := tfn.IsVariadic(); {
	case variadic && arity+1 < n:
		return ErrArgumentsNotEnough
	case !variadic && arity != n:
		return fmt.Errorf("invalid argument count: require %d, but we got %d", n, arity)
	}
	return nil
}

// fitArgs makes the arguments fit the parameters of a function.
func fitArgs(tfn reflect.Type, in []reflect.Value, n int, isVariadic bool) error {
	for i := range in {
		var t reflect.Type
		if isVariadic && i >= n-1 {
			t = tfn.In(n - 1).Elem()
		} else if i < n {
			t = tfn.In(i)
		} else {
			break
		}
		v, err := fitArg(in[i], t)
		if err != nil {
			return err
		}
		in[i] = v
	}
	return nil
}

func fitArg(in reflect.Value, t reflect.Type) (reflect.Value, error) {
	err := validateType(&in, t)
	return in, err
}
'''),
(U, '''		if isVariadic {
			n--
			t := tfn.In(n).Elem()
			for i := n; i < arity; i++ {
				if err := validateType(&in[i], t); err != nil {
					return err
				}
			}
		}
		for i := 0; i < n; i++ {
			if err := validateType(&in[i], tfn.In(i)); err != nil {
				return err
			}
		}
	}
	vfn := reflect.ValueOf(fn)
	out := vfn.Call(in)
	return stk.PushRet(out)
''', '''		if err := fitArgs(tfn, in, n, isVariadic); err != nil {
			return err
		}
	}
	return stk.PushRet(reflect.ValueOf(fn).Call(in))
'''),
(U, '''	tfn := vfn.Type()
	n := tfn.NumIn()

	isVariadic := tfn.IsVariadic() // 可变参数函数
	if isVariadic {
		if arity < n-1 {
			return ErrArgumentsNotEnough
		}
	} else if arity != n {
		return fmt.Errorf("invalid argument count: require %d, but we got %d", n, arity)
	}

	in = in[1:]
	if isVariadic {
		n--
		t := tfn.In(n).Elem()
		for i := n; i < arity; i++ {
			if err := validateType(&in[i], t); err != nil {
				return err
			}
		}
	}
	for i := 0; i < n; i++ {
		if err := validateType(&in[i], tfn.In(i)); err != nil {
			return err
		}
	}
''', '''	tfn := vfn.Type()
	if err := checkArity(tfn, arity); err != nil {
		return err
	}
	in = in[1:]
	if err := fitArgs(tfn, in, tfn.NumIn(), tfn.IsVariadic()); err != nil {
		return err
	}
'''),
(U, '''	if t == typeFloat64 {
		var val float64
		switch kind := tin.Kind(); {
		case kind >= reflect.Int && kind <= reflect.Int64:
			val = float64(in.Int())
		case kind >= reflect.Uint && kind <= reflect.Uintptr:
			val = float64(in.Uint())
		case kind == reflect.Float32:
			val = in.Float()
		default:
			goto lzErr
		}
		*in = reflect.ValueOf(val)
		return nil
	}

lzErr:
	return''', '''	if t == typeFloat64 {
		switch tin.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
			reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
			reflect.Float32:
			*in = in.Convert(t)
			return nil
		}
	}
	return'''),
(F, '''	switch lit[0] {
	case '0':
		if len(lit) == 1 {
			return
		}
		switch lit[1] {
		case 'x', 'X':
			return strconv.ParseInt(lit[2:], 16, 64)
		default:
			return strconv.ParseInt(lit[1:], 8, 64)
		}
	default:
		return strconv.ParseInt(lit, 10, 64)
	}
}
''', '''	if lit == "0" {
		return 0, nil
	}
	digits, base := splitBase(lit)
	return strconv.ParseInt(digits, base, 64)
}

func splitBase(lit string) (digits string, base int) {
	low := strings.ToLower(lit)
	if strings.HasPrefix(low, "0x") {
		return lit[len("0x"):], 16
	}
	if lit[0] == '0' {
		return lit[1:], 8
	}
	return lit, 10
}
'''),
(F, '''	"strconv"

''', '''	"strconv"
	"strings"

'''),
(F, '''	switch t.Kind() {
	case reflect.String:
		return reflect.ValueOf(lit), nil
	case reflect.Float64:
		v, err1 := ParseFloat(lit)
		if err1 != nil {
			err = err1
			return
		}
		return reflect.ValueOf(v), nil
	case reflect.Int64:
		v, err1 := ParseInt(lit)
		if err1 != nil {
			err = err1
			return
		}
		return reflect.ValueOf(v), nil
	case reflect.Int:
		v, err1 := ParseInt(lit)
		if err1 != nil {
			err = err1
			return
		}
		return reflect.ValueOf(int(v)), nil
	}
	err = errors.New("unsupported type: " + t.String())
	return
''', '''	var x interface{}
	switch kind := t.Kind(); kind {
	case reflect.String:
		x = lit
	case reflect.Float64:
		x, err = ParseFloat(lit)
	case reflect.Int, reflect.Int64:
		var v int64
		if v, err = ParseInt(lit); kind == reflect.Int {
			x = int(v)
		} else {
			x = v
		}
	default:
		err = fmt.Errorf("unsupported type: %v", t)
	}
	if err == nil {
		ret = reflect.ValueOf(x)
	}
	return
'''),
(F, '''			if p.mute > 0 { // 禁止所有非 '_' 开头的 action
				if mark[0] != '_' || p.mute > 1 {
					return
				}
			}
			defer func() {
				if e := recover(); e != nil {
					if err, ok := e.(*RuntimeError); ok {
						panic(err)
					}
					if err, ok := e.(*tpl.MatchError); ok {
						panic(err)
					}
					err, ok := e.(error)
					if !ok {
						if s, ok := e.(string); ok {
							err = errors.New(s)
						} else {
							panic(e)
						}
					}
					err = &RuntimeError{
						Grammar: g,
						Ctx:     p.Matcher,
						Err:     err,
						Src:     tokens,
					}
					panic(err)
				}
			}()
''', '''			allowed := 0
			if mark[0] == '_' {
				allowed = 1
			}
			if p.mute > allowed {
				return
			}
			defer func() {
				e := recover()
				if e != nil {
					panic(p.located(e, tokens, g))
				}
			}()
'''),
(F, '''func (p *Engine) ctxValue(''', '''func (p *Engine) located(e interface{}, tokens []tpl.Token, g tpl.Grammar) interface{} {
	re := &RuntimeError{Grammar: g, Ctx: p.Matcher, Src: tokens}
	switch v := e.(type) {
	case *RuntimeError, *tpl.MatchError:
		return e
	case error:
		re.Err = v
	case string:
		re.Err = errors.New(v)
	default:
		return e
	}
	return error(re)
}

func (p *Engine) ctxValue('''),
(F, '''			switch mark {
			case "_mute":
				return tpl.Action(g, func(tokens []tpl.Token, g tpl.Grammar) {
					p.mute++
				})
			case "_unmute":
				return tpl.Action(g, func(tokens []tpl.Token, g tpl.Grammar) {
					p.mute--
				})
			case "_tr":
''', '''			delta := map[string]int{"_mute": 1, "_unmute": -1}
			switch mark {
			case "_mute", "_unmute":
				d := delta[mark]
				return tpl.Action(g, func([]tpl.Token, tpl.Grammar) {
					p.mute += d
				})
			case "_tr":
'''),
(F, '''	old := p.Interpreter
	mute := p.mute
	p.Interpreter = fn
	defer func() { // 正常的 return 使用了 panic，所以需要保护
		p.Interpreter = old
		p.mute = mute
	}()
	return p.EvalSub(name, src)
''', '''	defer p.restore(p.Interpreter, p.mute)
	p.Interpreter = fn
	return p.EvalSub(name, src)
}

func (p *Engine) restore(ipt interpreter.Interface, mute int) {
	p.Interpreter, p.mute = ipt, mute
'''),
]
