# interpreters defined by scripts
checks = "Q14 Q15"
F = "tpl/qlang/cl/interpreter/interpret.go"
edits = [
(F, '''	idx := strings.LastIndexFunc(s, func(c rune) bool {
		return c >= 'A' && c <= 'Z'
	})
	if idx >= 0 {
		return s[idx:]
	}
	return ""
''', '''	for i := len(s) - 1; i >= 0; i-- {
		if c := s[i]; 'A' <= c && c <= 'Z' {
			return s[i:]
		}
	}
	return ""
'''),
(F, '''	if fn, ok := ip.Cls.Fns[name]; ok {
		return fn.Call(ip)
	}
	panic("method not found: " + name)
''', '''	return callN(ip, name)
'''),
(F, '''		args1 := make([]interface{}, 1, len(args)+1)
		args1[0] = ip
		return fn.Call(append(args1, args...)...)
''', '''		return fn.Call(append([]interface{}{ip}, args...)...)
'''),
(F, '''	var in []reflect.Value
	if arity > 0 {
		ret := reflect.ValueOf(callN(stk, "popArgs", arity))
		if ret.Kind() != reflect.Slice {
			panic("method stack.popArgs doesn't return a slice")
		}
		n := ret.Len()
		in = make([]reflect.Value, n)
		for i := 0; i < n; i++ {
			v := ret.Index(i)
			if v.Kind() == reflect.Interface && !v.IsNil() { // the operand itself
				v = v.Elem()
			}
			in[i] = v
		}
	}
	vfn := reflect.ValueOf(fn)
	out := vfn.Call(in)
	if len(out) == 0 {
		callN(stk, "push", nil)
	} else {
		callN(stk, "push", out[0].Interface())
	}
}
''', '''	var in []reflect.Value
	if arity > 0 {
		in = popOperands(stk, arity)
	}
	var result interface{}
	if out := reflect.ValueOf(fn).Call(in); len(out) > 0 {
		result = out[0].Interface()
	}
	callN(stk, "push", result)
}

func popOperands(stk *qlang.Object, arity int) (in []reflect.Value) {
	ret := reflect.ValueOf(callN(stk, "popArgs", arity))
	if ret.Kind() != reflect.Slice {
		panic("method stack.popArgs doesn't return a slice")
	}
	for i := 0; i < ret.Len(); i++ {
		v := ret.Index(i)
		if x := v; x.Kind() == reflect.Interface && !x.IsNil() {
			v = x.Elem()
		}
		in = append(in, v)
	}
	return
}
'''),
(F, '''						case "Float":
							v, err := strconv.ParseFloat(tokens[0].Literal, 64)
							if err != nil {
								panic(fmt.Sprintf("parse mark `%s` failed: %v", mark, err))
							}
							args[1] = v
						case "Int":
							v, err := strconv.Atoi(tokens[0].Literal)
							if err != nil {
								panic(fmt.Sprintf("parse mark `%s` failed: %v", mark, err))
							}
							args[1] = v
''', '''						case "Float", "Int":
							args[1] = parseNumber(mark, tokens[0].Literal)
'''),
(F, '''func (p *Engine) EvalCode(''', '''func parseNumber(mark, lit string) (v interface{}) {
	var err error
	if strings.HasSuffix(mark, "Int") {
		v, err = strconv.Atoi(lit)
	} else {
		v, err = strconv.ParseFloat(lit, 64)
	}
	if err != nil {
		panic("parse mark `" + mark + "` failed: " + err.Error())
	}
	return v
}

func (p *Engine) EvalCode('''),
(F, '''func (p *Engine) Exec(code []byte, fname string) (err error) {

	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case string:
				err = errors.New(v)
			case error:
				err = v
			default:
				panic(e)
			}
		}
	}()

	err = p.MatchExactly(code, fname)
	return
}
''', '''func (p *Engine) Exec(code []byte, fname string) (err error) {

	defer func() {
		switch v := recover().(type) {
		case nil:
		case string:
			err = fmt.Errorf("%s", v)
		case error:
			err = v
		default:
			panic(v)
		}
	}()
	return p.MatchExactly(code, fname)
}
'''),
]
