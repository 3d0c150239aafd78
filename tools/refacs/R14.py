# qlang engine, spec, stack of the interpreter
checks = "Q01 Q04 Q07 Q10 Q11 Q12 Q13"
E = "tpl/qlang/engine.go"
Q = "tpl/qlang/cl/qlang.go"
S = "tpl/qlang/spec/spec.go"
edits = [
(E, '''	defer func() {
		p.Recov = recover()
		p.ExecDefers(p.Engine)
		e := p.Recov
		p.Recov = nil
		if e != nil {
			switch v := e.(type) {
			case string:
				err = errors.New(v)
			case error:
				err = v
			default:
				panic(e)
			}
		}
	}()

	err = p.MatchExactly(code, fname)
	return
''', '''	defer func() {
		p.Recov = recover()
		if failed := p.finish(); failed != nil {
			err = failed
		}
	}()

	return p.MatchExactly(code, fname)
'''),
(E, '''func (p Qlang) SafeEval(''', '''func (p Qlang) finish() error {

	p.ExecDefers(p.Engine)
	e := p.Recov
	p.Recov = nil
	if e == nil {
		return nil
	}
	if v, ok := e.(error); ok {
		return v
	}
	v, ok := e.(string)
	if !ok {
		panic(e)
	}
	return errors.New(v)
}

func (p Qlang) SafeEval('''),
(Q, '''	var arg1, arg2 interface{}

	arity2 := stk.popArity()
	if arity2 != 0 {
		arg2, _ = stk.Pop()
	}
	arityMid := stk.popArity()
	arity1 := stk.popArity()
	args := stk.popNArgs(arity1 + 1)

	if arityMid == 0 {
		if arity1 == 0 {
			panic("call operator[] without index")
		}
		stk.Push(qlang.Get(args[0], args[1]))
		return
	}
	if arity1 != 0 {
		arg1 = args[1]
	}
	stk.Push(qlang.SubSlice(args[0], arg1, arg2))
''', '''	var to interface{}
	if stk.popArity() != 0 {
		to, _ = stk.Pop()
	}
	isSlice := stk.popArity() != 0
	n := stk.popArity()
	args := append(stk.popNArgs(n+1), nil)
	o, from := args[0], args[1]

	switch {
	case isSlice && n == 0:
		stk.Push(qlang.SubSlice(o, nil, to))
	case isSlice:
		stk.Push(qlang.SubSlice(o, from, to))
	case n == 0:
		panic("call operator[] without index")
	default:
		stk.Push(qlang.Get(o, from))
	}
'''),
(Q, '''	switch kind := v.Kind(); {
	case kind == reflect.Float64 || kind == reflect.Int:
		return v.Interface()
	case kind > reflect.Int && kind <= reflect.Int64:
		if kind != reflect.Uint8 {
			return int(v.Int())
		} else {
			return v.Interface()
		}
	case kind >= reflect.Uint && kind <= reflect.Uintptr:
		return int(v.Uint())
	case kind == reflect.Float32:
		return v.Float()
	default:
		return v.Interface()
	}
''', '''	switch v.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return int(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return int(v.Uint())
	case reflect.Float32:
		return v.Float()
	}
	return v.Interface()
'''),
(Q, '''	switch len(ret) {
	case 0:
		stk.Push(nil)
	case 1:
		stk.Push(castVal(ret[0]))
	default:
		slice := make([]interface{}, len(ret))
		for i, v := range ret {
			slice[i] = castVal(v)
		}
		stk.Push(slice)
	}
	return nil
''', '''	var val interface{}
	if len(ret) == 1 {
		val = castVal(ret[0])
	} else if len(ret) > 1 {
		var vals []interface{}
		for len(ret) > 0 {
			vals = append(vals, castVal(ret[0]))
			ret = ret[1:]
		}
		val = vals
	}
	stk.Push(val)
	return nil
'''),
(Q, '''	pstk := *stk
	n := len(pstk)
	if n >= arity {
		args := make([]interface{}, arity)
		n -= arity
		for i := 0; i < arity; i++ {
			args[i] = pstk[n+i]
		}
		*stk = pstk[:n]
		return args
	}
	panic("unexpected argument count")
''', '''	base := len(*stk) - arity
	if base < 0 {
		panic("unexpected argument count")
	}
	args := append(make([]interface{}, 0, arity), (*stk)[base:]...)
	*stk = (*stk)[:base]
	return args
'''),
(Q, '''	ok := false
	pstk := *stk
	n := len(pstk)
	if n >= arity {
		args := make([]string, arity)
		n -= arity
		for i := 0; i < arity; i++ {
			if args[i], ok = pstk[n+i].(string); !ok {
				panic("function argument isn't a symbol?")
			}
		}
		*stk = pstk[:n]
		return args
	}
	panic("unexpected argument count")
''', '''	vals := *stk
	if len(vals) < arity {
		panic("unexpected argument count")
	}
	top := len(vals) - arity
	var args []string
	for _, v := range vals[top:] {
		switch name := v.(type) {
		case string:
			args = append(args, name)
		default:
			panic("function argument isn't a symbol?")
		}
	}
	*stk = vals[:top]
	return args
'''),
(Q, '''	if variadic != 0 {
		if arity == 0 {
			panic("what do you mean of `...`?")
		}
		if val, ok := stk.Pop(); ok {
			v := reflect.ValueOf(val)
			if v.Kind() != reflect.Slice {
				panic("apply `...` on non-slice object")
			}
			n := v.Len()
			for i := 0; i < n; i++ {
				stk.Push(v.Index(i).Interface())
			}
			arity += (n - 1)
		} else {
			panic("unexpected")
		}
	}
	return interpreter.VCall(stk, arity)
''', '''	if variadic == 0 {
		return interpreter.VCall(stk, arity)
	}
	if arity == 0 {
		panic("what do you mean of `...`?")
	}
	last, ok := stk.Pop()
	if !ok {
		panic("unexpected")
	}
	return interpreter.VCall(stk, arity-1+stk.pushAll(last))
'''),
(Q, '''func (p *Interpreter) VCall() error {''', '''// pushAll pushes the elements of a slice
func (stk *Stack) pushAll(slice interface{}) int {

	v := reflect.ValueOf(slice)
	if kind := v.Kind(); kind != reflect.Slice {
		panic("apply `...` on non-slice object")
	}
	i := 0
	for ; i < v.Len(); i++ {
		*stk = append(*stk, v.Index(i).Interface())
	}
	return i
}

func (p *Interpreter) VCall() error {'''),
(S, '''	if SafeMode {
		if v, ok := table["_initSafe"]; ok {
			if fn, ok := v.(func(map[string]interface{}, func(...interface{}) interface{})); ok {
				fn(table, dummyN)
			} else {
				panic("invalid prototype of _initSafe")
			}
		}
	}
''', '''	initSafe, ok := table["_initSafe"]
	if ok && SafeMode {
		fn, ok := initSafe.(func(map[string]interface{}, func(...interface{}) interface{}))
		if !ok {
			panic("invalid prototype of _initSafe")
		}
		fn(table, dummyN)
	}
'''),
]
