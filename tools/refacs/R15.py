# complex and rational calculators: results and arguments, calls
checks = "K01 K02 K03 K04 I05"
C = "tpl/cmplx/cmplx.go"
edits = [
(C, '''	for _, v := range ret {
		var val complex128
		switch kind := v.Kind(); {
		case kind == reflect.Complex128 || kind == reflect.Complex64:
			val = v.Complex()
		case kind == reflect.Float64 || kind == reflect.Float32:
			val = complex(v.Float(), 0)
		case kind >= reflect.Int && kind <= reflect.Int64:
			val = complex(float64(v.Int()), 0)
		case kind >= reflect.Uint && kind <= reflect.Uintptr:
			val = complex(float64(v.Uint()), 0)
		default:
			return ErrUnsupportedRetType
		}
		stk.Push(val)
	}
	return nil
''', '''	for i := range ret {
		if v := ret[i]; v.Kind() == reflect.Complex128 || v.Kind() == reflect.Complex64 {
			stk.Push(v.Complex())
			continue
		}
		f, err := toFloat(ret[i])
		if err != nil {
			return err
		}
		stk.PushReal(f)
	}
	return nil
'''),
(C, '''func (stk *Stack) PopArgs(''', '''func toFloat(v reflect.Value) (float64, error) {
	switch v.Kind() {
	case reflect.Float64, reflect.Float32:
		return v.Float(), nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return float64(v.Int()), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return float64(v.Uint()), nil
	}
	return 0, ErrUnsupportedRetType
}

func (stk *Stack) PopArgs('''),
(C, '''	pstk := *stk
	n := len(pstk)
	if n >= arity {
		args, ok = make([]reflect.Value, arity), true
		n -= arity
		for i := 0; i < arity; i++ {
			args[i] = reflect.ValueOf(pstk[n+i])
		}
		*stk = pstk[:n]
	}
	return
''', '''	if len(*stk) < arity {
		return nil, false
	}
	base := len(*stk) - arity
	args = make([]reflect.Value, 0, arity)
	for _, v := range (*stk)[base:] {
		args = append(args, reflect.ValueOf(v))
	}
	*stk = (*stk)[:base]
	return args, true
'''),
(C, '''	if fn, ok := fntable[name]; ok {
		if arity, ok := p.stk.Pop(); ok && imag(arity) == 0 {
			err := interpreter.Call(p.stk, fn, int(real(arity)))
			if err != nil {
				return fmt.Errorf("call function `%s` failed: %v", name, err)
			}
			return nil
		}
		return ErrFncallWithoutArity
	}
	return fmt.Errorf("function `%s` not found", name)
''', '''	fn, ok := fntable[name]
	if !ok {
		return fmt.Errorf("function `%s` not found", name)
	}
	arity, ok := p.stk.Pop()
	if !ok || imag(arity) != 0 {
		return ErrFncallWithoutArity
	}
	if err := interpreter.Call(p.stk, fn, int(real(arity))); err != nil {
		return fmt.Errorf("call function `%s` failed: %v", name, err)
	}
	return nil
'''),
(C, '''	val, _ := strconv.ParseFloat(v[:len(v)-1], 64)
	*stk = append(*stk, complex(0, val))
''', '''	digits := strings.TrimSuffix(v, "i")
	val, _ := strconv.ParseFloat(digits, 64)
	stk.Push(complex(0, val))
'''),
(C, '''	n := len(*stk)
	if n > 0 {
		v, ok = (*stk)[n-1], true
		*stk = (*stk)[:n-1]
	}
	return
''', '''	vals := *stk
	if len(vals) == 0 {
		return 0, false
	}
	last := len(vals) - 1
	v = vals[last]
	*stk = vals[:last]
	return v, true
'''),
(C, '''	"strconv"
''', '''	"strconv"
	"strings"
'''),
(C, '''func Rect(a, b complex128) complex128 {
	if imag(a) != 0 || imag(b) != 0 {
		panic("function `rect` argument type must be `float64`")
	}
	return cmplx.Rect(real(a), real(b))
}
''', '''func Rect(a, b complex128) complex128 {
	r, theta := realArgs("rect", a, b)
	return cmplx.Rect(r, theta)
}

func realArgs(fn string, a, b complex128) (x, y float64) {
	for _, v := range []complex128{a, b} {
		if imag(v) != 0 {
			panic("function `" + fn + "` argument type must be `float64`")
		}
	}
	return real(a), real(b)
}
'''),
(C, '''	if imag(a) != 0 || imag(b) != 0 {
		panic("function `complex` argument type must be `float64`")
	}
	return complex(real(a), real(b))
''', '''	return complex(realArgs("complex", a, b))
'''),
]
