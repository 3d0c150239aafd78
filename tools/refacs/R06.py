# calculators: shared loops, copy instead of loops, tables
checks = "K01 K02 K03 K04"
N = "tpl/number/number.go"
R = "tpl/rat/big.go"
edits = [
(N, '''	max = args[0]
	for i := 1; i < len(args); i++ {
		if args[i] > max {
			max = args[i]
		}
	}
	return
''', '''	max, args = args[0], args[1:]
	for _, v := range args {
		if max < v {
			max = v
		}
	}
	return
'''),
(N, '''	if len(args) == 0 {
		return
	}

	min = args[0]
	for i := 1; i < len(args); i++ {
		if args[i] < min {
			min = args[i]
		}
	}
	return
''', '''	for i, v := range args {
		if i == 0 || v < min {
			min = v
		}
	}
	return
'''),
(N, '''	var val float64
	switch v {
	case "e":
		val = math.E
	case "pi":
		val = math.Pi
	case "phi":
		val = math.Phi
	case "Inf":
		val = math.Inf(1)
	case "NaN":
		val = math.NaN()
	default:
		panic("undefined symbol: " + v)
	}
	*stk = append(*stk, val)
}
''', '''	val, ok := constants[v]
	if !ok {
		panic(fmt.Sprint("undefined symbol: ", v))
	}
	stk.Push(val)
}

var constants = map[string]float64{
	"e":   math.E,
	"pi":  math.Pi,
	"phi": math.Phi,
	"Inf": math.Inf(1),
	"NaN": math.NaN(),
}
'''),
(N, '''	n := len(*stk)
	if n > 0 {
		v, ok = (*stk)[n-1], true
		*stk = (*stk)[:n-1]
	}
	return
''', '''	old := *stk
	if len(old) == 0 {
		return 0, false
	}
	top := len(old) - 1
	*stk = old[:top]
	return old[top], true
'''),
(N, '''		var val float64
		switch kind := v.Kind(); {
		case kind == reflect.Float64 || kind == reflect.Float32:
			val = v.Float()
		case kind >= reflect.Int && kind <= reflect.Int64:
			val = float64(v.Int())
		case kind >= reflect.Uint && kind <= reflect.Uintptr:
			val = float64(v.Uint())
		default:
			return ErrUnsupportedRetType
		}
		stk.Push(val)
''', '''		if k := v.Kind(); k < reflect.Int || k > reflect.Float64 {
			return ErrUnsupportedRetType
		}
		stk.Push(v.Convert(reflect.TypeOf(0.0)).Float())
'''),
(N, '''	pstk := *stk
	n := len(pstk)
	if n >= arity {
		args, ok = make([]reflect.Value, arity), true
		n -= arity
		for i := 0; i < arity; i++ {
			args[i] = reflect.ValueOf(pstk[n+i])
		}
		*stk = pstk[:n]
	}
	return
''', '''	from := len(*stk) - arity
	if from < 0 {
		return nil, false
	}
	args = []reflect.Value{}
	for _, v := range (*stk)[from:] {
		args = append(args, reflect.ValueOf(v))
	}
	*stk = (*stk)[:from]
	return args, true
'''),
(N, '''	if fn, ok := fntable[name]; ok {
		if arity, ok := p.stk.Pop(); ok {
			err := interpreter.Call(p.stk, fn, int(arity))
			if err != nil {
				return fmt.Errorf("call function `%s` failed: %v", name, err)
			}
			return nil
		}
		return ErrFncallWithoutArity
	}
	return fmt.Errorf("function `%s` not found", name)
''', '''	fn, ok := fntable[name]
	if !ok {
		return fmt.Errorf("function `%s` not found", name)
	}
	arity, ok := p.stk.Pop()
	if !ok {
		return ErrFncallWithoutArity
	}
	if err := interpreter.Call(p.stk, fn, int(arity)); err != nil {
		return fmt.Errorf("call function `%s` failed: %v", name, err)
	}
	return nil
'''),
(R, '''	max = args[0]
	for i := 1; i < len(args); i++ {
		if args[i].Cmp(max) > 0 {
			max = args[i]
		}
	}
	return
''', '''	sorted := append([]*big.Rat(nil), args...)
	sort.SliceStable(sorted, func(i, j int) bool { return sorted[i].Cmp(sorted[j]) > 0 })
	return sorted[0]
'''),
(R, '''	"reflect"

''', '''	"reflect"
	"sort"

'''),
(R, '''	return new(big.Rat).Sub(a, b)
''', '''	r := new(big.Rat).Neg(b)
	return r.Add(a, r)
'''),
(R, '''	return new(big.Rat).Quo(a, b)
''', '''	var r big.Rat
	r.Inv(b)
	return r.Mul(&r, a)
'''),
(R, '''	val := big.NewRat(v, 1)
	*stk = append(*stk, val)
''', '''	stk.Push(new(big.Rat).SetInt64(v))
'''),
(R, '''	return new(big.Rat).SetInt(a.Num())
''', '''	return new(big.Rat).SetFrac(a.Num(), big.NewInt(1))
'''),
(R, '''	if n, ok := new(big.Int).SetString(v, 0); ok { // 0 开头是八进制，0x 开头是十六进制
		*stk = append(*stk, new(big.Rat).SetInt(n))
		return
	}
	val, _ := new(big.Rat).SetString(v)
	*stk = append(*stk, val)
''', '''	var n big.Int
	val := new(big.Rat)
	if _, ok := n.SetString(v, 0); ok {
		val.SetInt(&n)
	} else {
		val, _ = val.SetString(v)
	}
	stk.Push(val)
'''),
]
