# builtin: operators by tables of functions, comparison by a shared function, generic loops
checks = "Q01 Q04 Q09 Q13 Q11 Q10"
B = "tpl/qlang/lib/builtin/boolean.go"
N = "tpl/qlang/lib/builtin/number.go"
L = "tpl/qlang/lib/builtin/builtin.go"
S = "tpl/qlang/spec/spec.go"
edits = []


def cmpfn(name, op, test):
    return (B, '''func %s(a, b interface{}) interface{} {

	if a1, ok := a.(byte); ok {
		a = int(a1)
	}

	if b1, ok := b.(byte); ok {
		b = int(b1)
	}

	switch a1 := a.(type) {
	case int:
		switch b1 := b.(type) {
		case int:
			return a1 %s b1
		case float64:
			return float64(a1) %s b1
		}
	case float64:
		switch b1 := b.(type) {
		case int:
			return a1 %s float64(b1)
		case float64:
			return a1 %s b1
		}
	case string:
		if b1, ok := b.(string); ok {
			return a1 %s b1
		}
	}
	return panicUnsupportedOp2("%s", a, b)
}
''' % (name, op, op, op, op, op, op), '''func %s(a, b interface{}) interface{} {
	c, ok := compare(widen(a), widen(b))
	if !ok {
		return panicUnsupportedOp2("%s", a, b)
	}
	return c != unordered && c %s 0
}
''' % (name, op, op))


edits += [cmpfn("LT", "<", ""), cmpfn("GT", ">", ""), cmpfn("LE", "<=", ""), cmpfn("GE", ">=", "")]
edits += [
(B, '''func EQ(a, b''', '''const unordered = 2

func widen(a interface{}) interface{} {
	if v, ok := a.(byte); ok {
		return int(v)
	}
	return a
}

func compare(a, b interface{}) (c int, ok bool) {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return strings.Compare(x, y), ok
	case int:
		if y, ok := b.(int); ok {
			switch {
			case x < y:
				return -1, true
			case x > y:
				return 1, true
			}
			return 0, true
		}
		a = float64(x)
	}
	if y, ok := b.(int); ok {
		b = float64(y)
	}
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if !ok1 || !ok2 {
		return 0, false
	}
	switch {
	case x < y:
		c = -1
	case x > y:
		c = 1
	case x != y:
		c = unordered
	}
	return c, true
}

func EQ(a, b'''),
(B, '''package builtin
''', '''package builtin

import "strings"
'''),
(N, '''	switch a1 := a.(type) {
	case int:
		switch b1 := b.(type) {
		case int:
			return a1 - b1
		case float64:
			return float64(a1) - b1
		}
	case float64:
		switch b1 := b.(type) {
		case int:
			return a1 - float64(b1)
		case float64:
			return a1 - b1
		}
	}
	return panicUnsupportedOp2("-", a, b)
''', '''	x, okX := a.(int)
	y, okY := b.(int)
	if okX && okY {
		return x - y
	}
	if isNumber(a) && isNumber(b) {
		return asFloat(a) - asFloat(b)
	}
	return panicUnsupportedOp2("-", a, b)
}

func isNumber(a interface{}) bool {
	switch a.(type) {
	case int, float64:
		return true
	}
	return false
'''),
(N, '''	max = args[0].(int)
	for i := 1; i < len(args); i++ {
		if t := args[i].(int); t > max {
			max = t
		}
	}
	return
''', '''	all := make([]int, len(args))
	for i, a := range args {
		all[i] = a.(int)
	}
	sort.Ints(all)
	return all[len(all)-1]
'''),
(N, '''	"reflect"
''', '''	"reflect"
	"sort"
'''),
(N, '''	kind := kindOf(args[0])
	for i := 1; i < len(args); i++ {
		if t := kindOf(args[i]); t != kind {
			if kind == reflect.Float64 || kind == reflect.Int {
				if t == reflect.Int {
					continue
				}
				if t == reflect.Float64 {
					kind = reflect.Float64
					continue
				}
			}
			return reflect.Invalid
		}
	}
	return kind
''', '''	return commonKind(args, 0, 1)
}

func commonKind(args []interface{}, from, step int) reflect.Kind {
	number := func(k reflect.Kind) bool { return k == reflect.Int || k == reflect.Float64 }
	kind := kindOf(args[from])
	for i := from + step; i < len(args); i += step {
		switch t := kindOf(args[i]); {
		case t == kind:
		case number(t) && number(kind):
			kind = reflect.Float64
		default:
			return reflect.Invalid
		}
	}
	return kind
'''),
(N, '''	kind := kindOf(args[idx])
	for i := 2; i < len(args); i += 2 {
		if t := kindOf(args[i+idx]); t != kind {
			if kind == reflect.Float64 || kind == reflect.Int {
				if t == reflect.Int {
					continue
				}
				if t == reflect.Float64 {
					kind = reflect.Float64
					continue
				}
			}
			return reflect.Invalid
		}
	}
	return kind
''', '''	return commonKind(args, idx, 2)
'''),
(N, '''	targs := make([]string, len(args))
	for i, a := range args {
		targs[i] = typeString(a)
	}
	panic("unsupported function: " + fn + "(" + strings.Join(targs, ",") + ")")
	return nil
''', '''	var b strings.Builder
	b.WriteString("unsupported function: ")
	b.WriteString(fn)
	sep := byte('(')
	for _, a := range args {
		b.WriteByte(sep)
		b.WriteString(typeString(a))
		sep = ','
	}
	b.WriteByte(')')
	panic(b.String())
'''),
(N, '''	if a == nil {
		return "nil"
	}
	return reflect.TypeOf(a).String()
''', '''	if a != nil {
		return fmt.Sprintf("%T", a)
	}
	return "nil"
'''),
(L, '''	for _, v := range vals {
		switch val := v.(type) {
		case float64:
			a = append(a, val)
		case int:
			a = append(a, float64(val))
		case float32:
			a = append(a, float64(val))
		default:
			panic("unsupported: []float64 append " + reflect.TypeOf(v).String())
		}
	}
	return a
''', '''	fs := make([]float64, 0, len(vals))
	for _, v := range vals {
		f := 0.0
		switch val := v.(type) {
		case float64:
			f = val
		case float32:
			f = float64(val)
		case int:
			f = float64(val)
		default:
			panic("unsupported: []float64 append " + reflect.TypeOf(v).String())
		}
		fs = append(fs, f)
	}
	return append(a, fs...)
'''),
(L, '''	n, cap := 0, 0
	if len(args) == 1 {
		if v, ok := args[0].(int); ok {
			n, cap = v, v
		} else {
			panic("second param type of func `slice` must be `int`")
		}
	} else if len(args) > 1 {
		if v, ok := args[0].(int); ok {
			n = v
		} else {
			panic("2nd param type of func `slice` must be `int`")
		}
		if v, ok := args[1].(int); ok {
			cap = v
		} else {
			panic("3rd param type of func `slice` must be `int`")
		}
	}
''', '''	n, cap := 0, 0
	for i, a := range args {
		if i > 1 {
			break
		}
		v, ok := a.(int)
		if !ok {
			panic(fmt.Sprintf("param %d type of func `slice` must be `int`", i+2))
		}
		if cap = v; i == 0 {
			n = v
		}
	}
'''),
(L, '''	case reflect.Map:
		v := o.MapIndex(reflect.ValueOf(key))
		if v.IsValid() {
			return v.Interface()
		}
		return qlang.Undefined
	default:
		return o.Index(key.(int)).Interface()
	}
''', '''	case reflect.Map:
		if v := o.MapIndex(reflect.ValueOf(key)); v.Kind() != reflect.Invalid {
			return v.Interface()
		}
		return qlang.Undefined
	}
	return o.Index(key.(int)).Interface()
'''),
(S, '''	for name, fn := range table {
		if fn, ok := Fntable[name]; ok {
			if v := reflect.ValueOf(fn); v.Kind() == reflect.Func {
				p := v.Pointer()
				if p != fnDummy1 && p != fnDummy2 {
					panic("symbol to import exists already: " + name)
				}
			} else {
				panic("symbol to import exists already: " + name)
			}
		}
		Fntable[name] = fn
	}
''', '''	for name, fn := range table {
		if old, ok := Fntable[name]; ok && !isDummy(reflect.ValueOf(old)) {
			panic("symbol to import exists already: " + name)
		}
		Fntable[name] = fn
	}
}

func isDummy(v reflect.Value) bool {
	if v.Kind() != reflect.Func {
		return false
	}
	p := v.Pointer()
	return p == fnDummy1 || p == fnDummy2
'''),
]
