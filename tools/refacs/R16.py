# builtin: typed maps and slices through reflect, growing with append, set by kinds
checks = "Q01 Q09 Q10 Q13"
L = "tpl/qlang/lib/builtin/builtin.go"
src = open("/repo/" + L).read()
a = src.index("	switch kindOf2Args(args, 0) {\n	case reflect.String:"); b = src.index("func Delete(")
edits = [
(L, src[a:b], '''	var key reflect.Type
	switch kindOf2Args(args, 0) {
	case reflect.String:
		key = reflect.TypeOf("")
	case reflect.Int:
		key = reflect.TypeOf(0)
	default:
		panic("mapFrom: key type only support `string`, `int` now")
	}
	var elem reflect.Type
	switch kindOf2Args(args, 1) {
	case reflect.String:
		elem = reflect.TypeOf("")
	case reflect.Int:
		elem = reflect.TypeOf(0)
	case reflect.Float64:
		elem = reflect.TypeOf(0.0)
	default:
		elem = reflect.TypeOf((*interface{})(nil)).Elem()
	}
	ret := reflect.MakeMap(reflect.MapOf(key, elem))
	for len(args) > 0 {
		k, v := args[0], args[1]
		args = args[2:]
		var kv reflect.Value
		if key.Kind() == reflect.Int {
			kv = reflect.ValueOf(asInt(k))
		} else {
			kv = reflect.ValueOf(k.(string))
		}
		switch elem.Kind() {
		case reflect.String:
			ret.SetMapIndex(kv, reflect.ValueOf(v.(string)))
		case reflect.Int:
			ret.SetMapIndex(kv, reflect.ValueOf(asInt(v)))
		case reflect.Float64:
			ret.SetMapIndex(kv, reflect.ValueOf(asFloat(v)))
		default:
			switch v {
			case qlang.Undefined:
			case nil:
				ret.SetMapIndex(kv, reflect.Zero(elem))
			default:
				ret.SetMapIndex(kv, reflect.ValueOf(v))
			}
		}
	}
	return ret.Interface()
}

'''),
(L, '''	va := reflect.ValueOf(a)
	x := make([]reflect.Value, len(vals))
	for i, v := range vals {
		if v != nil {
			x[i] = reflect.ValueOf(v)
		} else {
			x[i] = reflect.Zero(va.Type().Elem())
		}
	}
	return reflect.Append(va, x...).Interface()
''', '''	va := reflect.ValueOf(a)
	elem := va.Type().Elem()
	for _, v := range vals {
		va = reflect.Append(va, valueFor(v, elem))
	}
	return va.Interface()
'''),
(L, '''func appendFloat(''', '''func valueFor(v interface{}, t reflect.Type) reflect.Value {

	if v == nil {
		return reflect.Zero(t)
	}
	return reflect.ValueOf(v)
}

func appendFloat('''),
(L, '''		var val reflect.Value
		for i := 0; i < n; i += 2 {
			key := reflect.ValueOf(args[i])
			t := args[i+1]
			switch t {
			case qlang.Undefined:
				val = zeroVal
			case nil:
				val = reflect.Zero(o.Type().Elem())
			default:
				val = reflect.ValueOf(t)
			}
			o.SetMapIndex(key, val)
		}
	case reflect.Slice:
		for i := 0; i < n; i += 2 {
			val := reflect.ValueOf(args[i+1])
			if args[i+1] == nil {
				val = reflect.Zero(o.Type().Elem())
			}
			o.Index(args[i].(int)).Set(val)
		}
''', '''		elem := o.Type().Elem()
		for ; len(args) > 0; args = args[2:] {
			if args[1] == qlang.Undefined {
				Delete(m, args[0])
				continue
			}
			o.SetMapIndex(reflect.ValueOf(args[0]), valueFor(args[1], elem))
		}
	case reflect.Slice:
		elem := o.Type().Elem()
		for i, v := range args {
			if i%2 == 1 {
				o.Index(args[i-1].(int)).Set(valueFor(v, elem))
			}
		}
'''),
(L, '''	var va = reflect.ValueOf(a)
	var i1, j1 int
	if i != nil {
		i1 = asInt(i)
	}
	if j != nil {
		j1 = asInt(j)
	} else {
		j1 = va.Len()
	}
	return va.Slice(i1, j1).Interface()
''', '''	va := reflect.ValueOf(a)
	bound := func(x interface{}, def func() int) int {
		if x == nil {
			return def()
		}
		return asInt(x)
	}
	from := bound(i, func() int { return 0 })
	return va.Slice(from, bound(j, va.Len)).Interface()
'''),
(L, '''	if ch, ok := a.(*types.Chan); ok {
		return ch.Data.Len()
	}
	return reflect.ValueOf(a).Len()
''', '''	switch v := a.(type) {
	case string:
		return len(v)
	case []interface{}:
		return len(v)
	case *types.Chan:
		return v.Data.Len()
	default:
		return reflect.ValueOf(v).Len()
	}
'''),
]
