# interpreter: marks classified by a table, errors made by one function, values parsed by kind; calls: arguments checked by a shared helper
checks = "I01 I02 I03 I04 I05 K01 K02"
I = "tpl/interpreter/interpreter.go"
U = "tpl/interpreter.util/call.go"
edits = [
(I, '''	switch t.Kind() {
	case reflect.String:
		return reflect.ValueOf(lit), nil
	case reflect.Float64:
		v, err1 := ParseFloat(lit)
		if err1 != nil {
			err = err1
			return
		}
		return reflect.ValueOf(v), nil
	case reflect.Int64:
		v, err1 := ParseInt(lit)
		if err1 != nil {
			err = err1
			return
		}
		return reflect.ValueOf(v), nil
	case reflect.Int:
		v, err1 := ParseInt(lit)
		if err1 != nil {
			err = err1
			return
		}
		return reflect.ValueOf(int(v)), nil
	}
	err = errors.New("unsupported type: " + t.String())
	return
}
''', '''	var v interface{}
	switch t.Kind() {
	case reflect.String:
		v = lit
	case reflect.Float64:
		v, err = parseAny(func() (interface{}, error) { return wrapFloat(ParseFloat(lit)) })
	case reflect.Int64, reflect.Int:
		var n int64
		if n, err = ParseInt(lit); t.Kind() == reflect.Int {
			v = int(n)
		} else {
			v = n
		}
	default:
		return ret, fmt.Errorf("unsupported type: %v", t)
	}
	if err == nil {
		ret = reflect.ValueOf(v)
	}
	return
}

func wrapFloat(v float64, err error) (interface{}, error) {
	return v, err
}

func parseAny(f func() (interface{}, error)) (interface{}, error) {
	return f()
}
'''),
(I, '''	case '0':
		if len(lit) == 1 {
			return
		}
		switch lit[1] {
		case 'x', 'X':
			return strconv.ParseInt(lit[2:], 16, 64)
		default:
			return strconv.ParseInt(lit[1:], 8, 64)
		}
	default:
		return strconv.ParseInt(lit, 10, 64)
	}
}
''', '''	case '0':
		rest, base := lit[1:], 8
		if rest == "" {
			return 0, nil
		}
		if strings.IndexByte("xX", rest[0]) >= 0 {
			rest, base = rest[1:], 16
		}
		return strconv.ParseInt(rest, base, 64)
	}
	return strconv.ParseInt(lit, 10, 64)
}
'''),
(I, '''	"reflect"
	"strconv"
''', '''	"reflect"
	"strconv"
	"strings"
'''),
(I, '''	s := p.Ctx.Tokener()
	file, line := tpl.FileLine(p.Src, s)
	if file == "" {
		return fmt.Sprintf("line %d: runtime error: %v", line, p.Err)
	}
	return fmt.Sprintf("%s:%d: runtime error: %v", file, line, p.Err)
}
''', '''	file, line := tpl.FileLine(p.Src, p.Ctx.Tokener())
	where := "line " + strconv.Itoa(line)
	if len(file) > 0 {
		where = file + ":" + strconv.Itoa(line)
	}
	return strings.Join([]string{where, "runtime error", fmt.Sprint(p.Err)}, ": ")
}
'''),
(I, '''				if e := recover(); e != nil {
					if err, ok := e.(*RuntimeError); ok {
						panic(err)
					}
					if err, ok := e.(*tpl.MatchError); ok {
						panic(err)
					}
					err, ok := e.(error)
					if !ok {
						if s, ok := e.(string); ok {
							err = errors.New(s)
						} else {
							panic(e)
						}
					}
					err = &RuntimeError{
						Grammar: g,
						Ctx:     p.Snapshot(),
						Err:     err,
						Src:     tokens,
					}
					panic(err)
				}
			}()
''', '''				e := recover()
				if e == nil {
					return
				}
				failed := &RuntimeError{Grammar: g, Src: tokens}
				switch v := e.(type) {
				case *RuntimeError, *tpl.MatchError:
					panic(e)
				case error:
					failed.Err = v
				case string:
					failed.Err = errors.New(v)
				default:
					panic(v)
				}
				failed.Ctx = p.Snapshot()
				panic(failed)
			}()
'''),
(I, '''		trecvr := tfn.In(0)
		kindRecvr := 0
		if trecvr == tstk {
			kindRecvr = 1
		} else if trecvr == tipt {
			kindRecvr = 2
		}
''', '''		kindRecvr := map[reflect.Type]int{tipt: 2, tstk: 1}[tfn.In(0)]
'''),
(I, '''			if p.mute > 0 { // 禁止所有非 '_' 开头的 action
				if mark[0] != '_' || p.mute > 1 {
					return
				}
			}
			defer func() {''', '''			if always := mark[0] == '_'; p.mute > 1 || p.mute == 1 && !always { // 禁止所有非 '_' 开头的 action
				return
			}
			defer func() {'''),
(U, '''	in = in[1:]
	if isVariadic {
		n--
		t := tfn.In(n).Elem()
		for i := n; i < arity; i++ {
			if err := validateType(&in[i], t); err != nil {
				return err
			}
		}
	}
	for i := 0; i < n; i++ {
		if err := validateType(&in[i], tfn.In(i)); err != nil {
			return err
		}
	}

	out := vfn.Call(in)
	return stk.PushRet(out)
}
''', '''	in = in[1:]
	for i := range in {
		t := paramType(tfn, i)
		if err := validateType(&in[i], t); err != nil {
			return err
		}
	}
	return stk.PushRet(vfn.Call(in))
}

func paramType(tfn reflect.Type, i int) reflect.Type {
	last := tfn.NumIn() - 1
	if !tfn.IsVariadic() || i < last {
		return tfn.In(i)
	}
	return tfn.In(last).Elem()
}
'''),
]
