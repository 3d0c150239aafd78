# script functions and variables
checks = "Q01 Q04 Q05 Q06 Q07 Q08 Q09 Q12 Q10"
F = "tpl/qlang/cl/function.go"
OPS = [("Add", "Add"), ("Sub", "Sub"), ("Mul", "Mul"), ("Quo", "Quo"), ("Mod", "Mod")]
edits = []
for n, q in OPS:
    edits.append((F, '''func (p *Interpreter) %sAssign(name string) error {

	vars, val := p.getVar(name)
	v, ok := p.stk.Pop()
	if !ok {
		return ErrAssignWithoutVal
	}
	val = qlang.%s(val, v)
	vars[name] = val
	p.stk.Push(val)
	return nil
}
''' % (n, q), '''func (p *Interpreter) %sAssign(name string) error {
	return p.opAssign(name, qlang.%s)
}
''' % (n, q)))
edits += [
(F, '''func (p *Interpreter) MultiAssign() error {
''', '''func (p *Interpreter) opAssign(name string, op func(a, b interface{}) interface{}) error {
	vars, old := p.getVar(name)
	if v, ok := p.stk.Pop(); ok {
		val := op(old, v)
		p.stk.Push(val)
		vars[name] = val
		return nil
	}
	return ErrAssignWithoutVal
}

func (p *Interpreter) MultiAssign() error {
'''),
(F, '''	vars, val := p.getVar(name)
	val = qlang.Inc(val)
	vars[name] = val
	p.stk.Push(val)
	return nil
''', '''	return p.update(name, qlang.Inc)
}

func (p *Interpreter) update(name string, f func(interface{}) interface{}) error {
	vars, val := p.getVar(name)
	vars[name] = f(val)
	p.stk.Push(vars[name])
	return nil
'''),
(F, '''	vars, val := p.getVar(name)
	val = qlang.Dec(val)
	vars[name] = val
	p.stk.Push(val)
	return nil
''', '''	return p.update(name, qlang.Dec)
'''),
(F, '''	names := stk.popFnArgs(arity)
	for i := 0; i < n; i++ {
		name := names[i]
		vars := p.getVars(name)
		vars[name] = v.Index(i).Interface()
	}

	p.stk.Push(val)
	return nil
''', '''	for i, name := range stk.popFnArgs(arity) {
		p.getVars(name)[name] = v.Index(i).Interface()
	}
	stk.Push(val)
	return nil
'''),
(F, '''	vars = p.vars
	if val, ok := vars[name]; ok { // 变量已经存在
		if e, ok := val.(externVar); ok {
			vars = e.vars
		}
		return
	}

	if name[0] != '_' { // NOTE: '_' 开头的变量是私有的，不可继承
		for t := p.parent; t != nil; t = t.parent {
			if _, ok := t.vars[name]; ok {
				panic(fmt.Sprintf("variable `%s` exists in extern function", name))
			}
		}
	}
	return
''', '''	val, ok := p.vars[name]
	if e, isExtern := val.(externVar); isExtern {
		return e.vars
	}
	if !ok && p.owner(name) != nil {
		panic("variable `" + name + "` exists in extern function")
	}
	return p.vars
}

// owner returns the nearest function around that has a variable.
func (p *Interpreter) owner(name string) *Interpreter {
	if strings.HasPrefix(name, "_") {
		return nil
	}
	t := p.parent
	for t != nil {
		if _, ok := t.vars[name]; ok {
			break
		}
		t = t.parent
	}
	return t
'''),
(F, '''	"reflect"
''', '''	"reflect"
	"strings"
'''),
(F, '''	val, ok := p.vars[name]
	if ok {
		if e, ok1 := val.(externVar); ok1 {
			val = e.vars[name]
		}
	} else {
		if name[0] != '_' { // NOTE: '_' 开头的变量是私有的，不可继承
			for t := p.parent; t != nil; t = t.parent {
				if val, ok = t.vars[name]; ok {
					e, ok1 := val.(externVar)
					if ok1 {
						val = e.vars[name]
					} else {
						e = externVar{t.vars}
					}
					p.vars[name] = e // 缓存访问过的变量
					goto lzDone
				}
			}
		}
		if val, ok = qlang.Fntable[name]; !ok {
			panic("symbol not found: " + name)
		}
	}

lzDone:
	return val
''', '''	val, ok := p.vars[name]
	if !ok {
		t := p.owner(name)
		if t == nil {
			if fn, ok := qlang.Fntable[name]; ok {
				return fn
			}
			panic("symbol not found: " + name)
		}
		val = t.vars[name]
		if _, ok := val.(externVar); !ok {
			val = externVar{t.vars}
		}
		p.vars[name] = val
	}
	if e, ok := val.(externVar); ok {
		return e.vars[name]
	}
	return val
'''),
(F, '''	if p.Variadic {
		if len(args) < n-1 {
			panic(fmt.Sprintf("function requires >= %d arguments, but we got %d", n-1, len(args)))
		}
	} else {
		if len(args) != n {
			panic(fmt.Sprintf("function requires %d arguments, but we got %d", n, len(args)))
		}
	}
''', '''	switch got := len(args); {
	case p.Variadic && got < n-1:
		panic(fmt.Sprintf("function requires >= %d arguments, but we got %d", n-1, got))
	case !p.Variadic && got != n:
		panic(fmt.Sprintf("function requires %d arguments, but we got %d", n, got))
	}
'''),
(F, '''	if p.Variadic {
		for i := 0; i < n-1; i++ {
			vars[p.Args[i]] = args[i]
		}
		vars[p.Args[n-1]] = args[n-1:]
	} else {
		for i, arg := range args {
			vars[p.Args[i]] = arg
		}
	}

	err := func() error {
		defer func() {
			if e := recover(); e != ErrReturn { // 正常 return 导致，见 (*Interpreter).Return 函数
				calc.Recov = e
			}
			calc.ExecDefers(p.engine)
			stk.SetFrame(base)
			if calc.Recov != nil {
				panic(calc.Recov)
			}
		}()
		return p.engine.EvalCode(calc, "doc", p.fnb)
	}()
	if err != nil {
		panic(err)
	}
	return calc.ret
}
''', '''	for i, name := range p.Args {
		if p.Variadic && i == n-1 {
			vars[name] = args[i:]
			break
		}
		vars[name] = args[i]
	}
	if err := p.run(calc); err != nil {
		panic(err)
	}
	return calc.ret
}

func (p *Function) run(calc *Interpreter) error {
	defer p.finish(calc)
	return p.engine.EvalCode(calc, "doc", p.fnb)
}

func (p *Function) finish(calc *Interpreter) {
	e := recover()
	if e == ErrReturn {
		e = nil
	}
	if e != nil {
		calc.Recov = e
	} else {
		calc.Recov = nil
	}
	calc.ExecDefers(p.engine)
	calc.stk.SetFrame(calc.base)
	if e := calc.Recov; e != nil {
		panic(e)
	}
}
'''),
(F, '''	for p.defers != nil {
		d := p.defers
		p.defers = d.next
		p.execDefer(e, d.src)
	}
''', '''	for d := p.defers; d != nil; d = p.defers {
		p.defers = d.next
		p.execDefer(e, d.src)
	}
'''),
]
