# script control structures, functions: operands split off, branches collected first, loops with break, named results
checks = "Q02 Q03 Q04 Q05 Q06 Q07 Q08 Q09 Q12 Q17"
C = "tpl/qlang/cl/ctrl.go"
F = "tpl/qlang/cl/function.go"
edits = [
(C, '''func (p *Interpreter) Or(e interpreter.Engine) {

	bCode, _ := p.stk.Pop()
	a, _ := p.stk.Pop()
	a1, ok := a.(bool)
	if !ok {
		panic("left operand of || operator isn't a boolean expression")
	}
	if a1 {
		p.stk.Push(true)
		return
	}
	evalCode(e, p, "term4", bCode)
}
''', '''func (p *Interpreter) operands(op string) (a bool, bCode interface{}) {

	bCode, _ = p.stk.Pop()
	v, _ := p.stk.Pop()
	switch t := v.(type) {
	case bool:
		return t, bCode
	}
	panic("left operand of " + op + " operator isn't a boolean expression")
}

func (p *Interpreter) Or(e interpreter.Engine) {

	if a, bCode := p.operands("||"); a {
		p.stk.Push(a)
	} else {
		evalCode(e, p, "term4", bCode)
	}
}
'''),
(C, '''	bCode, _ := p.stk.Pop()
	a, _ := p.stk.Pop()
	a1, ok := a.(bool)
	if !ok {
		panic("left operand of && operator isn't a boolean expression")
	}
	if !a1 {
		p.stk.Push(false)
		return
	}
	evalCode(e, p, "term3", bCode)
''', '''	a, bCode := p.operands("&&")
	if a {
		evalCode(e, p, "term3", bCode)
		return
	}
	p.stk.Push(a)
'''),
(C, '''	ifbr := stk.popNArgs(condArity << 1) // 2 * (condArity + 1)
	for i := 0; i < condArity; i++ {
		condCode := ifbr[i<<1]
		evalCode(e, p, "expr", condCode)
		v, _ := stk.Pop()
		cond, ok := v.(bool)
		if !ok {
			panic(ErrIfCondNotBoolean)
		}
		if cond {
			bodyCode := ifbr[(i<<1)+1]
			if bodyCode == nil {
				stk.Push(nil)
			} else {
				evalCode(e, p, "doc", bodyCode)
			}
			return
		}
	}
	if elseCode == nil {
		stk.Push(nil)
	} else {
		evalCode(e, p, "doc", elseCode)
	}
}
''', '''	chosen := elseCode
	for ifbr := stk.popNArgs(2 * condArity); len(ifbr) != 0; ifbr = ifbr[2:] {
		evalCode(e, p, "expr", ifbr[0])
		v, _ := stk.Pop()
		if cond, ok := v.(bool); !ok {
			panic(ErrIfCondNotBoolean)
		} else if cond {
			chosen = ifbr[1]
			break
		}
	}
	evalBlock(e, p, chosen)
}

func evalBlock(e interpreter.Engine, p *Interpreter, code interface{}) {

	if code != nil {
		evalCode(e, p, "doc", code)
		return
	}
	p.stk.Push(nil)
}
'''),
(C, '''		vCond := qlang.EQ(switchCond, caseCond)
		if cond, ok := vCond.(bool); ok && cond {
			bodyCode := casebr[(i<<1)+1]
			if bodyCode == nil {
				stk.Push(nil)
			} else {
				evalCode(e, p, "doc", bodyCode)
			}
			return
		}
	}
	if defaultCode == nil {
		stk.Push(nil)
	} else {
		evalCode(e, p, "doc", defaultCode)
	}
''', '''		if qlang.EQ(switchCond, caseCond) == true {
			defaultCode = casebr[(i<<1)+1]
			break
		}
	}
	evalBlock(e, p, defaultCode)
'''),
(C, '''	for condCode == nil || p.evalCondS(e, condCode) {
		if bodyCode != nil {
			evalCode(e, p, "doc", bodyCode)
			stk.Pop()
		}
		if stepCode != nil {
			evalCode(e, p, "s", stepCode)
			stk.Pop()
		}
	}
	stk.Push(nil)
''', '''	run := func(name string, code interface{}) {
		if code == nil {
			return
		}
		evalCode(e, p, name, code)
		stk.Pop()
	}
	for {
		if condCode != nil && !p.evalCondS(e, condCode) {
			stk.Push(nil)
			return
		}
		run("doc", bodyCode)
		run("s", stepCode)
	}
'''),
(C, '''	old := p.base
	p.base = p.stk.BaseFrame()
	defer func() { // code may panic
		p.base = old
	}()
''', '''	defer func(old int) { // code may panic
		p.base = old
	}(p.base)
	p.base = p.stk.BaseFrame()
'''),
(F, '''	if p.Variadic {
		for i := 0; i < n-1; i++ {
			vars[p.Args[i]] = args[i]
		}
		vars[p.Args[n-1]] = args[n-1:]
	} else {
		for i, arg := range args {
			vars[p.Args[i]] = arg
		}
	}

	err := func() error {
		defer func() {
			if e := recover(); e != ErrReturn { // 正常 return 导致，见 (*Interpreter).Return 函数
				calc.Recov = e
			}
			calc.ExecDefers(p.engine)
			stk.SetFrame(base)
			if calc.Recov != nil {
				panic(calc.Recov)
			}
		}()
		return p.engine.EvalCode(calc, "doc", p.fnb)
	}()
	if err != nil {
		panic(err)
	}
	return calc.ret
}
''', '''	for i, name := range p.Args {
		if p.Variadic && i == n-1 {
			vars[name] = args[i:]
			break
		}
		vars[name] = args[i]
	}

	if err := p.run(calc); err != nil {
		panic(err)
	}
	return calc.ret
}

func (p *Function) run(calc *Interpreter) (err error) {

	defer func() {
		switch e := recover(); e {
		case ErrReturn: // 正常 return 导致，见 (*Interpreter).Return 函数
		default:
			calc.Recov = e
		}
		calc.ExecDefers(p.engine)
		calc.Clear()
		if e := calc.Recov; e != nil {
			panic(e)
		}
	}()
	err = p.engine.EvalCode(calc, "doc", p.fnb)
	return
}
'''),
(F, '''	for p.defers != nil {
		d := p.defers
		p.defers = d.next
		p.execDefer(e, d.src)
	}
''', '''	for {
		d := p.defers
		if d == nil {
			return
		}
		p.defers, d.next = d.next, nil
		p.execDefer(e, d.src)
	}
'''),
(F, '''	vars = p.vars
	val, ok := vars[name]
	if !ok {
		panic(fmt.Sprintf("variable `%s` not found", name))
	}
	if e, ok := val.(externVar); ok {
		vars = e.vars
		val = vars[name]
	}
	return
''', '''	v, found := p.vars[name]
	if !found {
		panic("variable `" + name + "` not found")
	}
	switch e := v.(type) {
	case externVar:
		return e.vars, e.vars[name]
	default:
		return p.vars, v
	}
'''),
]
