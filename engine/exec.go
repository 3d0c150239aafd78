package main

import (
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"sort"
)

// ---------- decisions ----------

// status decides t from constants, known facts and exact byte domains; 1 true, 0 false, -1 undetermined.
func (vm *VM) status(t *Term) int {
	if t.op == TConst {
		return int(t.k)
	}
	if v, ok := vm.known[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch t.op {
	case TNot:
		s := vm.status(t.a)
		if s >= 0 {
			return 1 - s
		}
		return -1
	case TAnd:
		if !t.unary() {
			a := vm.status(t.a)
			if a == 0 {
				return 0
			}
			b := vm.status(t.b)
			if b == 0 {
				return 0
			}
			if a == 1 && b == 1 {
				return 1
			}
			break
		}
	case TOr:
		if !t.unary() {
			a := vm.status(t.a)
			if a == 1 {
				return 1
			}
			b := vm.status(t.b)
			if b == 1 {
				return 1
			}
			if a == 0 && b == 0 {
				return 0
			}
			break
		}
	}
	if t.unary() {
		d, ok := vm.dom[t.v1]
		if !ok {
			d = setFull
		}
		s := vm.tb.truth(t)
		var in, out uint64
		for i := range d {
			in |= d[i] & s[i]
			out |= d[i] &^ s[i]
		}
		if in == 0 {
			return 0
		}
		if out == 0 {
			return 1
		}
		return -1
	}
	return -1
}

// simp rewrites t using the byte variables whose value is already determined.
func (vm *VM) simp(t *Term) *Term {
	if t.nv == 0 || t.op == TConst {
		return t
	}
	if t.nv == 1 {
		if t.v1.sort == 8 {
			if d, ok := vm.dom[t.v1]; ok && setCount(&d) == 1 && !t.uf {
				v := t.v1
				k := uint64(setMin(&d))
				return vm.tb.subst(t, func(x *Term) *Term {
					if x == v {
						return vm.tb.Const(8, k)
					}
					return x
				}, map[*Term]*Term{})
			}
		}
		return t
	}
	some := false
	for _, v := range t.varList() {
		if v.sort == 8 {
			if d, ok := vm.dom[v]; ok && setCount(&d) == 1 {
				some = true
				break
			}
		}
	}
	if !some {
		return t
	}
	return vm.tb.subst(t, func(x *Term) *Term {
		if x.sort == 8 {
			if d, ok := vm.dom[x]; ok && setCount(&d) == 1 {
				return vm.tb.Const(8, uint64(setMin(&d)))
			}
		}
		return x
	}, map[*Term]*Term{})
}

func (vm *VM) setKnown(t *Term, v bool) {
	if t.op == TConst {
		return
	}
	if _, ok := vm.known[t]; !ok {
		vm.known[t] = v
		vm.knownL = append(vm.knownL, t)
	}
}

func (vm *VM) assert(t *Term) {
	if t.op == TConst {
		if t.k == 0 {
			panic(pathEnd{"infeasible"})
		}
		return
	}
	if t.op == TAnd && !t.unary() {
		vm.setKnown(t, true)
		vm.assert(t.a)
		vm.assert(t.b)
		return
	}
	vm.setKnown(t, true)
	if t.op == TNot {
		vm.setKnown(t.a, false)
	}
	vm.pc = append(vm.pc, t)
	if t.unary() {
		v := t.v1
		d, ok := vm.dom[v]
		if !ok {
			d = setFull
		}
		vm.domTr = append(vm.domTr, domTrail{v: v, old: d})
		s := vm.tb.truth(t)
		for i := range d {
			d[i] &= s[i]
		}
		vm.dom[v] = d
		if setEmpty(&d) {
			panic(pathEnd{"infeasible"})
		}
	} else {
		for _, v := range t.varList() {
			vm.ent[v]++
			vm.domTr = append(vm.domTr, domTrail{v: v, ent: true})
			if !vm.evset[v] {
				vm.evset[v] = true
				vm.evars = append(vm.evars, v)
			}
		}
	}
	if vm.modelOK {
		if v, ok := vm.evalModel(t, false); !ok || v == 0 {
			vm.modelOK = false
		}
	}
}

func (vm *VM) domMin(v *Term) uint64 {
	if v.sort == 8 {
		if d, ok := vm.dom[v]; ok {
			return uint64(setMin(&d))
		}
	}
	return 0
}

// evalModel evaluates t under the current model (extended over unconstrained variables).
func (vm *VM) evalModel(t *Term, commit bool) (uint64, bool) {
	m := map[*Term]uint64{}
	for _, v := range t.varList() {
		if x, ok := vm.model[v]; ok && vm.evset[v] {
			m[v] = x
		} else if vm.evset[v] {
			if x, ok := vm.model[v]; ok {
				m[v] = x
			} else {
				return 0, false
			}
		} else if v.sort == 8 {
			m[v] = vm.domMin(v)
		} else if x, ok := vm.model[v]; ok {
			m[v] = x
		} else {
			m[v] = 0
		}
	}
	r, ok := vm.tb.eval(t, m, map[*Term]uint64{})
	if ok && commit {
		var nm map[*Term]uint64
		for v, x := range m {
			if y, ok := vm.model[v]; !ok || y != x {
				if nm == nil {
					nm = make(map[*Term]uint64, len(vm.model)+len(m))
					for k, z := range vm.model {
						nm[k] = z
					}
				}
				nm[v] = x
			}
		}
		if nm != nil {
			vm.model = nm
		}
	}
	return r, ok
}

func (vm *VM) query(extra *Term) (Sat, map[*Term]uint64) {
	vars := append([]*Term(nil), vm.evars...)
	seen := vm.evset
	for _, v := range extra.varList() {
		if !seen[v] {
			vars = append(vars, v)
		}
	}
	m := map[*Term]uint64{}
	if vm.rep != nil {
		vm.rep.queries++
	}
	// real-sorted variables are left out of the cached model
	vs := vars[:0:0]
	for _, v := range vars {
		if v.sort != SReal && v.sort != SF64 {
			vs = append(vs, v)
		}
	}
	s := vm.sol.Check(vm.pc, extra, vs, m, nil)
	if s == Unknown && vm.rep != nil {
		vm.rep.unknown++
	}
	return s, m
}

// audit has the solver re-decide a branch that was decided from byte domains or known facts.
func (vm *VM) audit(t *Term, v bool) {
	if vm.rep == nil {
		return
	}
	if v {
		t = vm.tb.Not(t)
	}
	vm.rep.audits++
	if s, _ := vm.query(t); s == SatYes {
		vm.rep.auditBad++
	}
}

func (vm *VM) exactUnary(t *Term) bool { return t.unary() && vm.ent[t.v1] == 0 }

// branch decides the truth of t on this path, forking if both outcomes are feasible.
func (vm *VM) branch(t *Term) bool {
	s := vm.status(t)
	if s < 0 && t.nv == 2 {
		t2 := vm.simp(t)
		if t2 != t {
			s = vm.status(t2)
			if s < 0 {
				r := vm.branch(t2)
				vm.setKnown(t, r)
				return r
			}
		}
	}
	if s >= 0 {
		if vm.domDec++; vm.domDec&0x1ff == 0 && t.op != TConst && vm.spec == 0 && !vm.inRoot && !vm.initing {
			vm.audit(t, s == 1)
		}
		return s == 1
	}
	if vm.spec > 0 {
		panic(specAbort{})
	}
	if vm.inRoot {
		panic(unsupported{"branch before root"})
	}
	if vm.ppos < len(vm.prefix) {
		d := vm.prefix[vm.ppos]
		vm.ppos++
		vm.log = append(vm.log, d)
		vm.modelOK = false
		if d == 1 {
			vm.assert(t)
			return true
		}
		vm.assert(vm.tb.Not(t))
		return false
	}
	nt := vm.tb.Not(t)
	ft, ff := SatYes, SatYes
	var mt, mf map[*Term]uint64
	if !vm.exactUnary(t) {
		have := false
		if len(vm.evars) == 0 && !vm.modelOK && !t.uf {
			// no solver-tier constraint so far: any point of the domains is a model
			vm.model, vm.modelOK = nil, true
		}
		if vm.modelOK {
			if v, ok := vm.evalModel(t, true); ok {
				have = true
				if v == 1 {
					mt = vm.model
					ff, mf = vm.query(nt)
				} else {
					mf = vm.model
					ft, mt = vm.query(t)
				}
			}
		}
		if !have {
			ft, mt = vm.query(t)
			if ft == SatNo {
				ff = SatYes
			} else {
				ff, mf = vm.query(nt)
			}
		}
		if ft == Unknown || ff == Unknown {
			vm.maybeInf++
		}
	}
	if ft == SatNo && ff == SatNo {
		panic(pathEnd{"infeasible"})
	}
	if ff == SatNo {
		vm.log = append(vm.log, 1)
		vm.useModel(ft, mt)
		vm.assert(t)
		return true
	}
	if ft == SatNo {
		vm.log = append(vm.log, 0)
		vm.useModel(ff, mf)
		vm.assert(nt)
		return false
	}
	unary := vm.exactUnary(t)
	cp := vm.pushChoice(nt)
	if !unary {
		if ff == SatYes {
			cp.model = mf
			if cp.model == nil {
				cp.model = map[*Term]uint64{}
			}
		}
		vm.useModel(ft, mt)
	} else if vm.modelOK {
		cp.model = vm.model
		if cp.model == nil {
			cp.model = map[*Term]uint64{}
		}
	}
	vm.log = append(vm.log, 1)
	if vm.rep != nil {
		vm.rep.forks++
	}
	vm.assert(t)
	return true
}

func (vm *VM) useModel(s Sat, m map[*Term]uint64) {
	if s == SatYes && m != nil {
		vm.model, vm.modelOK = m, true
	} else if s != SatYes {
		vm.modelOK = false
	}
}

func (vm *VM) pushChoice(alt *Term) *choice {
	cp := &choice{trail: len(vm.trail), npc: len(vm.pc), nknown: len(vm.knownL), ndom: len(vm.domTr), nev: len(vm.evars),
		nlog: len(vm.log), nsym: len(vm.symVars), nobs: len(vm.obs), steps: vm.steps, cond: alt, nevents: len(vm.events)}
	if vm.cur != nil {
		cp.frame = vm.clone(vm.cur)
	}
	vm.gen++
	if vm.cur != nil {
		vm.cur.gen = vm.gen
	}
	vm.cps = append(vm.cps, cp)
	return cp
}

func (vm *VM) restore(cp *choice) {
	for i := len(vm.trail) - 1; i >= cp.trail; i-- {
		e := &vm.trail[i]
		if e.fn != nil {
			e.fn()
		} else {
			*e.p = e.old
		}
		*e = trailEnt{}
	}
	vm.trail = vm.trail[:cp.trail]
	vm.pc = vm.pc[:cp.npc]
	for _, t := range vm.knownL[cp.nknown:] {
		delete(vm.known, t)
	}
	vm.knownL = vm.knownL[:cp.nknown]
	for i := len(vm.domTr) - 1; i >= cp.ndom; i-- {
		e := &vm.domTr[i]
		if e.ent {
			vm.ent[e.v]--
		} else {
			vm.dom[e.v] = e.old
		}
	}
	vm.domTr = vm.domTr[:cp.ndom]
	for _, v := range vm.evars[cp.nev:] {
		delete(vm.evset, v)
	}
	vm.evars = vm.evars[:cp.nev]
	vm.log = vm.log[:cp.nlog]
	vm.symVars = vm.symVars[:cp.nsym]
	vm.obs = vm.obs[:cp.nobs]
	vm.events = vm.events[:cp.nevents]
	vm.steps = cp.steps
	vm.spec = 0
	vm.pending = nil
	vm.done = false
	vm.gen++
}

// backtrack moves to the next unexplored alternative; false if none is left.
func (vm *VM) backtrack() bool {
	for len(vm.cps) > 0 {
		cp := vm.cps[len(vm.cps)-1]
		vm.cps = vm.cps[:len(vm.cps)-1]
		if cp.dead {
			continue
		}
		vm.restore(cp)
		vm.cur = cp.frame
		if vm.cur != nil {
			vm.cur.gen = vm.gen
		}
		vm.maybeInf = 0
		vm.log = append(vm.log, 0)
		if cp.model != nil {
			vm.model, vm.modelOK = cp.model, true
		} else {
			vm.modelOK = false
		}
		if !vm.tryAssert(cp.cond) {
			continue
		}
		return true
	}
	return false
}

func (vm *VM) tryAssert(t *Term) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(pathEnd); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	vm.assert(t)
	return true
}

// concretize forks over the feasible values of t and returns the one on this path.
func (vm *VM) concretize(t *Term) uint64 {
	for {
		t = vm.simp(t)
		if t.op == TConst {
			return t.k
		}
		var v uint64
		if t.unary() {
			d, ok := vm.dom[t.v1]
			if !ok {
				d = setFull
			}
			m := map[*Term]uint64{t.v1: uint64(setMin(&d))}
			v, _ = vm.tb.eval(t, m, map[*Term]uint64{})
		} else if vm.spec > 0 {
			panic(specAbort{})
		} else if vm.ppos < len(vm.prefix) {
			v = vm.prefix[vm.ppos]
			vm.ppos++
			vm.log = append(vm.log, v)
		} else {
			got := false
			if vm.modelOK || (len(vm.evars) == 0 && !t.uf) {
				if !vm.modelOK {
					vm.model, vm.modelOK = nil, true
				}
				if x, ok := vm.evalModel(t, true); ok {
					v, got = x, true
				}
			}
			if !got {
				vm.solverValue(t, &v)
			}
			vm.log = append(vm.log, v)
		}
		if vm.branch(vm.tb.Eq(t, vm.tb.Const(t.sort, v))) {
			return v
		}
	}
}

func (vm *VM) solverValue(t *Term, v *uint64) {
	// ask for a model and evaluate t in it
	s, m := vm.query(vm.tb.Eq(t, t.anchor(vm.tb)))
	if s == SatNo {
		panic(pathEnd{"infeasible"})
	}
	if s != SatYes {
		vm.unsup("cannot concretise: solver unknown")
	}
	x, ok := vm.tb.eval(t, m, map[*Term]uint64{})
	if !ok {
		vm.unsup("cannot concretise an uninterpreted term")
	}
	*v = x
}

// anchor: a fresh term equal-sortable to t so that the query mentions its variables.
func (t *Term) anchor(tb *TB) *Term {
	return tb.mk(TBXor, t.sort, t, tb.mk(TConst, t.sort, nil, nil, nil, 0, ""), nil, 0, "")
}

// term converts a scalar Value of type ty to a term.
func (vm *VM) term(v Value, ty *Type) *Term {
	if t, ok := v.o.(*Term); ok {
		return t
	}
	s := ty.ssort()
	if s == 255 {
		panic(fmt.Sprintf("term of %v", ty))
	}
	return vm.tb.Const(s, v.n)
}

// val converts a term back to a Value.
func (vm *VM) val(t *Term, ty *Type) Value {
	if t.op == TConst && t.sort != SReal {
		if ty.kind == KInt {
			return Value{n: norm(t.k, ty.w, ty.sgn)}
		}
		return Value{n: t.k}
	}
	return Value{o: t}
}

func (vm *VM) truth(v Value) bool {
	if t, ok := v.o.(*Term); ok {
		return vm.branch(t)
	}
	return v.n != 0
}

// ---------- the interpreter loop ----------

func (vm *VM) doMoves(fr *Frame, mv []move) {
	switch len(mv) {
	case 0:
	case 1:
		fr.regs[mv[0].dst] = vm.get(fr, mv[0].src)
	case 2:
		a, b := vm.get(fr, mv[0].src), vm.get(fr, mv[1].src)
		fr.regs[mv[0].dst], fr.regs[mv[1].dst] = a, b
	default:
		var buf [12]Value
		t := buf[:0]
		for _, m := range mv {
			t = append(t, vm.get(fr, m.src))
		}
		for i, m := range mv {
			fr.regs[m.dst] = t[i]
		}
	}
}

// runUntilEnd executes the current path to its end. Returns the reason.
func (vm *VM) runPath() (why string) {
	for {
		why, again := vm.runSafe()
		if !again {
			return why
		}
	}
}

func (vm *VM) runSafe() (why string, again bool) {
	defer func() {
		if r := recover(); r != nil {
			vm.spec = 0
			vm.pending = nil
			switch e := r.(type) {
			case pathEnd:
				why, again = e.why, false
			case unsupported:
				why, again = "unsupported: "+e.msg, false
				if vm.rep != nil {
					vm.rep.addUnsup(e.msg + " @ " + vm.where())
				}
			case goPanic:
				// continue in the panicking state
				if vm.doPanicSafe(e.v) {
					again = true
				} else {
					why, again = "panic", false
				}
			default:
				// a defect of this engine: the path is given up, not the run
				msg := fmt.Sprintf("engine: %v", r)
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, msg, string(debug.Stack()))
				}
				why, again = "unsupported: "+msg, false
				if vm.rep != nil {
					vm.rep.addUnsup(msg + " @ " + vm.where())
				}
			}
		}
	}()
	vm.loop()
	return "done", false
}

func (vm *VM) doPanicSafe(v Value) (cont bool) {
	if vm.trace {
		fmt.Println("PANIC", vm.show(v, 3), vm.where())
	}
	return vm.unwind(&panicRec{val: v, where: vm.where()})
}

// unwind propagates a panic from vm.cur. Returns false if it reached the top.
func (vm *VM) unwind(rec *panicRec) bool {
	for {
		fr := vm.own(vm.cur)
		vm.cur = fr
		fr.pan = rec
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[: n-1 : n-1]
			if vm.startDefer(d) {
				return true
			}
			// the deferred call was an intrinsic and is finished; afterDefer has run
			return true
		}
		if fr.parent == nil {
			vm.result = rec.val
			vm.lastPanic = rec
			return false
		}
		vm.cur = vm.own(fr.parent)
	}
}

func (vm *VM) startDefer(d deferred) bool {
	if d.ci != nil && d.ci.mode == 3 {
		vm.builtinCall(d.ci, d.args)
		vm.afterDefer()
		return false
	}
	vm.call(d.fn, d.args, nil, nil, -1, fkDefer, nil)
	return true
}

// afterDefer continues frame vm.cur after one deferred call returned.
func (vm *VM) afterDefer() {
	fr := vm.cur
	if fr.pan == nil {
		return // ORunDefers is re-executed
	}
	if fr.pan.recovered {
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[: n-1 : n-1]
			vm.startDefer(d)
			return
		}
		fr.pan = nil
		if fr.fn.recPC >= 0 {
			fr.pc = fr.fn.recPC
			return
		}
		var v Value
		if fr.fn.resT != nil {
			v = zero(fr.fn.resT)
		}
		vm.doReturn(fr, v)
		return
	}
	if !vm.unwind(fr.pan) {
		panic(pathEnd{"panic"})
	}
}

func (vm *VM) doReturn(fr *Frame, v Value) {
	if fr.parent == nil {
		vm.result = v
		vm.done = true
		vm.cur = nil
		return
	}
	p := vm.own(fr.parent)
	vm.cur = p
	switch fr.kind {
	case fkCall:
		if fr.onRet != nil {
			fr.onRet(vm, v)
		} else if fr.ret >= 0 {
			p.regs[fr.ret] = v
		}
	case fkDefer:
		vm.afterDefer()
	case fkNative:
		if fr.onRet != nil {
			fr.onRet(vm, v)
		}
	}
}

func (vm *VM) loop() {
	for {
		fr := vm.cur
		if fr == nil {
			return
		}
		vm.steps++
		if vm.steps > vm.stepLim {
			panic(pathEnd{"step limit"})
		}
		if vm.steps&0xfff == 0 && (len(vm.trail) > maxTrail || memHigh.Load() && vm.root != nil && vm.steps-vm.root.steps > memSteps) {
			panic(pathEnd{"step limit"})
		}
		in := &fr.fn.code[fr.pc]
		if fr.fn.hit != nil {
			fr.fn.hit[fr.pc] = true
		}
		switch in.op {
		case OJump:
			e := in.aux.(*edge)
			vm.doMoves(fr, e.moves)
			fr.pc = e.pc
		case OIf:
			x := in.aux.(*ifInfo)
			c := vm.get(fr, in.a)
			if t, ok := c.o.(*Term); ok {
				s := vm.status(t)
				if s < 0 && len(x.regs) > 0 && vm.tryRegion(fr, t, x) {
					continue
				}
				var b bool
				if s >= 0 {
					b = s == 1
				} else {
					b = vm.branch(t)
				}
				c.n = 0
				if b {
					c.n = 1
				}
			}
			e := &x.f
			if c.n != 0 {
				e = &x.t
			}
			vm.doMoves(fr, e.moves)
			fr.pc = e.pc
		case OReturn:
			rs := in.aux.([]int32)
			var v Value
			switch len(rs) {
			case 0:
			case 1:
				v = copyVal(vm.get(fr, rs[0]))
			default:
				e := make([]Value, len(rs))
				for i, r := range rs {
					e[i] = copyVal(vm.get(fr, r))
				}
				v = Value{o: &Agg{e}}
			}
			vm.doReturn(fr, v)
			if vm.done {
				return
			}
		case OCall:
			vm.execCall(fr, in)
		case ODefer:
			ci := in.aux.(*callInfo)
			f, args := vm.resolve(fr, ci)
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{fn: f, args: args, ci: ci})
			fr.pc++
		case ORunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				fr.defers = fr.defers[: n-1 : n-1]
				vm.startDefer(d)
				continue
			}
			fr.pc++
		case OPanic:
			v := vm.get(fr, in.a)
			if v.o == nil {
				v = mkIface(P.rtErr, Value{o: &Agg{[]Value{mkStr("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")}}})
			}
			vm.throw(v)
		default:
			v := vm.exec1(fr, in)
			if in.op != OStore && in.op != OMapUpdate {
				fr.regs[in.dst] = v
			}
			fr.pc++
		}
	}
}

// resolve evaluates callee and arguments.
func (vm *VM) resolve(fr *Frame, ci *callInfo) (Value, []Value) {
	switch ci.mode {
	case 0:
		args := make([]Value, len(ci.args))
		for i, a := range ci.args {
			args[i] = copyVal(vm.get(fr, a))
		}
		return Value{o: funcClosure(ci.fn, nil)}, args
	case 1:
		f := vm.get(fr, ci.fnReg)
		args := make([]Value, len(ci.args))
		for i, a := range ci.args {
			args[i] = copyVal(vm.get(fr, a))
		}
		return f, args
	case 2:
		recv := vm.get(fr, ci.fnReg)
		ifc, ok := recv.o.(*Iface)
		if !ok {
			vm.throwRT("runtime error: invalid memory address or nil pointer dereference")
		}
		fn := P.methodOf(ifc.t, ci.mid)
		if fn == nil {
			vm.unsup("method %s of %v", ci.mid, ifc.t)
		}
		args := make([]Value, len(ci.args)+1)
		args[0] = copyVal(ifc.v)
		for i, a := range ci.args {
			args[i+1] = copyVal(vm.get(fr, a))
		}
		return Value{o: funcClosure(fn, nil)}, args
	default:
		args := make([]Value, len(ci.args))
		for i, a := range ci.args {
			args[i] = vm.get(fr, a)
		}
		return Value{}, args
	}
}

func (vm *VM) execCall(fr *Frame, in *Instr) {
	ci := in.aux.(*callInfo)
	switch ci.mode {
	case 0:
		var buf [8]Value
		args := buf[:0]
		for _, a := range ci.args {
			v := vm.get(fr, a)
			if _, ok := v.o.(*Agg); ok {
				v = copyVal(v)
			}
			args = append(args, v)
		}
		if ci.fn.intr != nil {
			args = append([]Value(nil), args...)
		}
		vm.callFn(ci.fn, nil, args, ci, fr, in.dst, fkCall, nil)
	case 3:
		args := make([]Value, len(ci.args))
		for i, a := range ci.args {
			args[i] = vm.get(fr, a)
		}
		v := vm.builtinCall(ci, args)
		fr.regs[in.dst] = v
		fr.pc++
	default:
		f, args := vm.resolve(fr, ci)
		vm.call(f, args, ci, fr, in.dst, fkCall, nil)
	}
}

// ---------- region evaluation (if-conversion) ----------

// tryRegion attempts to evaluate a pure region; on success control has moved on and it returns true.
func (vm *VM) tryRegion(fr *Frame, cond *Term, x *ifInfo) bool {
	n := len(x.regs)
	if n > 3 {
		n = 3
	}
	for _, r := range x.regs[:n] {
		if vm.tryRegion1(fr, cond, x, r) {
			return true
		}
	}
	return false
}

type inEdge struct {
	g     *Term
	e     *edge
	retV  []int32
	isRet bool
}

func (vm *VM) specDo(f func() bool) (ok bool) {
	vm.spec++
	defer func() {
		vm.spec--
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return f()
}

// evalRegion computes guards and registers of region r; returns the incoming edges per exit.
func (vm *VM) evalRegion(fr *Frame, cond *Term, x *ifInfo, r *region, exact bool) (map[int32][]inEdge, bool) {
	tb := vm.tb
	ins := map[int32][]inEdge{}
	add := func(g *Term, e *edge) {
		if g.op == TConst && g.k == 0 {
			return
		}
		ins[e.blk] = append(ins[e.blk], inEdge{g: g, e: e})
	}
	add(cond, &x.t)
	add(tb.Not(cond), &x.f)
	fn := fr.fn
	for _, bi := range r.blocks {
		es := ins[bi]
		if len(es) == 0 {
			continue
		}
		delete(ins, bi)
		g := es[0].g
		for _, e := range es[1:] {
			g = tb.Or(g, e.g)
		}
		if !vm.mergeMoves(fr, es, true) {
			return nil, false
		}
		for pc := fn.blkPC[bi]; pc < fn.blkEnd[bi]; pc++ {
			in := &fn.code[pc]
			if fn.hit != nil {
				fn.hit[pc] = true
			}
			switch in.op {
			case OIf:
				y := in.aux.(*ifInfo)
				c := vm.get(fr, in.a)
				t, ok := c.o.(*Term)
				if !ok {
					t = tb.Bool(c.n != 0)
				} else if s := vm.status(t); s >= 0 {
					t = tb.Bool(s == 1)
				}
				add(tb.And(g, t), &y.t)
				add(tb.And(g, tb.Not(t)), &y.f)
			case OJump:
				add(g, in.aux.(*edge))
			case OReturn:
				ins[-1] = append(ins[-1], inEdge{g: g, retV: in.aux.([]int32), isRet: true})
			case OCall:
				ci := in.aux.(*callInfo)
				args := make([]Value, len(ci.args))
				for i, a := range ci.args {
					args[i] = vm.get(fr, a)
				}
				var v Value
				if ci.mode == 3 {
					v = vm.builtinCall(ci, args)
				} else {
					v = vm.evalPure(ci.fn, args, 0)
				}
				fr.regs[in.dst] = v
			default:
				fr.regs[in.dst] = vm.exec1(fr, in)
			}
		}
	}
	return ins, true
}

func sameVal(a, b Value) bool {
	if a.n != b.n {
		return false
	}
	if a.o == nil || b.o == nil {
		return a.o == nil && b.o == nil
	}
	switch x := a.o.(type) {
	case string:
		y, ok := b.o.(string)
		return ok && x == y
	case *Term:
		y, ok := b.o.(*Term)
		return ok && x == y
	case *Agg:
		y, ok := b.o.(*Agg)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !sameVal(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case *Iface:
		y, ok := b.o.(*Iface)
		return ok && x.t == y.t && sameVal(x.v, y.v)
	case *Sl:
		y, ok := b.o.(*Sl)
		return ok && x == y
	case *Value:
		y, ok := b.o.(*Value)
		return ok && x == y
	case *Closure:
		y, ok := b.o.(*Closure)
		return ok && x == y
	case *Map:
		y, ok := b.o.(*Map)
		return ok && x == y
	}
	return false
}

// mergeVal merges guarded values; all guards are disjoint and their disjunction is the context.
func (vm *VM) mergeVal(gs []*Term, vs []Value, loose bool) (Value, bool) {
	same := true
	for _, v := range vs[1:] {
		if !sameVal(vs[0], v) {
			same = false
			break
		}
	}
	if same {
		return vs[0], true
	}
	// sort must come from a symbolic operand, or the values must be booleans / plain ints
	var s Sort = 255
	for _, v := range vs {
		if t, ok := v.o.(*Term); ok {
			if s != 255 && s != t.sort {
				return Value{}, false
			}
			s = t.sort
		} else if v.o != nil {
			return Value{}, false
		}
	}
	if s == 255 || s == SReal {
		return Value{}, false
	}
	tm := func(v Value) *Term {
		if t, ok := v.o.(*Term); ok {
			return t
		}
		return vm.tb.Const(s, v.n)
	}
	r := tm(vs[len(vs)-1])
	for i := len(vs) - 2; i >= 0; i-- {
		r = vm.tb.Ite(gs[i], tm(vs[i]), r)
	}
	return Value{o: r}, true
}

func (vm *VM) mergeTyped(gs []*Term, vs []Value, ty *Type, loose bool) (Value, bool) {
	if v, ok := vm.mergeVal(gs, vs, loose); ok {
		if t, is := v.o.(*Term); is && t.op == TConst && ty != nil && t.sort != SReal {
			return vm.val(t, ty), true
		}
		return v, true
	}
	if ty == nil {
		return Value{}, false
	}
	s := ty.ssort()
	if s == 255 {
		return Value{}, false
	}
	if s != SBool && !loose {
		return Value{}, false
	}
	for _, v := range vs {
		if _, is := v.o.(*Term); v.o != nil && !is {
			return Value{}, false
		}
	}
	r := vm.term(vs[len(vs)-1], ty)
	for i := len(vs) - 2; i >= 0; i-- {
		r = vm.tb.Ite(gs[i], vm.term(vs[i], ty), r)
	}
	return vm.val(r, ty), true
}

// mergeMoves performs the phi moves of several guarded edges into the same block.
func (vm *VM) mergeMoves(fr *Frame, es []inEdge, loose bool) bool {
	if len(es) == 1 {
		vm.doMoves(fr, es[0].e.moves)
		return true
	}
	n := len(es[0].e.moves)
	if n == 0 {
		return true
	}
	out := make([]Value, n)
	gs := make([]*Term, len(es))
	for i := range es {
		gs[i] = es[i].g
	}
	for k := 0; k < n; k++ {
		vs := make([]Value, len(es))
		for i := range es {
			vs[i] = vm.get(fr, es[i].e.moves[k].src)
		}
		v, ok := vm.mergeTyped(gs, vs, fr.fn.regType(es[0].e.moves[k].dst), loose)
		if !ok {
			return false
		}
		out[k] = v
	}
	for k := 0; k < n; k++ {
		fr.regs[es[0].e.moves[k].dst] = out[k]
	}
	return true
}

func (vm *VM) tryRegion1(fr *Frame, cond *Term, x *ifInfo, r *region) bool {
	var ins map[int32][]inEdge
	ok := vm.specDo(func() bool {
		var ok bool
		ins, ok = vm.evalRegion(fr, cond, x, r, false)
		return ok
	})
	if !ok || len(ins) == 0 || len(ins) > 2 {
		return false
	}
	var keys []int32
	for k := range ins {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	// check mergeability of both exits before deciding
	type prep struct {
		g    *Term
		vals []Value
		dsts []int32
		ret  Value
	}
	ps := make([]prep, len(keys))
	for i, k := range keys {
		es := ins[k]
		g := es[0].g
		for _, e := range es[1:] {
			g = vm.tb.Or(g, e.g)
		}
		ps[i].g = g
		gs := make([]*Term, len(es))
		for j := range es {
			gs[j] = es[j].g
		}
		if k == -1 {
			nr := len(es[0].retV)
			rv := make([]Value, nr)
			for j := 0; j < nr; j++ {
				vs := make([]Value, len(es))
				for m := range es {
					vs[m] = vm.get(fr, es[m].retV[j])
				}
				v, ok := vm.mergeTyped(gs, vs, resTypeAt(fr.fn, j), false)
				if !ok {
					return false
				}
				rv[j] = copyVal(v)
			}
			switch nr {
			case 0:
			case 1:
				ps[i].ret = rv[0]
			default:
				ps[i].ret = Value{o: &Agg{rv}}
			}
			continue
		}
		for j, m := range es[0].e.moves {
			vs := make([]Value, len(es))
			for q := range es {
				vs[q] = vm.get(fr, es[q].e.moves[j].src)
			}
			v, ok := vm.mergeTyped(gs, vs, fr.fn.regType(m.dst), false)
			if !ok {
				return false
			}
			ps[i].vals = append(ps[i].vals, v)
			ps[i].dsts = append(ps[i].dsts, m.dst)
		}
	}
	pick := 0
	if len(keys) == 2 {
		if !vm.branch(ps[0].g) {
			pick = 1
		}
	}
	if keys[pick] == -1 {
		vm.doReturn(fr, ps[pick].ret)
		return true
	}
	for i, d := range ps[pick].dsts {
		fr.regs[d] = ps[pick].vals[i]
	}
	fr.pc = fr.fn.blkPC[keys[pick]]
	return true
}

func resTypeAt(fn *Fn, i int) *Type {
	if fn.resT == nil {
		return nil
	}
	if fn.resT.kind == KTuple && fn.sig.Results().Len() > 1 {
		return fn.resT.flds[i]
	}
	return fn.resT
}

func (fn *Fn) regType(r int32) *Type {
	if r >= 0 && int(r) < len(fn.regT) {
		return fn.regT[r]
	}
	return nil
}

// evalPure evaluates a call without side effects and without forking, or aborts the speculation.
func (vm *VM) evalPure(fn *Fn, args []Value, depth int) Value {
	if fn.intr != nil {
		if !fn.intrPure {
			panic(specAbort{})
		}
		return fn.intr(vm, &callInfo{fn: fn, resT: fn.resT}, args)
	}
	if depth > 6 {
		panic(specAbort{})
	}
	fn.ensure()
	if fn.code == nil || fn.excl {
		panic(specAbort{})
	}
	fr := &Frame{fn: fn, regs: make([]Value, fn.nregs)}
	copy(fr.regs, args)
	for steps := 0; steps < 400; steps++ {
		in := &fn.code[fr.pc]
		if fn.hit != nil {
			fn.hit[fr.pc] = true
		}
		switch in.op {
		case OJump:
			e := in.aux.(*edge)
			vm.doMoves(fr, e.moves)
			fr.pc = e.pc
		case OIf:
			x := in.aux.(*ifInfo)
			c := vm.get(fr, in.a)
			b := c.n != 0
			if t, ok := c.o.(*Term); ok {
				s := vm.status(t)
				if s < 0 {
					moved := false
					for _, r := range x.regs {
						ins, ok := vm.evalRegion(fr, t, x, r, true)
						if !ok || len(ins) != 1 {
							continue
						}
						for k, es := range ins {
							if k == -1 {
								nr := len(es[0].retV)
								rv := make([]Value, nr)
								gs := make([]*Term, len(es))
								for j := range es {
									gs[j] = es[j].g
								}
								for j := 0; j < nr; j++ {
									vs := make([]Value, len(es))
									for m := range es {
										vs[m] = vm.get(fr, es[m].retV[j])
									}
									v, ok := vm.mergeTyped(gs, vs, resTypeAt(fn, j), true)
									if !ok {
										panic(specAbort{})
									}
									rv[j] = v
								}
								if nr == 1 {
									return rv[0]
								}
								return Value{o: &Agg{rv}}
							}
							if !vm.mergeMoves(fr, es, true) {
								panic(specAbort{})
							}
							fr.pc = fn.blkPC[k]
							moved = true
						}
						break
					}
					if !moved {
						panic(specAbort{})
					}
					continue
				}
				b = s == 1
			}
			e := &x.f
			if b {
				e = &x.t
			}
			vm.doMoves(fr, e.moves)
			fr.pc = e.pc
		case OReturn:
			rs := in.aux.([]int32)
			if len(rs) == 0 {
				return Value{}
			}
			if len(rs) == 1 {
				return copyVal(vm.get(fr, rs[0]))
			}
			e := make([]Value, len(rs))
			for i, r := range rs {
				e[i] = copyVal(vm.get(fr, r))
			}
			return Value{o: &Agg{e}}
		case OCall:
			ci := in.aux.(*callInfo)
			args := make([]Value, len(ci.args))
			for i, a := range ci.args {
				args[i] = vm.get(fr, a)
			}
			if ci.mode == 3 {
				if !in.pure {
					panic(specAbort{})
				}
				fr.regs[in.dst] = vm.builtinCall(ci, args)
			} else if ci.mode == 0 {
				fr.regs[in.dst] = vm.evalPure(ci.fn, args, depth+1)
			} else {
				panic(specAbort{})
			}
			fr.pc++
		default:
			if !in.pure {
				panic(specAbort{})
			}
			fr.regs[in.dst] = vm.exec1(fr, in)
			fr.pc++
		}
	}
	panic(specAbort{})
}

var _ = token.ADD
