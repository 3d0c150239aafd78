package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

const symPath = "verif/sym"

var intrinsics = map[string]intrinsic{}
var pureIntrinsics = map[string]bool{}

func reg(name string, f intrinsic) { intrinsics[name] = f }
func regPure(name string, f intrinsic) {
	intrinsics[name] = f
	pureIntrinsics[name] = true
}

func (vm *VM) constStr(v Value, what string) string {
	s, ok := strOf(v)
	if !ok {
		vm.unsup("symbolic string for %s", what)
	}
	return s
}

// newSym declares (or re-uses) the symbolic variable name#k on this path.
func (vm *VM) newSym(name, kind string, s Sort) *Term {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	vm.enterRoot()
	full := name
	for n := 2; ; n++ {
		dup := false
		for i := range vm.symVars {
			if vm.symVars[i].name == full {
				dup = true
				break
			}
		}
		if !dup {
			break
		}
		full = fmt.Sprintf("%s#%d", name, n)
	}
	t := vm.tb.Var(s, full)
	vm.symVars = append(vm.symVars, symVar{full, kind, t, s, false})
	return t
}

func nop(vm *VM, ci *callInfo, a []Value) Value { return Value{} }

func init() {
	sp := symPath + "."
	reg(sp+"Byte", func(vm *VM, ci *callInfo, a []Value) Value {
		return Value{o: vm.newSym(vm.constStr(a[0], "name"), "byte", 8)}
	})
	reg(sp+"Int", func(vm *VM, ci *callInfo, a []Value) Value {
		return Value{o: vm.newSym(vm.constStr(a[0], "name"), "int", 64)}
	})
	reg(sp+"Bool", func(vm *VM, ci *callInfo, a []Value) Value {
		t := vm.newSym(vm.constStr(a[0], "name"), "byte", 8)
		vm.assert(vm.tb.Cmp(TUle, t, vm.tb.Const(8, 1)))
		return Value{o: vm.tb.Eq(t, vm.tb.Const(8, 1))}
	})
	reg(sp+"Float64", func(vm *VM, ci *callInfo, a []Value) Value {
		t := vm.newSym(vm.constStr(a[0], "name"), "float", 64)
		return Value{o: vm.tb.F1(TFBits, t, 0)}
	})
	reg(sp+"Bytes", func(vm *VM, ci *callInfo, a []Value) Value {
		name := vm.constStr(a[0], "name")
		n := vm.concInt(a[1])
		b := make([]Value, n)
		for i := range b {
			b[i] = Value{o: vm.newSym(fmt.Sprintf("%s[%d]", name, i), "byte", 8)}
		}
		return Value{o: &Sl{b}}
	})
	reg(sp+"Choice", func(vm *VM, ci *callInfo, a []Value) Value {
		n := vm.concInt(a[1])
		name := vm.constStr(a[0], "name")
		vm.enterRoot()
		if n == 1 {
			return Value{}
		}
		t := vm.symOnce(name)
		vm.assertOnce(vm.tb.Cmp(TUlt, t, vm.tb.Const(8, uint64(n))))
		v := vm.concretize(t)
		vm.symClose()
		return mkInt(int(v))
	})
	reg(sp+"Assume", func(vm *VM, ci *callInfo, a []Value) Value {
		vm.enterRoot()
		if t, ok := a[0].o.(*Term); ok {
			if vm.status(t) != 1 {
				vm.assumeTerm(t)
			}
			return Value{}
		}
		if a[0].n == 0 {
			panic(pathEnd{"assume"})
		}
		return Value{}
	})
	reg(sp+"Assert", func(vm *VM, ci *callInfo, a []Value) Value {
		vm.doAssert(a[0], a[1])
		return Value{}
	})
	reg(sp+"Reach", func(vm *VM, ci *callInfo, a []Value) Value {
		l := vm.constStr(a[0], "label")
		vm.rep.reach[l]++
		return Value{}
	})
	reg(sp+"Unsupported", func(vm *VM, ci *callInfo, a []Value) Value {
		vm.unsup("%s", vm.constStr(a[0], "what"))
		return Value{}
	})
	reg(sp+"Skip", func(vm *VM, ci *callInfo, a []Value) Value { panic(pathEnd{"skip"}) })
	reg(sp+"Observe", func(vm *VM, ci *callInfo, a []Value) Value {
		vm.obs = append(vm.obs, obsEnt{vm.constStr(a[0], "label"), a[1]})
		return Value{}
	})
	reg(sp+"Bound", func(vm *VM, ci *callInfo, a []Value) Value {
		vm.rep.bounds[vm.constStr(a[0], "label")] = int64(vm.concInt(a[1]))
		return a[1]
	})
	reg(sp+"Tier", func(vm *VM, ci *callInfo, a []Value) Value { return mkInt(optTier) })
	reg(sp+"Symbolic", func(vm *VM, ci *callInfo, a []Value) Value { return mkBool(true) })
	reg(sp+"StepLimit", func(vm *VM, ci *callInfo, a []Value) Value {
		vm.stepLim = vm.steps + int64(vm.concInt(a[0]))
		return Value{}
	})
	reg(sp+"Concrete", func(vm *VM, ci *callInfo, a []Value) Value { return mkInt(vm.concInt(a[0])) })
	reg(sp+"Register", nop)
	regPure(sp+"Known", func(vm *VM, ci *callInfo, a []Value) Value { return mkBool(!isSym(a[0])) })
	reg(sp+"Same", func(vm *VM, ci *callInfo, a []Value) Value { // same float bits / structural identity, no FP semantics
		return vm.val(vm.same(a[0], a[1]), tBool)
	})
	reg(sp+"Ite", func(vm *VM, ci *callInfo, a []Value) Value {
		c, ok := a[0].o.(*Term)
		if !ok {
			if a[0].n != 0 {
				return a[1]
			}
			return a[2]
		}
		return vm.val(vm.tb.Ite(c, vm.term(a[1], tInt), vm.term(a[2], tInt)), tInt)
	})
	reg(sp+"And", func(vm *VM, ci *callInfo, a []Value) Value {
		return vm.val(vm.tb.And(vm.term(a[0], tBool), vm.term(a[1], tBool)), tBool)
	})
	reg(sp+"Or", func(vm *VM, ci *callInfo, a []Value) Value {
		return vm.val(vm.tb.Or(vm.term(a[0], tBool), vm.term(a[1], tBool)), tBool)
	})
	reg(sp+"Trace", func(vm *VM, ci *callInfo, a []Value) Value {
		if vm.trace {
			fmt.Println("TRACE", vm.show(a[0], 6))
		}
		return Value{}
	})
	// formatting helpers used by the fmt stubs
	reg(sp+"FmtInt", func(vm *VM, ci *callInfo, a []Value) Value {
		if t, ok := a[0].o.(*Term); ok {
			t = vm.simp(t)
			if t.op != TConst {
				return vm.opaqueStr("int", t)
			}
			return mkStr(strconv.FormatInt(int64(t.k), 10))
		}
		return mkStr(strconv.FormatInt(int64(a[0].n), 10))
	})
	reg(sp+"FmtAny", func(vm *VM, ci *callInfo, a []Value) Value {
		verb := vm.constStr(a[0], "verb")
		return vm.fmtAny(verb, a[1])
	})
	reg(sp+"TypeName", func(vm *VM, ci *callInfo, a []Value) Value {
		if i, ok := a[0].o.(*Iface); ok {
			return mkStr(i.t.String())
		}
		return mkStr("<nil>")
	})

	// ---- sync, atomic ----
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"runtime.KeepAlive", "runtime.SetFinalizer", "(*strings.Builder).copyCheck", "internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "(*sync.Pool).Put",
		"internal/godebug.setUpdate", "(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Value", "runtime.GC"} {
		reg(n, nop)
	}
	reg("(*sync.Pool).Get", func(vm *VM, ci *callInfo, a []Value) Value {
		e := vm.deref(a[0]).o.(*Agg).e
		f := e[len(e)-1]
		if f.o == nil {
			return Value{}
		}
		return vm.callLater(f, nil, nil)
	})
	reg("(*sync.Mutex).TryLock", func(vm *VM, ci *callInfo, a []Value) Value { return mkBool(true) })
	reg("(*sync.Once).Do", func(vm *VM, ci *callInfo, a []Value) Value {
		p := vm.deref(a[0])
		f := &p.o.(*Agg).e[len(p.o.(*Agg).e)-1]
		m := f
		for {
			ag, ok := m.o.(*Agg)
			if !ok {
				break
			}
			m = &ag.e[len(ag.e)-1]
		}
		if m.n != 0 {
			return Value{}
		}
		vm.set(m, Value{n: 1})
		return vm.callLater(a[1], nil, func(vm *VM, v Value) Value { return Value{} })
	})
	atom := func(n string, f intrinsic) { reg("sync/atomic."+n, f); reg("internal/runtime/atomic."+n, f) }
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		atom("Load"+ty, func(vm *VM, ci *callInfo, a []Value) Value { return *vm.deref(a[0]) })
		atom("Store"+ty, func(vm *VM, ci *callInfo, a []Value) Value { vm.set(vm.deref(a[0]), a[1]); return Value{} })
		atom("Add"+ty, func(vm *VM, ci *callInfo, a []Value) Value {
			p := vm.deref(a[0])
			r := vm.intOp(tokADD, p.n, a[1].n, ci.resTOr(tInt), tInt)
			vm.set(p, r)
			return r
		})
		atom("Swap"+ty, func(vm *VM, ci *callInfo, a []Value) Value {
			p := vm.deref(a[0])
			o := *p
			vm.set(p, a[1])
			return o
		})
		atom("CompareAndSwap"+ty, func(vm *VM, ci *callInfo, a []Value) Value {
			p := vm.deref(a[0])
			if sameVal(*p, a[1]) {
				vm.set(p, a[2])
				return mkBool(true)
			}
			return mkBool(false)
		})
	}
	last := func(vm *VM, v Value) *Value {
		p := vm.deref(v)
		e := p.o.(*Agg).e
		return &e[len(e)-1]
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer[T]", "Bool", "Pointer"} {
		m := "(*sync/atomic." + ty + ")."
		reg(m+"Load", func(vm *VM, ci *callInfo, a []Value) Value { return *last(vm, a[0]) })
		reg(m+"Store", func(vm *VM, ci *callInfo, a []Value) Value { vm.set(last(vm, a[0]), a[1]); return Value{} })
		reg(m+"Add", func(vm *VM, ci *callInfo, a []Value) Value {
			p := last(vm, a[0])
			r := Value{n: p.n + a[1].n}
			vm.set(p, r)
			return r
		})
		reg(m+"Swap", func(vm *VM, ci *callInfo, a []Value) Value {
			p := last(vm, a[0])
			o := *p
			vm.set(p, a[1])
			return o
		})
		reg(m+"CompareAndSwap", func(vm *VM, ci *callInfo, a []Value) Value {
			p := last(vm, a[0])
			if sameVal(*p, a[1]) {
				vm.set(p, a[2])
				return mkBool(true)
			}
			return mkBool(false)
		})
	}

	// ---- strings.Builder / unsafe ----
	reg("(*strings.Builder).String", func(vm *VM, ci *callInfo, a []Value) Value {
		p := vm.deref(a[0])
		e := p.o.(*Agg).e
		return mkSymStr(vm.elems(e[len(e)-1]))
	})
	reg("strings.Clone", func(vm *VM, ci *callInfo, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(vm *VM, ci *callInfo, a []Value) Value { return a[0] })
	reg("internal/bytealg.MakeNoZero", func(vm *VM, ci *callInfo, a []Value) Value {
		n := vm.concInt(a[0])
		return Value{o: &Sl{make([]Value, n)}}
	})

	// ---- runtime bits ----
	reg("runtime.Caller", func(vm *VM, ci *callInfo, a []Value) Value {
		return Value{o: &Agg{[]Value{{}, mkStr("file.go"), mkInt(1), mkBool(true)}}}
	})
	reg("os.Exit", func(vm *VM, ci *callInfo, a []Value) Value { panic(pathEnd{"exit"}) })

	// ---- math ----
	mathf := func(n string, f func(float64) float64) {
		reg("math."+n, func(vm *VM, ci *callInfo, a []Value) Value {
			if t, ok := a[0].o.(*Term); ok {
				return Value{o: vm.tb.UF(SF64, "math."+n, t)}
			}
			return Value{n: math.Float64bits(f(math.Float64frombits(a[0].n)))}
		})
	}
	for n, f := range map[string]func(float64) float64{"Acos": math.Acos, "Acosh": math.Acosh, "Asin": math.Asin, "Asinh": math.Asinh, "Atan": math.Atan, "Atanh": math.Atanh,
		"Cbrt": math.Cbrt, "Cos": math.Cos, "Cosh": math.Cosh, "Erf": math.Erf, "Erfc": math.Erfc, "Exp": math.Exp, "Exp2": math.Exp2,
		"Expm1": math.Expm1, "Gamma": math.Gamma, "J0": math.J0, "J1": math.J1, "Log": math.Log, "Log10": math.Log10, "Log1p": math.Log1p,
		"Log2": math.Log2, "Logb": math.Logb, "Sin": math.Sin, "Sinh": math.Sinh, "Tan": math.Tan, "Tanh": math.Tanh, "Y0": math.Y0, "Y1": math.Y1} {
		mathf(n, f)
	}
	fp1 := func(n string, f func(float64) float64, op TOp, k uint64) {
		reg("math."+n, func(vm *VM, ci *callInfo, a []Value) Value {
			if t, ok := a[0].o.(*Term); ok {
				return Value{o: vm.tb.F1(op, t, k)}
			}
			return Value{n: math.Float64bits(f(math.Float64frombits(a[0].n)))}
		})
	}
	fp1("Sqrt", math.Sqrt, TFSqrt, 0)
	fp1("Abs", math.Abs, TFAbs, 0)
	fp1("Floor", math.Floor, TFRint, 3)
	fp1("Ceil", math.Ceil, TFRint, 2)
	fp1("Trunc", math.Trunc, TFRint, 1)
	for n, f := range map[string]func(x, y float64) float64{"Atan2": math.Atan2, "Copysign": math.Copysign, "Dim": math.Dim, "Hypot": math.Hypot, "Mod": math.Mod,
		"Nextafter": math.Nextafter, "Pow": math.Pow, "Remainder": math.Remainder, "Max": math.Max, "Min": math.Min} {
		n, f := n, f
		reg("math."+n, func(vm *VM, ci *callInfo, a []Value) Value {
			if isSym(a[0]) || isSym(a[1]) {
				return Value{o: vm.tb.UF(SF64, "math."+n, vm.term(a[0], tFloat64), vm.term(a[1], tFloat64))}
			}
			return Value{n: math.Float64bits(f(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))}
		})
	}
	for n, f := range map[string]func(n int, x float64) float64{"Jn": math.Jn, "Yn": math.Yn} {
		n, f := n, f
		reg("math."+n, func(vm *VM, ci *callInfo, a []Value) Value {
			if isSym(a[0]) || isSym(a[1]) {
				return Value{o: vm.tb.UF(SF64, "math."+n, vm.term(a[0], tInt), vm.term(a[1], tFloat64))}
			}
			return Value{n: math.Float64bits(f(int(a[0].n), math.Float64frombits(a[1].n)))}
		})
	}
	reg("math.Ldexp", func(vm *VM, ci *callInfo, a []Value) Value {
		if isSym(a[0]) || isSym(a[1]) {
			return Value{o: vm.tb.UF(SF64, "math.Ldexp", vm.term(a[0], tFloat64), vm.term(a[1], tInt))}
		}
		return Value{n: math.Float64bits(math.Ldexp(math.Float64frombits(a[0].n), int(a[1].n)))}
	})
	reg("math.Pow10", func(vm *VM, ci *callInfo, a []Value) Value {
		if isSym(a[0]) {
			return Value{o: vm.tb.UF(SF64, "math.Pow10", vm.term(a[0], tInt))}
		}
		return Value{n: math.Float64bits(math.Pow10(int(a[0].n)))}
	})
	regPure("math.Float64bits", func(vm *VM, ci *callInfo, a []Value) Value {
		if t, ok := a[0].o.(*Term); ok {
			if t.op == TFBits {
				return Value{o: t.a}
			}
			vm.unsup("Float64bits of a symbolic float")
		}
		return a[0]
	})
	regPure("math.Float64frombits", func(vm *VM, ci *callInfo, a []Value) Value {
		if t, ok := a[0].o.(*Term); ok {
			return Value{o: vm.tb.F1(TFBits, t, 0)}
		}
		return a[0]
	})
	regPure("math.IsNaN", func(vm *VM, ci *callInfo, a []Value) Value {
		if t, ok := a[0].o.(*Term); ok {
			return vm.val(vm.tb.F1(TFIsNaN, t, 0), tBool)
		}
		return mkBool(math.IsNaN(math.Float64frombits(a[0].n)))
	})
	regPure("math.Float32bits", func(vm *VM, ci *callInfo, a []Value) Value {
		return Value{n: uint64(math.Float32bits(float32(math.Float64frombits(a[0].n))))}
	})
	regPure("math.Float32frombits", func(vm *VM, ci *callInfo, a []Value) Value {
		return Value{n: math.Float64bits(float64(math.Float32frombits(uint32(a[0].n))))}
	})

	// ---- unicode predicates: exact range tables as terms ----
	for _, n := range []string{"IsLetter", "IsDigit", "IsUpper", "IsLower", "IsSpace", "IsPrint", "IsControl", "IsNumber", "IsPunct", "IsSymbol", "IsGraphic"} {
		n := n
		regPure("unicode."+n, func(vm *VM, ci *callInfo, a []Value) Value { return vm.uniPred(n, a[0]) })
	}
	reg("strconv.IsPrint", func(vm *VM, ci *callInfo, a []Value) Value { return vm.uniPred("strconv.IsPrint", a[0]) })
	regCmplx()
	regReflect()
	regBig()
	regStrconv()
}

func (ci *callInfo) resTOr(t *Type) *Type {
	if ci != nil && ci.resT != nil {
		return ci.resT
	}
	return t
}

// symOnce/symClose support an intrinsic that forks after creating its variable: a re-execution after
// backtracking finds the variable still open and uses it again.
func (vm *VM) symOnce(name string) *Term {
	if n := len(vm.symVars); n > 0 && vm.symVars[n-1].open {
		return vm.symVars[n-1].t
	}
	t := vm.newSym(name, "byte", 8)
	vm.symVars[len(vm.symVars)-1].open = true
	return t
}

func (vm *VM) symClose() {
	i := len(vm.symVars) - 1
	vm.symVars[i].open = false
	vm.undo(func() { vm.symVars[i].open = true })
}

func (vm *VM) assertOnce(t *Term) {
	if vm.status(t) != 1 {
		vm.assert(t)
	}
}

func (vm *VM) assumeTerm(t *Term) {
	s := vm.status(t)
	if s == 0 {
		panic(pathEnd{"assume"})
	}
	if s < 0 && vm.ppos >= len(vm.prefix) && !vm.exactUnary(t) && !(t.op == TAnd) {
		ok := false
		if vm.modelOK {
			if v, k := vm.evalModel(t, true); k && v == 1 {
				ok = true
			}
		}
		if !ok {
			r, m := vm.query(t)
			if r == SatNo {
				panic(pathEnd{"assume"})
			}
			if r == SatYes {
				vm.model, vm.modelOK = m, true
			} else {
				vm.modelOK = false
			}
		}
		vm.assert(t)
		return
	}
	if t.op == TAnd && !t.unary() {
		vm.assumeTerm(t.a)
		vm.assumeTerm(t.b)
		vm.setKnown(t, true)
		return
	}
	vm.assert(t)
}

func (vm *VM) same(a, b Value) *Term {
	x, ok1 := a.o.(*Iface)
	y, ok2 := b.o.(*Iface)
	if ok1 && ok2 {
		if x.t != y.t {
			return vm.tb.False
		}
		if x.t.kind == KFloat64 {
			return vm.sameF(x.v, y.v)
		}
		if x.t.kind == KComplex {
			p, q := x.v.o.(*Agg).e, y.v.o.(*Agg).e
			return vm.tb.And(vm.sameF(p[0], q[0]), vm.sameF(p[1], q[1]))
		}
		return vm.eq(x.v, y.v, x.t, y.t)
	}
	return vm.tb.Bool(ok1 == ok2)
}

func (vm *VM) sameF(a, b Value) *Term {
	p, q := vm.term(a, tFloat64), vm.term(b, tFloat64)
	if p == q {
		return vm.tb.True
	}
	if vm.congruent(p, q, 0) {
		return vm.tb.True
	}
	return vm.tb.Or(vm.tb.F2(TFEq, p, q), vm.tb.And(vm.tb.F1(TFIsNaN, p, 0), vm.tb.F1(TFIsNaN, q, 0)))
}

// congruent reports that two float terms are the same operations over integers the solver proves equal on this path.
func (vm *VM) congruent(p, q *Term, d int) bool {
	if p == q {
		return true
	}
	if d > 8 || p.op != q.op || p.sort != q.sort || p.k != q.k || p.op == TConst || p.op == TVar || p.op == TUF {
		return false
	}
	if p.sort != SF64 {
		s, _ := vm.query(vm.tb.Not(vm.tb.Eq(p, q)))
		return s == SatNo
	}
	for i, x := range [3]*Term{p.a, p.b, p.c} {
		y := [3]*Term{q.a, q.b, q.c}[i]
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			continue
		}
		if x.sort != SF64 && y.sort == x.sort && x != y {
			if s, _ := vm.query(vm.tb.Not(vm.tb.Eq(x, y))); s != SatNo {
				return false
			}
		} else if !vm.congruent(x, y, d+1) {
			return false
		}
	}
	return true
}

// opaqueStr is an uninterpreted rendering of a symbolic value (only ever used inside messages).
func (vm *VM) opaqueStr(kind string, t *Term) Value {
	b := make([]Value, 6)
	for i := range b {
		b[i] = Value{o: vm.tb.UF(8, fmt.Sprintf("fmt.%s.%d", kind, i), t)}
	}
	return Value{o: &SymStr{b}}
}

func (vm *VM) fmtAny(verb string, v Value) Value {
	i, ok := v.o.(*Iface)
	if !ok {
		if verb == "T" || verb == "v" {
			return mkStr("<nil>")
		}
		return mkStr("%!" + verb + "(<nil>)")
	}
	if s, ok := vm.native(i.t, i.v, 0); ok {
		return mkStr(fmt.Sprintf("%"+verb, s))
	}
	var ts []*Term
	vm.collectTerms(i.v, &ts, 0)
	var t *Term
	if len(ts) > 0 {
		t = vm.tb.UF(64, "pack", ts...)
	} else {
		t = vm.tb.Const(64, 0)
	}
	return vm.opaqueStr("any."+verb+"."+i.t.String(), t)
}

func (vm *VM) collectTerms(v Value, out *[]*Term, d int) {
	if d > 4 {
		return
	}
	switch x := v.o.(type) {
	case *Term:
		*out = append(*out, x)
	case *SymStr:
		for _, b := range x.b {
			vm.collectTerms(b, out, d+1)
		}
	case *Agg:
		for _, b := range x.e {
			vm.collectTerms(b, out, d+1)
		}
	case *Sl:
		for _, b := range x.s {
			vm.collectTerms(b, out, d+1)
		}
	case *Iface:
		vm.collectTerms(x.v, out, d+1)
	}
}

// native converts a concrete engine value into a real Go value for formatting.
func (vm *VM) native(t *Type, v Value, d int) (any, bool) {
	if d > 6 {
		return nil, false
	}
	switch t.kind {
	case KBool:
		return v.n != 0, v.o == nil
	case KInt:
		if v.o != nil {
			tt := v.o.(*Term)
			tt = vm.simp(tt)
			if tt.op != TConst {
				return nil, false
			}
			v = vm.val(tt, t)
		}
		switch {
		case t.sgn && t.w == 32:
			return int32(v.n), true
		case t.sgn:
			return int(v.n), true
		case t.w == 8:
			return uint8(v.n), true
		default:
			return uint(v.n), true
		}
	case KFloat64:
		return math.Float64frombits(v.n), v.o == nil
	case KString:
		s, ok := strOf(v)
		return s, ok
	case KComplex:
		e := v.o.(*Agg).e
		return complex(math.Float64frombits(e[0].n), math.Float64frombits(e[1].n)), e[0].o == nil && e[1].o == nil
	case KSlice:
		els := vm.elems(v)
		if t.elem.kind == KInt && t.elem.w == 8 {
			b := make([]byte, len(els))
			for i, e := range els {
				if e.o != nil {
					return nil, false
				}
				b[i] = byte(e.n)
			}
			return b, true
		}
		out := make([]any, len(els))
		for i, e := range els {
			x, ok := vm.native(t.elem, e, d+1)
			if !ok {
				return nil, false
			}
			out[i] = x
		}
		return out, true
	case KMap:
		m, _ := v.o.(*Map)
		out := map[any]any{}
		if m != nil {
			for _, e := range m.ents {
				if e.dead {
					continue
				}
				k, ok := vm.native(t.key, e.k, d+1)
				x, ok2 := vm.native(t.elem, e.v, d+1)
				if !ok || !ok2 {
					return nil, false
				}
				out[k] = x
			}
		}
		return out, true
	case KIface:
		i, ok := v.o.(*Iface)
		if !ok {
			return nil, true
		}
		return vm.native(i.t, i.v, d+1)
	case KPtr:
		if v.o == nil {
			return nil, true
		}
		return nil, false
	}
	return nil, false
}

// ---------- unicode ----------

type urange struct{ lo, hi uint32 }

var uniCache = map[string][]urange{}

func uniRanges(name string, f func(rune) bool) []urange {
	var out []urange
	in := false
	var lo uint32
	for r := uint32(0); r <= 0x110000; r++ {
		b := r <= 0x10FFFF && f(rune(r))
		if b && !in {
			lo, in = r, true
		} else if !b && in {
			out = append(out, urange{lo, r - 1})
			in = false
		}
	}
	return out
}

func (vm *VM) uniPred(name string, v Value) Value {
	f := uniFuncs[name]
	t, ok := v.o.(*Term)
	if !ok {
		return mkBool(f(rune(int32(v.n))))
	}
	t = vm.simp(t)
	if t.op == TConst {
		return mkBool(f(rune(int32(t.k))))
	}
	uniMu.Lock()
	rs, ok := uniCache[name]
	if !ok {
		rs = uniRanges(name, f)
		uniCache[name] = rs
	}
	uniMu.Unlock()
	// restrict to what is reachable given width
	maxv := uint64(0x10FFFF)
	if t.op == TZext {
		maxv = mask(t.a.sort)
	}
	// bound by known facts (cheap): two-byte UTF-8 and so on are bounded by structure
	if m, ok := vm.upper(t); ok && m < maxv {
		maxv = m
	}
	// balanced tree: ranges are sorted
	var build func(rs []urange) *Term
	tb := vm.tb
	build = func(rs []urange) *Term {
		if len(rs) == 0 {
			return tb.False
		}
		if len(rs) == 1 {
			return tb.And(tb.Cmp(TUle, tb.Const(32, uint64(rs[0].lo)), t), tb.Cmp(TUle, t, tb.Const(32, uint64(rs[0].hi))))
		}
		m := len(rs) / 2
		return tb.Ite(tb.Cmp(TUlt, t, tb.Const(32, uint64(rs[m].lo))), build(rs[:m]), build(rs[m:]))
	}
	n := sort.Search(len(rs), func(i int) bool { return uint64(rs[i].lo) > maxv })
	return vm.val(build(rs[:n]), tBool)
}

// upper gives a structural upper bound of an unsigned term.
func (vm *VM) upper(t *Term) (uint64, bool) {
	switch t.op {
	case TConst:
		return t.k, true
	case TZext:
		m, ok := vm.upper(t.a)
		if !ok {
			return mask(t.a.sort), true
		}
		return m, true
	case TVar:
		if t.sort == 8 {
			if d, ok := vm.dom[t]; ok {
				for i := 255; i >= 0; i-- {
					if d[i>>6]&(1<<(i&63)) != 0 {
						return uint64(i), true
					}
				}
			}
			return 255, true
		}
	case TBAnd:
		m, ok := vm.upper(t.b)
		if !ok {
			m, ok = vm.upper(t.a)
			return m, ok
		}
		if k, ok2 := vm.upper(t.a); ok2 && k < m {
			m = k
		}
		return m, true
	case TBOr, TAdd:
		a, ok1 := vm.upper(t.a)
		b, ok2 := vm.upper(t.b)
		if ok1 && ok2 && a < 1<<30 && b < 1<<30 {
			return a + b, true
		}
	case TShl:
		a, ok := vm.upper(t.a)
		if ok && isC(t.b) && t.b.k < 24 && a < 1<<20 {
			return a << t.b.k, true
		}
	}
	return 0, false
}

// ---------- complex math ----------

func regCmplx() {
	for n, f := range cmplxFuncs {
		n, f := n, f
		reg("math/cmplx."+n, func(vm *VM, ci *callInfo, a []Value) Value {
			e := a[0].o.(*Agg).e
			if isSym(e[0]) || isSym(e[1]) {
				x, y := vm.term(e[0], tFloat64), vm.term(e[1], tFloat64)
				return Value{o: &Agg{[]Value{{o: vm.tb.UF(SF64, "cmplx."+n+".re", x, y)}, {o: vm.tb.UF(SF64, "cmplx."+n+".im", x, y)}}}}
			}
			r := f(complex(math.Float64frombits(e[0].n), math.Float64frombits(e[1].n)))
			return Value{o: &Agg{[]Value{{n: math.Float64bits(real(r))}, {n: math.Float64bits(imag(r))}}}}
		})
	}
	for n, f := range cmplxRFuncs {
		n, f := n, f
		reg("math/cmplx."+n, func(vm *VM, ci *callInfo, a []Value) Value {
			e := a[0].o.(*Agg).e
			if isSym(e[0]) || isSym(e[1]) {
				return Value{o: vm.tb.UF(SF64, "cmplx."+n, vm.term(e[0], tFloat64), vm.term(e[1], tFloat64))}
			}
			return Value{n: math.Float64bits(f(complex(math.Float64frombits(e[0].n), math.Float64frombits(e[1].n))))}
		})
	}
	reg("math/cmplx.Pow", func(vm *VM, ci *callInfo, a []Value) Value {
		e, g := a[0].o.(*Agg).e, a[1].o.(*Agg).e
		if isSym(e[0]) || isSym(e[1]) || isSym(g[0]) || isSym(g[1]) {
			ts := []*Term{vm.term(e[0], tFloat64), vm.term(e[1], tFloat64), vm.term(g[0], tFloat64), vm.term(g[1], tFloat64)}
			return Value{o: &Agg{[]Value{{o: vm.tb.UF(SF64, "cmplx.Pow.re", ts...)}, {o: vm.tb.UF(SF64, "cmplx.Pow.im", ts...)}}}}
		}
		r := cmplxPow(complex(math.Float64frombits(e[0].n), math.Float64frombits(e[1].n)), complex(math.Float64frombits(g[0].n), math.Float64frombits(g[1].n)))
		return Value{o: &Agg{[]Value{{n: math.Float64bits(real(r))}, {n: math.Float64bits(imag(r))}}}}
	})
	reg("math/cmplx.Rect", func(vm *VM, ci *callInfo, a []Value) Value {
		if isSym(a[0]) || isSym(a[1]) {
			ts := []*Term{vm.term(a[0], tFloat64), vm.term(a[1], tFloat64)}
			return Value{o: &Agg{[]Value{{o: vm.tb.UF(SF64, "cmplx.Rect.re", ts...)}, {o: vm.tb.UF(SF64, "cmplx.Rect.im", ts...)}}}}
		}
		r := cmplxRect(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n))
		return Value{o: &Agg{[]Value{{n: math.Float64bits(real(r))}, {n: math.Float64bits(imag(r))}}}}
	})
}

// ---------- strconv.ParseFloat ----------

func regStrconv() {
	reg("strconv.ParseFloat", func(vm *VM, ci *callInfo, a []Value) Value {
		s := a[0]
		str, ok := strOf(s)
		if !ok {
			bs := s.o.(*SymStr).b
			buf := make([]byte, len(bs))
			all := true
			for i, b := range bs {
				t, is := b.o.(*Term)
				if !is {
					buf[i] = byte(b.n)
					continue
				}
				t = vm.simp(t)
				if t.op == TConst {
					buf[i] = byte(t.k)
				} else {
					all = false
				}
			}
			if !all {
				return vm.parseFloatSym(bs)
			}
			str = string(buf)
		}
		f, err := strconv.ParseFloat(str, int(a[1].n))
		ev := Value{}
		if err != nil {
			ev = vm.nativeErr(err.Error())
		}
		return Value{o: &Agg{[]Value{{n: math.Float64bits(f)}, ev}}}
	})
	reg("strconv.FormatFloat", func(vm *VM, ci *callInfo, a []Value) Value {
		if t, ok := a[0].o.(*Term); ok {
			return vm.opaqueStr("float", t)
		}
		return mkStr(strconv.FormatFloat(math.Float64frombits(a[0].n), byte(a[1].n), int(int64(a[2].n)), int(a[3].n)))
	})
}

func (vm *VM) nativeErr(msg string) Value {
	return mkIface(P.nativeErr, Value{o: &Agg{[]Value{mkStr(msg)}}})
}

// parseFloatSym: decimal literals digit+ [. digit*] with symbolic digits and at most 15 significant digits are
// exactly float64(mantissa)/10^k, which is what strconv computes; everything else is concretised byte by byte.
func (vm *VM) parseFloatSym(bs []Value) Value {
	tb := vm.tb
	isDig := func(b Value) bool {
		t := vm.term(b, tUint8)
		return vm.branch(tb.And(tb.Cmp(TUle, tb.Const(8, '0'), t), tb.Cmp(TUle, t, tb.Const(8, '9'))))
	}
	shape := true
	dot := -1
	nd := 0
	for i, b := range bs {
		if isDig(b) {
			nd++
			continue
		}
		if dot < 0 && vm.branch(tb.Eq(vm.term(b, tUint8), tb.Const(8, '.'))) {
			dot = i
			continue
		}
		shape = false
		break
	}
	if shape && nd > 0 && nd <= 15 {
		m := tb.Const(64, 0)
		k := 0
		for i, b := range bs {
			if i == dot {
				continue
			}
			d := tb.Zext(64, tb.Bin(TSub, vm.term(b, tUint8), tb.Const(8, '0')))
			m = tb.Bin(TAdd, tb.Bin(TMul, m, tb.Const(64, 10)), d)
			if dot >= 0 && i > dot {
				k++
			}
		}
		f := tb.F1(TFFromS, m, 0)
		if k > 0 {
			f = tb.F2(TFDiv, f, tb.Const(SF64, math.Float64bits(math.Pow10(k))))
		}
		return Value{o: &Agg{[]Value{vm.val(f, tFloat64), {}}}}
	}
	buf := make([]byte, len(bs))
	for i, b := range bs {
		if t, ok := b.o.(*Term); ok {
			buf[i] = byte(vm.concretize(t))
		} else {
			buf[i] = byte(b.n)
		}
	}
	f, err := strconv.ParseFloat(string(buf), 64)
	ev := Value{}
	if err != nil {
		ev = vm.nativeErr(err.Error())
	}
	return Value{o: &Agg{[]Value{{n: math.Float64bits(f)}, ev}}}
}

// ---------- show (debug) ----------

func (vm *VM) show(v Value, d int) string {
	if d < 0 {
		return "…"
	}
	switch x := v.o.(type) {
	case nil:
		return fmt.Sprint(int64(v.n))
	case string:
		return strconv.Quote(x)
	case *SymStr:
		var sb strings.Builder
		sb.WriteString("sym\"")
		for _, b := range x.b {
			if b.o != nil {
				sb.WriteString("<" + b.o.(*Term).str(3) + ">")
			} else {
				sb.WriteByte(byte(b.n))
			}
		}
		return sb.String() + "\""
	case *Term:
		return x.str(6)
	case *Iface:
		return x.t.String() + "(" + vm.show(x.v, d-1) + ")"
	case *Agg:
		var p []string
		for _, e := range x.e {
			p = append(p, vm.show(e, d-1))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case *Sl:
		var p []string
		for i, e := range x.s {
			if i > 40 {
				p = append(p, "...")
				break
			}
			p = append(p, vm.show(e, d-1))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case *Value:
		return "&" + vm.show(*x, d-1)
	case *Map:
		var p []string
		for _, e := range x.ents {
			if !e.dead {
				p = append(p, vm.show(e.k, d-1)+":"+vm.show(e.v, d-1))
			}
		}
		return "map[" + strings.Join(p, ", ") + "]"
	}
	return fmt.Sprintf("%T", v.o)
}

func (t *Term) str(d int) string {
	if t == nil {
		return ""
	}
	if d <= 0 {
		return "…"
	}
	switch t.op {
	case TConst:
		if t.sort == SReal {
			return t.name
		}
		return strconv.FormatUint(t.k, 10)
	case TVar:
		return t.name
	case TUF:
		var p []string
		for _, a := range t.args {
			p = append(p, a.str(d-1))
		}
		return t.name + "(" + strings.Join(p, ",") + ")"
	}
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	s := "(" + n
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}

var _ = types.Typ
var _ = big.NewInt
