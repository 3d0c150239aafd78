package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const nilDeref = "runtime error: invalid memory address or nil pointer dereference"

func (vm *VM) deref(v Value) *Value {
	p, ok := v.o.(*Value)
	if !ok {
		if v.o == nil {
			vm.throwRT(nilDeref)
		}
		vm.unsup("deref of %T", v.o)
	}
	return p
}

// idx resolves an index value to a concrete int within [0,n), forking as needed and panicking when out of range.
func (vm *VM) idx(v Value, ty *Type, n int) int {
	if t, ok := v.o.(*Term); ok {
		t = vm.simp(t)
		w := t
		if ty.sgn {
			w = vm.tb.Sext(64, t)
		} else {
			w = vm.tb.Zext(64, t)
		}
		if !vm.branch(vm.tb.Cmp(TUlt, w, vm.tb.Const(64, uint64(n)))) {
			vm.throwRT(fmt.Sprintf("runtime error: index out of range [?] with length %d", n))
		}
		return int(vm.concretize(w))
	}
	i := int64(v.n)
	if i < 0 || i >= int64(n) {
		vm.throwRT(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
	}
	return int(i)
}

// elems returns the element slots of a slice, array pointer or array value.
func (vm *VM) elems(v Value) []Value {
	switch s := v.o.(type) {
	case nil:
		return nil
	case *Sl:
		return s.s
	case *Agg:
		return s.e
	case *Value:
		if a, ok := s.o.(*Agg); ok {
			return a.e
		}
	}
	vm.unsup("elems of %T", v.o)
	return nil
}

func (vm *VM) indexLoad(els []Value, iv Value, ity *Type, ety *Type) Value {
	t, ok := iv.o.(*Term)
	if ok {
		t = vm.simp(t)
		ok = t.op != TConst
		iv = vm.val(t, ity)
	}
	if !ok {
		i := vm.idx(iv, ity, len(els))
		return els[i]
	}
	scalar := ety.kind == KInt || ety.kind == KBool
	if scalar && len(els) > 0 {
		for i := range els {
			if els[i].o != nil {
				scalar = false
				break
			}
		}
	}
	if !scalar || len(els) > 70000 {
		i := vm.idx(iv, ity, len(els))
		return els[i]
	}
	var w *Term
	if ity.sgn {
		w = vm.tb.Sext(64, t)
	} else {
		w = vm.tb.Zext(64, t)
	}
	if !vm.branch(vm.tb.Cmp(TUlt, w, vm.tb.Const(64, uint64(len(els))))) {
		vm.throwRT(fmt.Sprintf("runtime error: index out of range [?] with length %d", len(els)))
	}
	vals := make([]uint64, len(els))
	s := ety.ssort()
	same := true
	for i := range els {
		vals[i] = els[i].n & mask(s)
		if vals[i] != vals[0] {
			same = false
		}
	}
	if same {
		return els[0]
	}
	// look up by the narrow index if possible
	x := w
	if w.op == TZext && w.a.sort <= 16 {
		x = w.a
		if m := int(mask(x.sort)) + 1; len(vals) > m {
			vals = vals[:m]
		}
	}
	return vm.val(vm.tb.Tab(s, vals, x), ety)
}

func (vm *VM) exec1(fr *Frame, in *Instr) Value {
	switch in.op {
	case OLoad:
		v := vm.get(fr, in.a)
		p, ok := v.o.(*Value)
		if !ok {
			p = vm.deref(v)
		}
		if _, ok := p.o.(*Agg); ok {
			return copyVal(*p)
		}
		return *p
	case OStore:
		v := vm.get(fr, in.a)
		p, ok := v.o.(*Value)
		if !ok {
			p = vm.deref(v)
		}
		vm.store(p, vm.get(fr, in.b))
		return Value{}
	case OFieldAddr:
		v := vm.get(fr, in.a)
		p, ok := v.o.(*Value)
		if !ok {
			p = vm.deref(v)
		}
		a, ok := p.o.(*Agg)
		if !ok {
			vm.unsup("field of %T", p.o)
		}
		return Value{o: &a.e[in.b]}
	case OBin:
		a, b := vm.get(fr, in.a), vm.get(fr, in.b)
		if a.o == nil && b.o == nil && in.t.kind == KInt {
			return vm.intOp(in.bop, a.n, b.n, in.t, in.t2)
		}
		return vm.binop(in.bop, a, b, in.t, in.t2)
	case OCopy:
		return vm.get(fr, in.a)
	case OExtract:
		v := vm.get(fr, in.a)
		return v.o.(*Agg).e[in.b]
	case OField:
		v := vm.get(fr, in.a)
		return v.o.(*Agg).e[in.b]
	case OAlloc:
		p := new(Value)
		if in.t.isAgg() {
			*p = zero(in.t)
		}
		return Value{o: p}
	case ONotB:
		v := vm.get(fr, in.a)
		if t, ok := v.o.(*Term); ok {
			return vm.val(vm.tb.Not(t), in.t)
		}
		return Value{n: v.n ^ 1}
	case ONeg:
		return vm.neg(vm.get(fr, in.a), in.t)
	case OBNotI:
		v := vm.get(fr, in.a)
		if t, ok := v.o.(*Term); ok {
			return vm.val(vm.tb.BNot(t), in.t)
		}
		return Value{n: norm(^v.n, in.t.w, in.t.sgn)}
	case OConvert:
		return vm.convert(vm.get(fr, in.a), in.t2, in.t)
	case OIndex:
		v := vm.get(fr, in.a)
		i := vm.get(fr, in.b)
		ity := in.aux.(*Type)
		if in.t2.kind == KString {
			return vm.strIndex(v, i, ity)
		}
		return vm.indexLoad(v.o.(*Agg).e, i, ity, in.t)
	case OIndexLoad:
		v := vm.get(fr, in.a)
		i := vm.get(fr, in.b)
		if in.t2.kind == KPtr && v.o == nil {
			vm.throwRT(nilDeref)
		}
		return vm.indexLoad(vm.elems(v), i, in.aux.(*Type), in.t)
	case OIndexAddr:
		v := vm.get(fr, in.a)
		if in.t2.kind == KPtr && v.o == nil {
			vm.throwRT(nilDeref)
		}
		els := vm.elems(v)
		i := vm.get(fr, in.b)
		if i.o == nil {
			if k := int64(i.n); k >= 0 && k < int64(len(els)) {
				return Value{o: &els[k]}
			}
		}
		k := vm.idx(i, in.aux.(*Type), len(els))
		return Value{o: &els[k]}
	case OLookup:
		v := vm.get(fr, in.a)
		k := vm.get(fr, in.b)
		if in.t.kind == KString {
			return vm.strIndex(v, k, in.t2)
		}
		m, _ := v.o.(*Map)
		r, ok := vm.mapGet(m, k, in.t)
		if in.c == 1 {
			return Value{o: &Agg{[]Value{r, mkBool(ok)}}}
		}
		return r
	case OMakeClosure:
		ci := in.aux.(*closInfo)
		env := make([]Value, len(ci.bind))
		for i, b := range ci.bind {
			env[i] = vm.get(fr, b)
		}
		vm.nclos++
		return Value{o: &Closure{fn: ci.fn, env: env, id: 1000000 + vm.nclos}}
	case OMakeIface:
		v := vm.get(fr, in.a)
		return Value{o: &Iface{in.t, copyVal(v)}}
	case OMakeMap:
		return Value{o: &Map{idx: map[string]int{}}}
	case OMakeSlice:
		n := vm.concInt(vm.get(fr, in.a))
		c := vm.concInt(vm.get(fr, in.b))
		if n < 0 || n > 1<<22 {
			if n < 0 || n > 1<<40 {
				vm.throwRT("runtime error: makeslice: len out of range")
			}
			vm.unsup("huge makeslice %d", n)
		}
		if c < n || c > 1<<22 {
			vm.throwRT("runtime error: makeslice: cap out of range")
		}
		s := make([]Value, c)
		if in.t.elem.isAgg() {
			for i := range s {
				s[i] = zero(in.t.elem)
			}
		}
		return Value{o: &Sl{s[:n]}}
	case OMapUpdate:
		v := vm.get(fr, in.a)
		m, ok := v.o.(*Map)
		if !ok {
			vm.throwRT("assignment to entry in nil map")
		}
		vm.mapSet(m, vm.get(fr, in.b), copyVal(vm.get(fr, in.c)), in.t)
		return Value{}
	case ORange:
		v := vm.get(fr, in.a)
		if in.t.kind == KString {
			return Value{o: &mapIter{str: strBytes(v)}}
		}
		m, _ := v.o.(*Map)
		return Value{o: &mapIter{m: m}}
	case ONext:
		return vm.next(fr, in)
	case OSlice:
		return vm.slice(fr, in)
	case OAssert:
		return vm.typeAssert(vm.get(fr, in.a), in.aux.(*assertInfo), in.t)
	case OSliceToArr:
		v := vm.get(fr, in.a)
		els := vm.elems(v)
		if len(els) < in.t.n {
			vm.throwRT("runtime error: cannot convert slice to array pointer")
		}
		vm.unsup("slice to array pointer")
	case OUnsup:
		vm.unsup("instruction %v", in.aux)
	}
	panic(fmt.Sprintf("exec1 op %d", in.op))
}

func (vm *VM) concInt(v Value) int {
	if t, ok := v.o.(*Term); ok {
		return int(int64(sx(t.sort, vm.concretize(t))))
	}
	return int(int64(v.n))
}

// within tells whether 0 <= i <= j <= n, without making i or j concrete.
func (vm *VM) within(i, j Value, n int) bool {
	tb := vm.tb
	ti, tj := vm.term(i, tInt), vm.term(j, tInt)
	return vm.branch(tb.Not(tb.Cmp(TUlt, tb.Const(64, uint64(n)), tj))) && vm.branch(tb.Not(tb.Cmp(TUlt, tj, ti)))
}

func (vm *VM) strIndex(v, i Value, ity *Type) Value {
	n := strLen(v)
	if t, ok := i.o.(*Term); ok {
		t = vm.simp(t)
		if t.op != TConst {
			if s, ok := strOf(v); ok {
				els := make([]Value, n)
				for k := range els {
					els[k] = Value{n: uint64(s[k])}
				}
				return vm.indexLoad(els, Value{o: t}, ity, tUint8)
			}
		}
		i = vm.val(t, ity)
	}
	k := vm.idx(i, ity, n)
	return strByte(v, k)
}

var tUint8, tInt, tString, tRune, tFloat64, tBool, tEface, tBytes *Type

func initTypes() {
	tUint8 = T(types.Typ[types.Uint8])
	tInt = T(types.Typ[types.Int])
	tString = T(types.Typ[types.String])
	tRune = T(types.Typ[types.Int32])
	tFloat64 = T(types.Typ[types.Float64])
	tBool = T(types.Typ[types.Bool])
	tEface = T(types.NewInterfaceType(nil, nil))
	tBytes = T(types.NewSlice(types.Typ[types.Uint8]))
}

func (vm *VM) intOp(op token.Token, a, b uint64, t, t2 *Type) Value {
	var r uint64
	switch op {
	case token.ADD:
		r = a + b
	case token.SUB:
		r = a - b
	case token.MUL:
		r = a * b
	case token.QUO, token.REM:
		if b == 0 {
			vm.throwRT("runtime error: integer divide by zero")
		}
		if t.sgn {
			x, y := int64(a), int64(b)
			if y == -1 {
				if op == token.QUO {
					r = uint64(-x)
				} else {
					r = 0
				}
			} else if op == token.QUO {
				r = uint64(x / y)
			} else {
				r = uint64(x % y)
			}
		} else if op == token.QUO {
			r = a / b
		} else {
			r = a % b
		}
	case token.AND:
		r = a & b
	case token.OR:
		r = a | b
	case token.XOR:
		r = a ^ b
	case token.AND_NOT:
		r = a &^ b
	case token.SHL, token.SHR:
		if t2.sgn && int64(b) < 0 {
			vm.throwRT("runtime error: negative shift amount")
		}
		if op == token.SHL {
			if b >= 64 {
				r = 0
			} else {
				r = a << b
			}
		} else if t.sgn {
			if b >= 64 {
				b = 63
			}
			r = uint64(int64(a) >> b)
		} else if b >= 64 {
			r = 0
		} else {
			r = a >> b
		}
	case token.EQL:
		return mkBool(a == b)
	case token.NEQ:
		return mkBool(a != b)
	case token.LSS:
		if t.sgn {
			return mkBool(int64(a) < int64(b))
		}
		return mkBool(a < b)
	case token.LEQ:
		if t.sgn {
			return mkBool(int64(a) <= int64(b))
		}
		return mkBool(a <= b)
	case token.GTR:
		if t.sgn {
			return mkBool(int64(a) > int64(b))
		}
		return mkBool(a > b)
	case token.GEQ:
		if t.sgn {
			return mkBool(int64(a) >= int64(b))
		}
		return mkBool(a >= b)
	}
	return Value{n: norm(r, t.w, t.sgn)}
}

func (vm *VM) binop(op token.Token, a, b Value, t, t2 *Type) Value {
	switch op {
	case token.EQL:
		return vm.val(vm.eq(a, b, t, t2), tBool)
	case token.NEQ:
		return vm.val(vm.tb.Not(vm.eq(a, b, t, t2)), tBool)
	}
	tb := vm.tb
	switch t.kind {
	case KInt:
		x := vm.term(a, t)
		var y *Term
		if op == token.SHL || op == token.SHR {
			// bring the shift count to the width of x
			y = vm.term(b, t2)
			if t2.sgn && isSym(b) {
				if vm.branch(tb.Cmp(TSlt, y, tb.Const(y.sort, 0))) {
					vm.throwRT("runtime error: negative shift amount")
				}
			}
			if y.sort < x.sort {
				y = tb.Zext(x.sort, y)
			} else if y.sort > x.sort {
				big := tb.Cmp(TUle, tb.Const(y.sort, uint64(x.sort)), y)
				y = tb.Ite(big, tb.Const(x.sort, uint64(x.sort)), tb.Extract(x.sort, 0, y))
			}
		} else {
			y = vm.term(b, t)
		}
		var r *Term
		switch op {
		case token.ADD:
			r = tb.Bin(TAdd, x, y)
		case token.SUB:
			r = tb.Bin(TSub, x, y)
		case token.MUL:
			r = tb.Bin(TMul, x, y)
		case token.QUO, token.REM:
			if vm.branch(tb.Eq(y, tb.Const(y.sort, 0))) {
				vm.throwRT("runtime error: integer divide by zero")
			}
			o := TUdiv
			if t.sgn {
				o = TSdiv
			}
			if op == token.REM {
				o = TUrem
				if t.sgn {
					o = TSrem
				}
			}
			r = tb.Bin(o, x, y)
		case token.AND:
			r = tb.Bin(TBAnd, x, y)
		case token.OR:
			r = tb.Bin(TBOr, x, y)
		case token.XOR:
			r = tb.Bin(TBXor, x, y)
		case token.AND_NOT:
			r = tb.Bin(TBAnd, x, tb.BNot(y))
		case token.SHL:
			r = tb.Bin(TShl, x, y)
		case token.SHR:
			if t.sgn {
				r = tb.Bin(TAshr, x, y)
			} else {
				r = tb.Bin(TLshr, x, y)
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			o := TUlt
			if op == token.LEQ || op == token.GEQ {
				o = TUle
			}
			if t.sgn {
				o = o - TUlt + TSlt
			}
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
			}
			return vm.val(tb.Cmp(o, x, y), tBool)
		}
		return vm.val(r, t)
	case KFloat64, KFloat32:
		if a.o == nil && b.o == nil {
			x, y := math.Float64frombits(a.n), math.Float64frombits(b.n)
			var r float64
			switch op {
			case token.ADD:
				r = x + y
			case token.SUB:
				r = x - y
			case token.MUL:
				r = x * y
			case token.QUO:
				r = x / y
			case token.LSS:
				return mkBool(x < y)
			case token.LEQ:
				return mkBool(x <= y)
			case token.GTR:
				return mkBool(x > y)
			case token.GEQ:
				return mkBool(x >= y)
			}
			if t.kind == KFloat32 {
				r = float64(float32(r))
			}
			return Value{n: math.Float64bits(r)}
		}
		if t.kind == KFloat32 {
			vm.unsup("symbolic float32")
		}
		x, y := vm.term(a, t), vm.term(b, t)
		switch op {
		case token.ADD:
			return vm.val(tb.F2(TFAdd, x, y), t)
		case token.SUB:
			return vm.val(tb.F2(TFSub, x, y), t)
		case token.MUL:
			return vm.val(tb.F2(TFMul, x, y), t)
		case token.QUO:
			return vm.val(tb.F2(TFDiv, x, y), t)
		case token.LSS:
			return vm.val(tb.F2(TFLt, x, y), tBool)
		case token.LEQ:
			return vm.val(tb.F2(TFLe, x, y), tBool)
		case token.GTR:
			return vm.val(tb.F2(TFLt, y, x), tBool)
		case token.GEQ:
			return vm.val(tb.F2(TFLe, y, x), tBool)
		}
	case KComplex:
		x, y := a.o.(*Agg).e, b.o.(*Agg).e
		f := func(o token.Token, p, q Value) Value { return vm.binop(o, p, q, tFloat64, tFloat64) }
		mk := func(re, im Value) Value { return Value{o: &Agg{[]Value{re, im}}} }
		switch op {
		case token.ADD, token.SUB:
			return mk(f(op, x[0], y[0]), f(op, x[1], y[1]))
		case token.MUL:
			return mk(f(token.SUB, f(token.MUL, x[0], y[0]), f(token.MUL, x[1], y[1])),
				f(token.ADD, f(token.MUL, x[0], y[1]), f(token.MUL, x[1], y[0])))
		case token.QUO:
			if x[0].o == nil && x[1].o == nil && y[0].o == nil && y[1].o == nil {
				r := complex(math.Float64frombits(x[0].n), math.Float64frombits(x[1].n)) / complex(math.Float64frombits(y[0].n), math.Float64frombits(y[1].n))
				return mk(Value{n: math.Float64bits(real(r))}, Value{n: math.Float64bits(imag(r))})
			}
			as := []*Term{vm.term(x[0], tFloat64), vm.term(x[1], tFloat64), vm.term(y[0], tFloat64), vm.term(y[1], tFloat64)}
			return mk(Value{o: tb.UF(SF64, "complex_div_re", as...)}, Value{o: tb.UF(SF64, "complex_div_im", as...)})
		}
	case KString:
		switch op {
		case token.ADD:
			if strLen(a) == 0 {
				return b
			}
			if strLen(b) == 0 {
				return a
			}
			x, ok1 := strOf(a)
			y, ok2 := strOf(b)
			if ok1 && ok2 {
				return mkStr(x + y)
			}
			bs := append(append([]Value(nil), strBytes(a)...), strBytes(b)...)
			return Value{o: &SymStr{bs}}
		case token.LSS:
			return vm.val(vm.strLess(a, b, false), tBool)
		case token.LEQ:
			return vm.val(vm.strLess(a, b, true), tBool)
		case token.GTR:
			return vm.val(vm.strLess(b, a, false), tBool)
		case token.GEQ:
			return vm.val(vm.strLess(b, a, true), tBool)
		}
	case KBool:
		x, y := vm.term(a, t), vm.term(b, t)
		switch op {
		case token.AND, token.LAND:
			return vm.val(tb.And(x, y), t)
		case token.OR, token.LOR:
			return vm.val(tb.Or(x, y), t)
		}
	}
	vm.unsup("binop %v on %v", op, t)
	return Value{}
}

func (vm *VM) strLess(a, b Value, orEq bool) *Term {
	x, ok1 := strOf(a)
	y, ok2 := strOf(b)
	if ok1 && ok2 {
		if orEq {
			return vm.tb.Bool(x <= y)
		}
		return vm.tb.Bool(x < y)
	}
	p, q := strBytes(a), strBytes(b)
	n := len(p)
	if len(q) < n {
		n = len(q)
	}
	var r *Term
	if orEq {
		r = vm.tb.Bool(len(p) <= len(q))
	} else {
		r = vm.tb.Bool(len(p) < len(q))
	}
	for i := n - 1; i >= 0; i-- {
		u, v := vm.term(p[i], tUint8), vm.term(q[i], tUint8)
		r = vm.tb.Ite(vm.tb.Cmp(TUlt, u, v), vm.tb.True, vm.tb.And(vm.tb.Eq(u, v), r))
	}
	return r
}

func (vm *VM) neg(v Value, t *Type) Value {
	switch t.kind {
	case KInt:
		if x, ok := v.o.(*Term); ok {
			return vm.val(vm.tb.Neg(x), t)
		}
		return Value{n: norm(-v.n, t.w, t.sgn)}
	case KFloat64, KFloat32:
		if x, ok := v.o.(*Term); ok {
			return Value{o: vm.tb.F1(TFNeg, x, 0)}
		}
		return Value{n: math.Float64bits(-math.Float64frombits(v.n))}
	case KComplex:
		e := v.o.(*Agg).e
		return Value{o: &Agg{[]Value{vm.neg(e[0], tFloat64), vm.neg(e[1], tFloat64)}}}
	}
	vm.unsup("neg %v", t)
	return Value{}
}

// eq computes equality of two values of (static) types t, t2 as a term.
func (vm *VM) eq(a, b Value, t, t2 *Type) *Term {
	tb := vm.tb
	switch t.kind {
	case KInt, KBool:
		if a.o == nil && b.o == nil {
			return tb.Bool(a.n == b.n)
		}
		return tb.Eq(vm.term(a, t), vm.term(b, t))
	case KFloat64, KFloat32:
		if a.o == nil && b.o == nil {
			return tb.Bool(math.Float64frombits(a.n) == math.Float64frombits(b.n))
		}
		return tb.F2(TFEq, vm.term(a, t), vm.term(b, t))
	case KString:
		if strLen(a) != strLen(b) {
			return tb.False
		}
		x, ok1 := strOf(a)
		y, ok2 := strOf(b)
		if ok1 && ok2 {
			return tb.Bool(x == y)
		}
		p, q := strBytes(a), strBytes(b)
		r := tb.True
		for i := range p {
			r = tb.And(r, tb.Eq(vm.term(p[i], tUint8), vm.term(q[i], tUint8)))
			if r == tb.False {
				break
			}
		}
		return r
	case KIface:
		if t2 != nil && t2.kind != KIface {
			if b.o == nil && t2.kind != KIface {
				// comparison with untyped nil is typed as the interface; a concrete operand is boxed here
				b = Value{o: &Iface{t2, b}}
			} else if _, ok := b.o.(*Iface); !ok {
				b = Value{o: &Iface{t2, b}}
			}
		}
		x, ok1 := a.o.(*Iface)
		y, ok2 := b.o.(*Iface)
		if !ok1 || !ok2 {
			return tb.Bool(ok1 == ok2)
		}
		if x.t != y.t {
			return tb.False
		}
		if !comparable_(x.t) {
			vm.throwRT("runtime error: comparing uncomparable type " + x.t.String())
		}
		return vm.eq(x.v, y.v, x.t, y.t)
	case KStruct, KArray:
		x, y := a.o.(*Agg).e, b.o.(*Agg).e
		r := tb.True
		for i := range x {
			ft := t.elem
			if t.kind == KStruct {
				ft = t.flds[i]
			}
			r = tb.And(r, vm.eq(x[i], y[i], ft, ft))
		}
		return r
	case KComplex:
		x, y := a.o.(*Agg).e, b.o.(*Agg).e
		return tb.And(vm.eq(x[0], y[0], tFloat64, tFloat64), vm.eq(x[1], y[1], tFloat64, tFloat64))
	case KPtr, KUnsafe, KMap, KSlice, KFunc, KChan:
		if t2 != nil && t2.kind == KIface {
			return vm.eq(b, a, t2, t)
		}
		if a.o == nil || b.o == nil {
			return tb.Bool(a.o == nil && b.o == nil)
		}
		switch x := a.o.(type) {
		case *Value:
			y, ok := b.o.(*Value)
			return tb.Bool(ok && x == y)
		case *Map:
			y, ok := b.o.(*Map)
			return tb.Bool(ok && x == y)
		case *Opaque:
			y, ok := b.o.(*Opaque)
			return tb.Bool(ok && x == y)
		}
	}
	vm.unsup("eq on %v (%T, %T)", t, a.o, b.o)
	return nil
}

func comparable_(t *Type) bool { return types.Comparable(t.t) }

// ---------- conversions ----------

func (vm *VM) convert(v Value, from, to *Type) Value {
	tb := vm.tb
	switch to.kind {
	case KInt:
		switch from.kind {
		case KInt:
			if t, ok := v.o.(*Term); ok {
				if to.w < from.w {
					return vm.val(tb.Extract(Sort(to.w), 0, t), to)
				}
				if from.sgn {
					return vm.val(tb.Sext(Sort(to.w), t), to)
				}
				return vm.val(tb.Zext(Sort(to.w), t), to)
			}
			return Value{n: norm(v.n, to.w, to.sgn)}
		case KFloat64, KFloat32:
			if t, ok := v.o.(*Term); ok {
				if to.w <= 32 && from.kind == KFloat64 {
					return vm.val(tb.Extract(Sort(to.w), 0, tb.FToS(64, t)), to)
				}
				if !to.sgn || to.w != 64 {
					vm.unsup("symbolic float to %v", to)
				}
				return vm.val(tb.FToS(64, t), to)
			}
			f := math.Float64frombits(v.n)
			if to.sgn {
				return Value{n: norm(uint64(int64(f)), to.w, true)}
			}
			return Value{n: norm(uint64(f), to.w, false)}
		case KUnsafe:
			vm.unsup("unsafe.Pointer to integer")
		}
	case KFloat64, KFloat32:
		var r float64
		switch from.kind {
		case KInt:
			if t, ok := v.o.(*Term); ok {
				if to.kind == KFloat32 {
					vm.unsup("symbolic float32")
				}
				if from.sgn {
					return vm.val(tb.F1(TFFromS, t, 0), to)
				}
				return vm.val(tb.F1(TFFromU, t, 0), to)
			}
			if from.sgn {
				r = float64(int64(v.n))
			} else {
				r = float64(v.n)
			}
		case KFloat64, KFloat32:
			if isSym(v) {
				if to.kind == KFloat32 || from.kind == KFloat32 {
					vm.unsup("symbolic float32")
				}
				return v
			}
			r = math.Float64frombits(v.n)
		default:
			vm.unsup("convert %v to %v", from, to)
		}
		if to.kind == KFloat32 {
			r = float64(float32(r))
		}
		return Value{n: math.Float64bits(r)}
	case KComplex:
		return v
	case KString:
		switch from.kind {
		case KInt:
			if isSym(v) {
				return mkSymStr(vm.encodeRune(nil, vm.rune32(v, from)))
			}
			return mkStr(string(rune(int32(v.n))))
		case KSlice:
			if from.elem.kind == KInt && from.elem.w == 8 {
				return mkSymStr(vm.elems(v))
			}
			if from.elem.kind == KInt && from.elem.w == 32 {
				els := vm.elems(v)
				var out []Value
				for _, e := range els {
					out = vm.encodeRune(out, e)
				}
				return mkSymStr(out)
			}
		case KString:
			return v
		}
	case KSlice:
		if from.kind == KString {
			if to.elem.w == 8 {
				b := strBytes(v)
				nb := append(make([]Value, 0, len(b)), b...)
				return Value{o: &Sl{nb}}
			}
			if to.elem.w == 32 {
				out := []Value{}
				for b := strBytes(v); len(b) > 0; {
					r, w := vm.decodeRune(b)
					out = append(out, r)
					b = b[w:]
				}
				return Value{o: &Sl{out}}
			}
		}
		return v
	case KPtr, KUnsafe, KMap, KFunc, KIface, KStruct, KBool, KArray, KChan:
		return v
	}
	vm.unsup("convert %v to %v", from, to)
	return Value{}
}

func (vm *VM) unsupV(f string, a ...any) Value { vm.unsup(f, a...); return Value{} }

// ---------- slices ----------

func (vm *VM) slice(fr *Frame, in *Instr) Value {
	v := vm.get(fr, in.a)
	max := 0
	opt := func(x int32, def int) int {
		if x == -1<<30 {
			return def
		}
		i := vm.get(fr, x)
		if t, ok := i.o.(*Term); ok && t.sort == 64 {
			if !vm.branch(vm.tb.Not(vm.tb.Cmp(TUlt, vm.tb.Const(64, uint64(max)), t))) {
				vm.throwRT(fmt.Sprintf("runtime error: slice bounds out of range [?] with capacity %d", max))
			}
		}
		return vm.concInt(i)
	}
	if in.t.kind == KString {
		n := strLen(v)
		max = n
		lo, hi := opt(in.b, 0), opt(in.c, n)
		if hi < 0 || hi > n {
			vm.throwRT(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			vm.throwRT(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", lo, hi))
		}
		return subStr(v, lo, hi)
	}
	if in.t.kind == KPtr && v.o == nil {
		vm.throwRT(nilDeref)
	}
	els := vm.elems(v)
	max = cap(els)
	lo := opt(in.b, 0)
	hi := opt(in.c, len(els))
	mx := opt(in.d, cap(els))
	if in.d != -1<<30 && (mx < 0 || mx > cap(els)) {
		vm.throwRT(fmt.Sprintf("runtime error: slice bounds out of range [::%d] with capacity %d", mx, cap(els)))
	}
	if hi < 0 || hi > mx {
		vm.throwRT(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with capacity %d", hi, cap(els)))
	}
	if lo < 0 || lo > hi {
		vm.throwRT(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", lo, hi))
	}
	if v.o == nil {
		return v
	}
	return Value{o: &Sl{els[lo:hi:mx]}}
}

func growCap(oldCap, need int) int {
	newcap := oldCap
	double := newcap + newcap
	if need > double {
		return need
	}
	if oldCap < 256 {
		return double
	}
	for newcap < need {
		newcap += (newcap + 3*256) / 4
	}
	return newcap
}

// round capacities as the Go runtime does for small element sizes (affects aliasing only through append).
func roundCap(c int, esz int) int {
	if esz == 0 {
		return c
	}
	classes := [...]int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192}
	sz := c * esz
	for _, k := range classes {
		if sz <= k {
			return k / esz
		}
	}
	return (sz + 8191) / 8192 * 8192 / esz
}

func sizeOf(t *Type) int {
	switch t.kind {
	case KBool:
		return 1
	case KInt:
		return int(t.w) / 8
	case KFloat32:
		return 4
	case KFloat64, KPtr, KMap, KFunc, KChan, KUnsafe:
		return 8
	case KString, KIface, KComplex:
		return 16
	case KSlice:
		return 24
	case KArray:
		return t.n * sizeOf(t.elem)
	case KStruct:
		n, al := 0, 1
		for _, f := range t.flds {
			a := alignOf(f)
			if a > al {
				al = a
			}
			n = (n + a - 1) / a * a
			n += sizeOf(f)
		}
		return (n + al - 1) / al * al
	}
	return 8
}

func alignOf(t *Type) int {
	switch t.kind {
	case KStruct:
		al := 1
		for _, f := range t.flds {
			if a := alignOf(f); a > al {
				al = a
			}
		}
		return al
	case KArray:
		return alignOf(t.elem)
	}
	n := sizeOf(t)
	if n > 8 {
		n = 8
	}
	if n == 0 {
		n = 1
	}
	return n
}

// appendVals appends xs to slice value s with Go's growth policy.
func (vm *VM) appendVals(s Value, xs []Value, elem *Type) Value {
	els := vm.elems(s)
	if len(xs) == 0 {
		return s
	}
	n := len(els) + len(xs)
	if n <= cap(els) {
		r := els[:n]
		for i, x := range xs {
			vm.store(&r[len(els)+i], x)
		}
		return Value{o: &Sl{r}}
	}
	if vm.spec > 0 {
		panic(specAbort{})
	}
	c := roundCap(growCap(cap(els), n), sizeOf(elem))
	if c < n {
		c = n
	}
	r := make([]Value, c)
	for i, x := range els {
		r[i] = copyVal(x)
	}
	for i, x := range xs {
		r[len(els)+i] = copyVal(x)
	}
	if elem.isAgg() {
		for i := n; i < c; i++ {
			r[i] = zero(elem)
		}
	}
	return Value{o: &Sl{r[:n]}}
}

func (vm *VM) builtinCall(ci *callInfo, args []Value) Value {
	switch ci.builtin {
	case "len":
		switch ci.argT[0].kind {
		case KString:
			return mkInt(strLen(args[0]))
		case KMap:
			m, _ := args[0].o.(*Map)
			if m == nil {
				return Value{}
			}
			return mkInt(m.live)
		case KPtr, KArray:
			t := ci.argT[0]
			if t.kind == KPtr {
				t = t.elem
			}
			return mkInt(t.n)
		}
		return mkInt(len(vm.elems(args[0])))
	case "cap":
		return mkInt(cap(vm.elems(args[0])))
	case "append":
		var xs []Value
		if len(args) > 1 {
			if ci.argT[1].kind == KString {
				xs = strBytes(args[1])
			} else {
				xs = vm.elems(args[1])
			}
		}
		return vm.appendVals(args[0], xs, ci.argT[0].elem)
	case "copy":
		d := vm.elems(args[0])
		var s []Value
		if ci.argT[1].kind == KString {
			s = strBytes(args[1])
		} else {
			s = vm.elems(args[1])
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(s[i])
		}
		for i := range tmp {
			vm.store(&d[i], tmp[i])
		}
		return mkInt(n)
	case "delete":
		m, _ := args[0].o.(*Map)
		if m != nil {
			vm.mapDelete(m, args[1], ci.argT[0])
		}
		return Value{}
	case "panic":
		vm.throw(args[0])
	case "recover":
		return vm.doRecover()
	case "print", "println":
		return Value{}
	case "real":
		return args[0].o.(*Agg).e[0]
	case "imag":
		return args[0].o.(*Agg).e[1]
	case "complex":
		return Value{o: &Agg{[]Value{args[0], args[1]}}}
	case "min", "max":
		r := args[0]
		t := ci.argT[0]
		for _, x := range args[1:] {
			op := token.LSS
			if ci.builtin == "max" {
				op = token.GTR
			}
			c := vm.binop(op, x, r, t, t)
			if ct, ok := c.o.(*Term); ok && t.kind == KInt {
				r = vm.val(vm.tb.Ite(ct, vm.term(x, t), vm.term(r, t)), t)
			} else if vm.truth(c) {
				r = x
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].o == nil {
			vm.throwRT("value method called using nil pointer")
		}
		return args[0]
	case "clear":
		switch ci.argT[0].kind {
		case KMap:
			m, _ := args[0].o.(*Map)
			if m != nil {
				old := *m
				vm.undo(func() { *m = old })
				*m = Map{idx: map[string]int{}}
			}
		case KSlice:
			els := vm.elems(args[0])
			for i := range els {
				vm.store(&els[i], zero(ci.argT[0].elem))
			}
		}
		return Value{}
	case "String": // unsafe.String(ptr, len)
		n := vm.concInt(args[1])
		if n == 0 {
			return Value{}
		}
		vm.unsup("unsafe.String")
	case "SliceData", "StringData", "Slice", "Add":
		vm.unsup("unsafe.%s", ci.builtin)
	}
	vm.unsup("builtin %s", ci.builtin)
	return Value{}
}

func (vm *VM) doRecover() Value {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	f := vm.cur
	for f != nil && f.kind == fkCall && f.fn.f.Synthetic == "" && false {
		f = f.parent
	}
	if f == nil || f.kind != fkDefer {
		// a wrapper may sit between the panicking frame and the deferred function
		if f == nil || f.parent == nil || f.parent.kind != fkDefer || f.parent.fn.f.Synthetic == "" {
			return Value{}
		}
		f.parent = vm.own(f.parent)
		f = f.parent
	}
	p := vm.own(f.parent)
	f.parent = p
	if p == nil || p.pan == nil || p.pan.recovered {
		return Value{}
	}
	np := *p.pan
	np.recovered = true
	p.pan = &np
	return np.val
}

// ---------- maps ----------

// keyStr gives a canonical string for a concrete key; ok=false if symbolic.
func (vm *VM) keyStr(k Value, t *Type) (string, bool) {
	switch t.kind {
	case KInt, KBool:
		if k.o != nil {
			if tt, ok := k.o.(*Term); ok {
				tt = vm.simp(tt)
				if tt.op == TConst {
					return fmt.Sprintf("i%d", norm(tt.k, t.w, t.sgn)), true
				}
			}
			return "", false
		}
		return fmt.Sprintf("i%d", k.n), true
	case KFloat64, KFloat32:
		if k.o != nil {
			return "", false
		}
		if f := math.Float64frombits(k.n); f == 0 {
			return "f0", true
		}
		return fmt.Sprintf("f%d", k.n), true
	case KString:
		s, ok := strOf(k)
		if !ok {
			// all bytes determined?
			bs := k.o.(*SymStr).b
			buf := make([]byte, len(bs))
			for i, b := range bs {
				if tt, is := b.o.(*Term); is {
					tt = vm.simp(tt)
					if tt.op != TConst {
						return "", false
					}
					buf[i] = byte(tt.k)
				} else {
					buf[i] = byte(b.n)
				}
			}
			s = string(buf)
		}
		return "s" + s, true
	case KIface:
		i, ok := k.o.(*Iface)
		if !ok {
			return "nil", true
		}
		if !comparable_(i.t) {
			vm.throwRT("runtime error: hash of unhashable type " + i.t.String())
		}
		s, ok := vm.keyStr(i.v, i.t)
		return fmt.Sprintf("I%d:%s", i.t.id, s), ok
	case KStruct, KArray:
		var sb strings.Builder
		for i, x := range k.o.(*Agg).e {
			ft := t.elem
			if t.kind == KStruct {
				ft = t.flds[i]
			}
			s, ok := vm.keyStr(x, ft)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s;", len(s), s)
		}
		return sb.String(), true
	case KPtr, KUnsafe, KChan:
		return fmt.Sprintf("p%p", k.o), true
	}
	vm.unsup("map key type %v", t)
	return "", false
}

// find returns the entry index for key k (forking over symbolic matches), or -1.
func (vm *VM) mapFind(m *Map, k Value, mt *Type) (int, string, bool) {
	ks, ok := vm.keyStr(k, mt.key)
	if ok {
		if i, found := m.idx[ks]; found {
			return i, ks, true
		}
		if m.symKeys == 0 {
			return -1, ks, true
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		c := vm.eq(k, e.k, mt.key, mt.key)
		if vm.branch(c) {
			return i, ks, ok
		}
	}
	return -1, ks, ok
}

func (vm *VM) mapGet(m *Map, k Value, mt *Type) (Value, bool) {
	if m != nil {
		i, _, _ := vm.mapFind(m, k, mt)
		if i >= 0 {
			return copyVal(m.ents[i].v), true
		}
	} else {
		vm.keyStr(k, mt.key)
	}
	return zero(mt.elem), false
}

func (vm *VM) mapSet(m *Map, k, v Value, mt *Type) {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	i, ks, conc := vm.mapFind(m, k, mt)
	if i >= 0 {
		old := m.ents[i].v
		vm.undo(func() { m.ents[i].v = old })
		m.ents[i].v = v
		return
	}
	n := len(m.ents)
	m.ents = append(m.ents, mapEnt{k: copyVal(k), v: v})
	m.live++
	if conc {
		m.idx[ks] = n
		vm.undo(func() { m.ents = m.ents[:n]; m.live--; delete(m.idx, ks) })
	} else {
		m.symKeys++
		vm.undo(func() { m.ents = m.ents[:n]; m.live--; m.symKeys-- })
	}
}

func (vm *VM) mapDelete(m *Map, k Value, mt *Type) {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	i, _, _ := vm.mapFind(m, k, mt)
	if i < 0 {
		return
	}
	e := &m.ents[i]
	ks, conc := vm.keyStr(e.k, mt.key)
	if conc {
		if _, ok := m.idx[ks]; !ok {
			conc = false
		}
	}
	e.dead = true
	m.live--
	if conc {
		delete(m.idx, ks)
	} else {
		m.symKeys--
	}
	vm.undo(func() {
		m.ents[i].dead = false
		m.live++
		if conc {
			m.idx[ks] = i
		} else {
			m.symKeys++
		}
	})
}

func (vm *VM) next(fr *Frame, in *Instr) Value {
	it := vm.get(fr, in.a).o.(*mapIter)
	tup := func(ok bool, k, v Value) Value { return Value{o: &Agg{[]Value{mkBool(ok), k, v}}} }
	setPos := func(p int) {
		old := it.pos
		vm.undo(func() { it.pos = old })
		it.pos = p
	}
	if in.b == 1 {
		if it.pos >= len(it.str) {
			return tup(false, Value{}, Value{})
		}
		b := it.str[it.pos]
		if b.o == nil && b.n < 0x80 {
			p := it.pos
			setPos(p + 1)
			return tup(true, mkInt(p), Value{n: b.n})
		}
		// symbolic or multi-byte: decode through forks on the byte classes
		r, w := vm.decodeRune(it.str[it.pos:])
		p := it.pos
		setPos(p + w)
		return tup(true, mkInt(p), r)
	}
	if it.m == nil {
		return tup(false, Value{}, Value{})
	}
	p := it.pos
	for p < len(it.m.ents) && it.m.ents[p].dead {
		p++
	}
	if p >= len(it.m.ents) {
		return tup(false, Value{}, Value{})
	}
	e := it.m.ents[p]
	setPos(p + 1)
	return tup(true, copyVal(e.k), copyVal(e.v))
}

// rune32 brings an integer to the 32-bit rune domain (out of range values become invalid runes).
func (vm *VM) rune32(v Value, from *Type) Value {
	t, ok := v.o.(*Term)
	if !ok {
		return v
	}
	tb := vm.tb
	switch {
	case from.w == 32:
	case from.w < 32 && from.sgn:
		t = tb.Sext(32, t)
	case from.w < 32:
		t = tb.Zext(32, t)
	default:
		if !vm.branch(tb.Cmp(TUle, t, tb.Const(Sort(from.w), 0x10ffff))) {
			return Value{n: 0xFFFD}
		}
		t = tb.Extract(32, 0, t)
	}
	return vm.val(t, tRune)
}

// encodeRune appends the UTF-8 form of r, forking on its length.
func (vm *VM) encodeRune(out []Value, v Value) []Value {
	t, ok := v.o.(*Term)
	if !ok {
		for _, c := range []byte(string(rune(int32(v.n)))) {
			out = append(out, Value{n: uint64(c)})
		}
		return out
	}
	tb := vm.tb
	c := func(n uint64) *Term { return tb.Const(32, n) }
	lt := func(n uint64) bool { return vm.branch(tb.Cmp(TUlt, t, c(n))) }
	bits := func(sh, mask, or uint64) {
		u := t
		if sh > 0 {
			u = tb.Bin(TLshr, u, c(sh))
		}
		u = tb.Extract(8, 0, u)
		if mask != 0xff {
			u = tb.Bin(TBAnd, u, tb.Const(8, mask))
		}
		if or != 0 {
			u = tb.Bin(TBOr, u, tb.Const(8, or))
		}
		out = append(out, vm.val(u, tUint8))
	}
	switch {
	case lt(0x80):
		bits(0, 0xff, 0)
	case lt(0x800):
		bits(6, 0x1f, 0xC0)
		bits(0, 0x3f, 0x80)
	case lt(0xd800), !lt(0xe000) && lt(0x10000):
		bits(12, 0x0f, 0xE0)
		bits(6, 0x3f, 0x80)
		bits(0, 0x3f, 0x80)
	case !lt(0x10000) && lt(0x110000):
		bits(18, 0x07, 0xF0)
		bits(12, 0x3f, 0x80)
		bits(6, 0x3f, 0x80)
		bits(0, 0x3f, 0x80)
	default:
		out = append(out, Value{n: 0xEF}, Value{n: 0xBF}, Value{n: 0xBD})
	}
	return out
}

// decodeRune decodes one rune from bytes, forking on byte classes as utf8.DecodeRune does.
func (vm *VM) decodeRune(b []Value) (Value, int) {
	tb := vm.tb
	t := func(i int) *Term { return vm.term(b[i], tUint8) }
	rng := func(i int, lo, hi uint64) bool {
		if i >= len(b) {
			return false
		}
		return vm.branch(tb.And(tb.Cmp(TUle, tb.Const(8, lo), t(i)), tb.Cmp(TUle, t(i), tb.Const(8, hi))))
	}
	bad := Value{n: 0xFFFD}
	x := func(i int, m uint64) *Term { return tb.Zext(32, tb.Bin(TBAnd, t(i), tb.Const(8, m))) }
	sh := func(u *Term, n uint64) *Term { return tb.Bin(TShl, u, tb.Const(32, n)) }
	or := func(u, v *Term) *Term { return tb.Bin(TBOr, u, v) }
	if rng(0, 0, 0x7f) {
		return vm.val(tb.Zext(32, t(0)), tRune), 1
	}
	if rng(0, 0xC2, 0xDF) {
		if !rng(1, 0x80, 0xBF) {
			return bad, 1
		}
		return vm.val(or(sh(x(0, 0x1f), 6), x(1, 0x3f)), tRune), 2
	}
	if rng(0, 0xE0, 0xEF) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if rng(0, 0xE0, 0xE0) {
			lo = 0xA0
		} else if rng(0, 0xED, 0xED) {
			hi = 0x9F
		}
		if !rng(1, lo, hi) || !rng(2, 0x80, 0xBF) {
			return bad, 1
		}
		return vm.val(or(or(sh(x(0, 0x0f), 12), sh(x(1, 0x3f), 6)), x(2, 0x3f)), tRune), 3
	}
	if rng(0, 0xF0, 0xF4) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if rng(0, 0xF0, 0xF0) {
			lo = 0x90
		} else if rng(0, 0xF4, 0xF4) {
			hi = 0x8F
		}
		if !rng(1, lo, hi) || !rng(2, 0x80, 0xBF) || !rng(3, 0x80, 0xBF) {
			return bad, 1
		}
		return vm.val(or(or(or(sh(x(0, 0x07), 18), sh(x(1, 0x3f), 12)), sh(x(2, 0x3f), 6)), x(3, 0x3f)), tRune), 4
	}
	return bad, 1
}

// ---------- type assertions / methods ----------

func (p *Prog) methodOf(t *Type, id string) *Fn {
	ttab.mu.RLock()
	if t.mset != nil {
		if f, ok := t.mset[id]; ok {
			ttab.mu.RUnlock()
			return f
		}
	}
	ttab.mu.RUnlock()
	p.mu.Lock()
	ms := p.prog.MethodSets.MethodSet(t.t)
	var f *Fn
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if sel.Obj().Id() == id {
			if mf := p.prog.MethodValue(sel); mf != nil {
				f = p.fnOfLocked(mf)
			}
			break
		}
	}
	p.mu.Unlock()
	ttab.mu.Lock()
	if t.mset == nil {
		t.mset = map[string]*Fn{}
	}
	t.mset[id] = f
	ttab.mu.Unlock()
	return f
}

func (p *Prog) methodByName(t *Type, name string) *Fn {
	return p.methodOf(t, name)
}

func (p *Prog) implements(t *Type, it *types.Interface) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return types.Implements(t.t, it)
}

func (vm *VM) typeAssert(v Value, ai *assertInfo, st *Type) Value {
	i, ok := v.o.(*Iface)
	good := false
	var res Value
	if ok {
		if ai.iface != nil {
			good = ai.nmeth == 0 || P.implements(i.t, ai.iface)
			res = v
		} else {
			good = i.t == ai.t
			res = i.v
		}
	}
	if ai.commaok {
		if !good {
			res = zero(ai.t)
		}
		return Value{o: &Agg{[]Value{copyVal(res), mkBool(good)}}}
	}
	if !good {
		msg := ""
		switch {
		case !ok:
			msg = fmt.Sprintf("interface conversion: interface is nil, not %s", qualName(ai.t))
			if ai.iface == nil {
				msg = fmt.Sprintf("interface conversion: %s is nil, not %s", qualName(st), qualName(ai.t))
			}
		case ai.iface != nil:
			msg = fmt.Sprintf("interface conversion: %s is not %s: missing method", qualName(i.t), qualName(ai.t))
		default:
			msg = fmt.Sprintf("interface conversion: %s is %s, not %s", qualName(st), qualName(i.t), qualName(ai.t))
		}
		vm.throwRT(msg)
	}
	return copyVal(res)
}

func qualName(t *Type) string { return t.String() }

var _ = ssa.NaiveForm
