package main

import (
	"math/big"
)

// math/big model: a Rat's first field holds *Opaque{kind:"rat", t: SReal term}; an Int's first field
// holds *Opaque{kind:"int", x: *big.Int}. Rat arithmetic on symbolic operands is exact real arithmetic.

func (vm *VM) ratGet(v Value) *Term {
	p := vm.deref(v)
	a := p.o.(*Agg)
	if o, ok := a.e[0].o.(*Opaque); ok {
		return o.t
	}
	return vm.tb.RConst("0")
}

func (vm *VM) ratSet(v Value, t *Term) Value {
	p := vm.deref(v)
	vm.set(&p.o.(*Agg).e[0], Value{o: &Opaque{kind: "rat", t: t}})
	return v
}

func (vm *VM) ratConst(t *Term) *big.Rat {
	if t.op != TConst {
		vm.unsup("concrete rational required")
	}
	r, _ := new(big.Rat).SetString(t.name)
	return r
}

func (vm *VM) bigIntGet(v Value) *big.Int {
	p := vm.deref(v)
	a := p.o.(*Agg)
	if o, ok := a.e[0].o.(*Opaque); ok {
		if o.t != nil {
			return vm.ratConst(o.t).Num()
		}
		return o.x.(*big.Int)
	}
	return new(big.Int)
}

func (vm *VM) intSet(v Value, x *big.Int) Value {
	vm.set(&vm.deref(v).o.(*Agg).e[0], Value{o: &Opaque{kind: "int", x: x}})
	return v
}

func (vm *VM) concStr(v Value) string {
	if s, ok := strOf(v); ok {
		return s
	}
	bs := strBytes(v)
	buf := make([]byte, len(bs))
	for i, b := range bs {
		if isSym(b) {
			buf[i] = byte(vm.concretize(b.o.(*Term)))
		} else {
			buf[i] = byte(b.n)
		}
	}
	return string(buf)
}

// numeral is the value of a decimal numeral with symbolic digits: digits, and if frac a point among them (an integer that starts with 0 is
// left to the general case, where the digits are enumerated); nil if bs is something else or has no symbolic digit.
func (vm *VM) numeral(bs []Value, intOnly bool) *Term {
	tb := vm.tb
	sym, dot := false, -1
	for i, b := range bs {
		if isSym(b) {
			sym = true
			continue
		}
		if b.n == '.' && dot < 0 {
			dot = i
		} else if b.n < '0' || b.n > '9' {
			return nil
		}
	}
	if !sym || len(bs) == 0 || len(bs) > 17 || intOnly && dot >= 0 || dot == 0 || dot == len(bs)-1 {
		return nil
	}
	byteT := func(b Value) *Term {
		if isSym(b) {
			return b.o.(*Term)
		}
		return tb.Const(8, b.n)
	}
	m := tb.Const(64, 0)
	for i, b := range bs {
		if i == dot {
			continue
		}
		c := byteT(b)
		if isSym(b) && !vm.branch(tb.And(tb.Cmp(TUle, tb.Const(8, '0'), c), tb.Cmp(TUle, c, tb.Const(8, '9')))) {
			return nil
		}
		if i == 0 && intOnly && len(bs) > 1 && vm.branch(tb.Eq(c, tb.Const(8, '0'))) {
			return nil
		}
		d := tb.Bin(TSub, tb.Zext(64, c), tb.Const(64, '0'))
		m = tb.Bin(TAdd, tb.Bin(TMul, m, tb.Const(64, 10)), d)
	}
	t := tb.mk(TRFromS, SReal, m, nil, nil, 0, "")
	if dot >= 0 {
		k := "1"
		for range bs[dot+1:] {
			k += "0"
		}
		t = tb.R2(TRDiv, t, tb.RConst(k))
	}
	return t
}

func (vm *VM) newBig(v any) Value {
	p := new(Value)
	*p = Value{o: &Agg{make([]Value, 2)}}
	switch x := v.(type) {
	case *Term:
		p.o.(*Agg).e[0] = Value{o: &Opaque{kind: "rat", t: x}}
	case *big.Int:
		p.o.(*Agg).e[0] = Value{o: &Opaque{kind: "int", x: x}}
	}
	return Value{o: p}
}

func (vm *VM) ratTerm(r *big.Rat) *Term { return vm.tb.RConst(r.RatString()) }

func regBig() {
	rm := func(n string, f func(vm *VM, a []Value) Value) {
		reg("(*math/big.Rat)."+n, func(vm *VM, ci *callInfo, a []Value) Value { return f(vm, a) })
	}
	im := func(n string, f func(vm *VM, a []Value) Value) {
		reg("(*math/big.Int)."+n, func(vm *VM, ci *callInfo, a []Value) Value { return f(vm, a) })
	}
	reg("math/big.NewRat", func(vm *VM, ci *callInfo, a []Value) Value {
		if isSym(a[0]) {
			if isSym(a[1]) || a[1].n != 1 {
				vm.unsup("NewRat symbolic denominator")
			}
			return vm.newBig(vm.tb.mk(TRFromS, SReal, a[0].o.(*Term), nil, nil, 0, ""))
		}
		if a[1].n == 0 {
			vm.strPanic("division by zero")
		}
		return vm.newBig(vm.ratTerm(big.NewRat(int64(a[0].n), int64(a[1].n))))
	})
	reg("math/big.NewInt", func(vm *VM, ci *callInfo, a []Value) Value {
		return vm.newBig(big.NewInt(int64(vm.concInt(a[0]))))
	})
	rm("SetString", func(vm *VM, a []Value) Value {
		if t := vm.numeral(strBytes(a[1]), false); t != nil {
			return Value{o: &Agg{[]Value{vm.ratSet(a[0], t), mkBool(true)}}}
		}
		r, ok := new(big.Rat).SetString(vm.concStr(a[1]))
		if !ok {
			return Value{o: &Agg{[]Value{{}, mkBool(false)}}}
		}
		return Value{o: &Agg{[]Value{vm.ratSet(a[0], vm.ratTerm(r)), mkBool(true)}}}
	})
	im("SetString", func(vm *VM, a []Value) Value {
		base := vm.concInt(a[2])
		if base == 0 || base == 10 {
			if t := vm.numeral(strBytes(a[1]), base == 0); t != nil {
				vm.set(&vm.deref(a[0]).o.(*Agg).e[0], Value{o: &Opaque{kind: "int", t: t}})
				return Value{o: &Agg{[]Value{a[0], mkBool(true)}}}
			}
		}
		r, ok := new(big.Int).SetString(vm.concStr(a[1]), base)
		if !ok {
			return Value{o: &Agg{[]Value{{}, mkBool(false)}}}
		}
		return Value{o: &Agg{[]Value{vm.intSet(a[0], r), mkBool(true)}}}
	})
	bin := func(n string, op TOp) {
		rm(n, func(vm *VM, a []Value) Value {
			x, y := vm.ratGet(a[1]), vm.ratGet(a[2])
			if op == TRDiv {
				if vm.branch(vm.tb.R2(TREq, y, vm.tb.RConst("0"))) {
					vm.strPanic("division by zero")
				}
			}
			return vm.ratSet(a[0], vm.tb.R2(op, x, y))
		})
	}
	bin("Add", TRAdd)
	bin("Sub", TRSub)
	bin("Mul", TRMul)
	bin("Quo", TRDiv)
	rm("Neg", func(vm *VM, a []Value) Value {
		return vm.ratSet(a[0], vm.tb.R2(TRSub, vm.tb.RConst("0"), vm.ratGet(a[1])))
	})
	rm("Abs", func(vm *VM, a []Value) Value {
		x := vm.ratGet(a[1])
		neg := vm.tb.R2(TRSub, vm.tb.RConst("0"), x)
		c := vm.tb.R2(TRLt, x, vm.tb.RConst("0"))
		return vm.ratSet(a[0], vm.tb.Ite(c, neg, x))
	})
	rm("Inv", func(vm *VM, a []Value) Value {
		x := vm.ratGet(a[1])
		if vm.branch(vm.tb.R2(TREq, x, vm.tb.RConst("0"))) {
			vm.strPanic("division by zero")
		}
		return vm.ratSet(a[0], vm.tb.R2(TRDiv, vm.tb.RConst("1"), x))
	})
	rm("Set", func(vm *VM, a []Value) Value { return vm.ratSet(a[0], vm.ratGet(a[1])) })
	rm("SetInt", func(vm *VM, a []Value) Value {
		if o, ok := vm.deref(a[1]).o.(*Agg).e[0].o.(*Opaque); ok && o.t != nil {
			return vm.ratSet(a[0], o.t)
		}
		return vm.ratSet(a[0], vm.ratTerm(new(big.Rat).SetInt(vm.bigIntGet(a[1]))))
	})
	rm("SetInt64", func(vm *VM, a []Value) Value {
		return vm.ratSet(a[0], vm.ratTerm(new(big.Rat).SetInt64(int64(vm.concInt(a[1])))))
	})
	rm("Cmp", func(vm *VM, a []Value) Value {
		x, y := vm.ratGet(a[0]), vm.ratGet(a[1])
		tb := vm.tb
		c := func(k int64) *Term { return tb.Const(64, uint64(k)) }
		return vm.val(tb.Ite(tb.R2(TRLt, x, y), c(-1), tb.Ite(tb.R2(TREq, x, y), c(0), c(1))), tInt)
	})
	rm("Sign", func(vm *VM, a []Value) Value {
		x, y := vm.ratGet(a[0]), vm.tb.RConst("0")
		tb := vm.tb
		c := func(k int64) *Term { return tb.Const(64, uint64(k)) }
		return vm.val(tb.Ite(tb.R2(TRLt, x, y), c(-1), tb.Ite(tb.R2(TREq, x, y), c(0), c(1))), tInt)
	})
	rm("IsInt", func(vm *VM, a []Value) Value { return mkBool(vm.ratConst(vm.ratGet(a[0])).IsInt()) })
	rm("Num", func(vm *VM, a []Value) Value {
		return vm.newBig(new(big.Int).Set(vm.ratConst(vm.ratGet(a[0])).Num()))
	})
	rm("Denom", func(vm *VM, a []Value) Value {
		return vm.newBig(new(big.Int).Set(vm.ratConst(vm.ratGet(a[0])).Denom()))
	})
	str := func(f func(r *big.Rat) string) func(vm *VM, a []Value) Value {
		return func(vm *VM, a []Value) Value {
			if a[0].o == nil {
				return mkStr("<nil>")
			}
			t := vm.ratGet(a[0])
			if t.op != TConst {
				return vm.opaqueStr("rat", t)
			}
			return mkStr(f(vm.ratConst(t)))
		}
	}
	rm("String", str(func(r *big.Rat) string { return r.String() }))
	rm("RatString", str(func(r *big.Rat) string { return r.RatString() }))
	im("Set", func(vm *VM, a []Value) Value {
		if o, ok := vm.deref(a[1]).o.(*Agg).e[0].o.(*Opaque); ok {
			vm.set(&vm.deref(a[0]).o.(*Agg).e[0], Value{o: o})
		}
		return a[0]
	})
	im("SetInt64", func(vm *VM, a []Value) Value { return vm.intSet(a[0], big.NewInt(int64(vm.concInt(a[1])))) })
	ibin := func(n string, f func(z, x, y *big.Int) *big.Int) {
		im(n, func(vm *VM, a []Value) Value {
			return vm.intSet(a[0], f(new(big.Int), vm.bigIntGet(a[1]), vm.bigIntGet(a[2])))
		})
	}
	ibin("Add", (*big.Int).Add)
	ibin("Sub", (*big.Int).Sub)
	ibin("Mul", (*big.Int).Mul)
	im("Int64", func(vm *VM, a []Value) Value { return Value{n: uint64(vm.bigIntGet(a[0]).Int64())} })
	im("IsInt64", func(vm *VM, a []Value) Value { return mkBool(vm.bigIntGet(a[0]).IsInt64()) })
	im("Cmp", func(vm *VM, a []Value) Value { return mkInt(vm.bigIntGet(a[0]).Cmp(vm.bigIntGet(a[1]))) })
	im("Sign", func(vm *VM, a []Value) Value { return mkInt(vm.bigIntGet(a[0]).Sign()) })
	im("String", func(vm *VM, a []Value) Value { return mkStr(vm.bigIntGet(a[0]).String()) })
	// harness side
	reg(symPath+".Rat", func(vm *VM, ci *callInfo, a []Value) Value {
		return vm.newBig(vm.newSym(vm.constStr(a[0], "name"), "rat", SReal))
	})
	reg(symPath+".RatEq", func(vm *VM, ci *callInfo, a []Value) Value {
		return vm.val(vm.tb.R2(TREq, vm.ratGet(a[0]), vm.ratGet(a[1])), tBool)
	})
}
