package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
)

// Emulation of the reflect package on engine values.
// reflect.Value is its own struct Agg whose first field holds *rval (nil = the zero Value).
// reflect.Type is an interface holding *reflect.rtype with one canonical pointer per Type.

type rval struct {
	t    *Type
	v    Value
	addr *Value // non-nil: settable location
	ro   bool   // obtained through an unexported field
	ero  bool   // obtained through an unexported embedded field
}

var rtypeT *Type // *reflect.rtype

func (vm *VM) mkRV(r *rval) Value {
	return Value{o: &Agg{[]Value{{o: r}, {}, {}}}}
}

func rvOf(v Value) *rval {
	a, ok := v.o.(*Agg)
	if !ok || len(a.e) == 0 {
		return nil
	}
	r, _ := a.e[0].o.(*rval)
	return r
}

func (r *rval) cur() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func rtypeVal(t *Type) Value {
	ttab.mu.Lock()
	if t.rt == nil {
		t.rt = &Value{o: &Opaque{kind: "rtype", x: t}}
	}
	p := t.rt
	ttab.mu.Unlock()
	return mkIface(rtypeT, Value{o: p})
}

func (vm *VM) typeOfRT(v Value) *Type {
	if i, ok := v.o.(*Iface); ok {
		v = i.v
	}
	p, ok := v.o.(*Value)
	if !ok {
		vm.throwRT(nilDeref)
	}
	o, ok := p.o.(*Opaque)
	if !ok {
		vm.unsup("not an rtype: %T", p.o)
	}
	return o.x.(*Type)
}

func kindNum(t *Type) uint64 {
	switch t.kind {
	case KBool:
		return 1
	case KInt:
		b := t.under.(*types.Basic).Kind()
		switch b {
		case types.Int, types.UntypedInt:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32, types.UntypedRune:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		}
	case KFloat32:
		return 13
	case KFloat64:
		return 14
	case KComplex:
		if b, ok := t.under.(*types.Basic); ok && b.Kind() == types.Complex64 {
			return 15
		}
		return 16
	case KArray:
		return 17
	case KChan:
		return 18
	case KFunc:
		return 19
	case KIface:
		return 20
	case KMap:
		return 21
	case KPtr:
		return 22
	case KSlice:
		return 23
	case KString:
		return 24
	case KStruct:
		return 25
	case KUnsafe:
		return 26
	}
	return 0
}

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func (vm *VM) rvFromIface(v Value) Value {
	i, ok := v.o.(*Iface)
	if !ok {
		return Value{o: &Agg{make([]Value, 3)}}
	}
	return vm.mkRV(&rval{t: i.t, v: i.v})
}

func (vm *VM) rvIface(r *rval) Value {
	v := copyVal(r.cur())
	if r.t.kind == KIface {
		return v
	}
	return mkIface(r.t, v)
}

func (vm *VM) reflPanic(method string, r *rval) {
	k := "zero"
	if r != nil {
		k = kindNames[kindNum(r.t)]
	}
	vm.throw(mkIface(P.nativeErr, Value{o: &Agg{[]Value{mkStr("reflect: call of " + method + " on " + k + " Value")}}}))
}

func (vm *VM) strPanic(msg string) { vm.throw(mkIface(tString, mkStr(msg))) }

// assignTo converts r for assignment to type t (reflect's assignTo).
func (vm *VM) assignTo(r *rval, t *Type, ctx string) Value {
	v := copyVal(r.cur())
	if r.t == t {
		return v
	}
	if t.kind == KIface {
		if r.t.kind == KIface {
			if v.o == nil {
				return v
			}
			i := v.o.(*Iface)
			if P.implements(i.t, t.under.(*types.Interface)) {
				return v
			}
		} else if P.implements(r.t, t.under.(*types.Interface)) {
			return mkIface(r.t, v)
		}
	} else if P.assignable(r.t, t) {
		return v
	}
	vm.strPanic(ctx + ": value of type " + r.t.String() + " is not assignable to type " + t.String())
	return Value{}
}

func (p *Prog) assignable(a, b *Type) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return types.AssignableTo(a.t, b.t)
}

func (vm *VM) implementsType(r *rval) *Type { return r.t }

func rvSlice(vs []Value) Value { return Value{o: &Sl{vs}} }

func (vm *VM) rvCall(fv *rval, in []Value) Value {
	sig := fv.t.under.(*types.Signature)
	f := fv.cur()
	if f.o == nil {
		vm.strPanic("reflect: call of nil function")
	}
	n := sig.Params().Len()
	var args []Value
	bad := func(msg string) { vm.strPanic("reflect: Call with " + msg) }
	if sig.Variadic() {
		if len(in) < n-1 {
			bad("too few input arguments")
		}
	} else if len(in) < n {
		bad("too few input arguments")
	} else if len(in) > n {
		bad("too many input arguments")
	}
	for _, x := range in {
		if rvOf(x) == nil {
			vm.strPanic("reflect: Call using zero Value argument")
		}
	}
	fixed := n
	if sig.Variadic() {
		fixed = n - 1
	}
	for i := 0; i < fixed; i++ {
		args = append(args, vm.assignTo(rvOf(in[i]), T(sig.Params().At(i).Type()), "reflect: Call using "+rvOf(in[i]).t.String()))
	}
	if sig.Variadic() {
		et := T(sig.Params().At(n - 1).Type()).elem
		rest := []Value{}
		for _, x := range in[fixed:] {
			rest = append(rest, vm.assignTo(rvOf(x), et, "reflect: cannot use "+rvOf(x).t.String()+" in Call"))
		}
		args = append(args, Value{o: &Sl{rest}})
	}
	res := sig.Results()
	return vm.callLater(f, args, func(vm *VM, v Value) Value {
		out := []Value{}
		switch res.Len() {
		case 0:
		case 1:
			out = append(out, vm.mkRV(&rval{t: T(res.At(0).Type()), v: v}))
		default:
			for i, x := range v.o.(*Agg).e {
				out = append(out, vm.mkRV(&rval{t: T(res.At(i).Type()), v: x}))
			}
		}
		return rvSlice(out)
	})
}

func regReflect() {
	rf := func(n string, f intrinsic) { reg("reflect."+n, f) }
	rm := func(n string, f func(vm *VM, r *rval, a []Value) Value) {
		reg("(reflect.Value)."+n, func(vm *VM, ci *callInfo, a []Value) Value { return f(vm, rvOf(a[0]), a) })
	}
	tm := func(n string, f func(vm *VM, t *Type, a []Value) Value) {
		reg("(*reflect.rtype)."+n, func(vm *VM, ci *callInfo, a []Value) Value { return f(vm, vm.typeOfRT(a[0]), a) })
	}
	rf("TypeOf", func(vm *VM, ci *callInfo, a []Value) Value {
		i, ok := a[0].o.(*Iface)
		if !ok {
			return Value{}
		}
		return rtypeVal(i.t)
	})
	rf("ValueOf", func(vm *VM, ci *callInfo, a []Value) Value { return vm.rvFromIface(a[0]) })
	rf("Zero", func(vm *VM, ci *callInfo, a []Value) Value {
		t := vm.typeOfRT(a[0])
		return vm.mkRV(&rval{t: t, v: zero(t)})
	})
	rf("New", func(vm *VM, ci *callInfo, a []Value) Value {
		t := vm.typeOfRT(a[0])
		p := new(Value)
		*p = zero(t)
		return vm.mkRV(&rval{t: T(types.NewPointer(t.t)), v: Value{o: p}})
	})
	rf("SliceOf", func(vm *VM, ci *callInfo, a []Value) Value {
		return rtypeVal(T(types.NewSlice(vm.typeOfRT(a[0]).t)))
	})
	rf("MapOf", func(vm *VM, ci *callInfo, a []Value) Value {
		k := vm.typeOfRT(a[0])
		if !comparable_(k) {
			vm.strPanic("reflect.MapOf: invalid key type " + k.String())
		}
		return rtypeVal(T(types.NewMap(k.t, vm.typeOfRT(a[1]).t)))
	})
	ptrTo := func(vm *VM, ci *callInfo, a []Value) Value { return rtypeVal(T(types.NewPointer(vm.typeOfRT(a[0]).t))) }
	rf("PtrTo", ptrTo)
	rf("PointerTo", ptrTo)
	rf("MakeMap", func(vm *VM, ci *callInfo, a []Value) Value {
		t := vm.typeOfRT(a[0])
		if t.kind != KMap {
			vm.strPanic("reflect.MakeMapWithSize of non-map type")
		}
		return vm.mkRV(&rval{t: t, v: Value{o: &Map{idx: map[string]int{}}}})
	})
	rf("MakeSlice", func(vm *VM, ci *callInfo, a []Value) Value {
		t := vm.typeOfRT(a[0])
		if t.kind != KSlice {
			vm.strPanic("reflect.MakeSlice of non-slice type")
		}
		n, c := vm.concInt(a[1]), vm.concInt(a[2])
		if n < 0 {
			vm.strPanic("reflect.MakeSlice: negative len")
		}
		if c < 0 {
			vm.strPanic("reflect.MakeSlice: negative cap")
		}
		if n > c {
			vm.strPanic("reflect.MakeSlice: len > cap")
		}
		if c > 1<<20 {
			vm.unsup("huge reflect.MakeSlice")
		}
		s := make([]Value, c)
		for i := range s {
			s[i] = zero(t.elem)
		}
		return vm.mkRV(&rval{t: t, v: Value{o: &Sl{s[:n]}}})
	})
	rf("Append", func(vm *VM, ci *callInfo, a []Value) Value {
		r := rvOf(a[0])
		if r == nil || r.t.kind != KSlice {
			vm.reflPanic("reflect.Append", r)
		}
		var xs []Value
		for _, x := range vm.elems(a[1]) {
			y := rvOf(x)
			if y == nil {
				vm.reflPanic("reflect.Value.Set", nil)
			}
			xs = append(xs, vm.assignTo(y, r.t.elem, "reflect.Set"))
		}
		return vm.mkRV(&rval{t: r.t, v: vm.appendVals(r.cur(), xs, r.t.elem)})
	})
	rf("Indirect", func(vm *VM, ci *callInfo, a []Value) Value {
		r := rvOf(a[0])
		if r == nil || r.t.kind != KPtr {
			return a[0]
		}
		return vm.rvElem(r)
	})
	rf("DeepEqual", func(vm *VM, ci *callInfo, a []Value) Value {
		x, ok1 := a[0].o.(*Iface)
		y, ok2 := a[1].o.(*Iface)
		if !ok1 || !ok2 {
			return mkBool(ok1 == ok2)
		}
		if x.t != y.t {
			return mkBool(false)
		}
		return vm.val(vm.deepEq(x.v, y.v, x.t, 0), tBool)
	})
	// ---- Type ----
	tm("Kind", func(vm *VM, t *Type, a []Value) Value { return Value{n: kindNum(t)} })
	tm("String", func(vm *VM, t *Type, a []Value) Value { return mkStr(t.String()) })
	tm("Name", func(vm *VM, t *Type, a []Value) Value {
		switch x := t.t.(type) {
		case *types.Named:
			return mkStr(x.Obj().Name())
		case *types.Basic:
			return mkStr(x.Name())
		}
		return Value{}
	})
	tm("PkgPath", func(vm *VM, t *Type, a []Value) Value {
		if x, ok := t.t.(*types.Named); ok && x.Obj().Pkg() != nil {
			return mkStr(x.Obj().Pkg().Path())
		}
		return Value{}
	})
	tm("Elem", func(vm *VM, t *Type, a []Value) Value {
		if t.elem == nil {
			vm.strPanic("reflect: Elem of invalid type " + t.String())
		}
		return rtypeVal(t.elem)
	})
	tm("Key", func(vm *VM, t *Type, a []Value) Value {
		if t.kind != KMap {
			vm.strPanic("reflect: Key of non-map type " + t.String())
		}
		return rtypeVal(t.key)
	})
	sig := func(vm *VM, t *Type, m string) *types.Signature {
		s, ok := t.under.(*types.Signature)
		if !ok {
			vm.strPanic("reflect: " + m + " of non-func type " + t.String())
		}
		return s
	}
	tm("NumIn", func(vm *VM, t *Type, a []Value) Value { return mkInt(sig(vm, t, "NumIn").Params().Len()) })
	tm("NumOut", func(vm *VM, t *Type, a []Value) Value { return mkInt(sig(vm, t, "NumOut").Results().Len()) })
	tm("IsVariadic", func(vm *VM, t *Type, a []Value) Value { return mkBool(sig(vm, t, "IsVariadic").Variadic()) })
	tm("In", func(vm *VM, t *Type, a []Value) Value {
		s := sig(vm, t, "In")
		i := vm.idx(a[1], tInt, s.Params().Len())
		return rtypeVal(T(s.Params().At(i).Type()))
	})
	tm("Out", func(vm *VM, t *Type, a []Value) Value {
		s := sig(vm, t, "Out")
		i := vm.idx(a[1], tInt, s.Results().Len())
		return rtypeVal(T(s.Results().At(i).Type()))
	})
	tm("Comparable", func(vm *VM, t *Type, a []Value) Value { return mkBool(comparable_(t)) })
	tm("Implements", func(vm *VM, t *Type, a []Value) Value {
		u := vm.typeOfRT(a[1])
		it, ok := u.under.(*types.Interface)
		if !ok {
			vm.strPanic("reflect: non-interface type passed to Type.Implements")
		}
		return mkBool(P.implements(t, it))
	})
	tm("AssignableTo", func(vm *VM, t *Type, a []Value) Value { return mkBool(P.assignable(t, vm.typeOfRT(a[1]))) })
	tm("ConvertibleTo", func(vm *VM, t *Type, a []Value) Value {
		u := vm.typeOfRT(a[1])
		P.mu.Lock()
		defer P.mu.Unlock()
		return mkBool(types.ConvertibleTo(t.t, u.t))
	})
	tm("NumMethod", func(vm *VM, t *Type, a []Value) Value {
		P.mu.Lock()
		defer P.mu.Unlock()
		ms := P.prog.MethodSets.MethodSet(t.t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return mkInt(n)
	})
	tm("NumField", func(vm *VM, t *Type, a []Value) Value {
		s, ok := t.under.(*types.Struct)
		if !ok {
			vm.strPanic("reflect: NumField of non-struct type " + t.String())
		}
		return mkInt(s.NumFields())
	})
	tm("Len", func(vm *VM, t *Type, a []Value) Value { return mkInt(t.n) })
	tm("Size", func(vm *VM, t *Type, a []Value) Value { return mkInt(sizeOf(t)) })
	reg("(reflect.Kind).String", func(vm *VM, ci *callInfo, a []Value) Value {
		if a[0].n < uint64(len(kindNames)) {
			return mkStr(kindNames[a[0].n])
		}
		return mkStr(fmt.Sprintf("kind%d", a[0].n))
	})
	// ---- Value ----
	rm("IsValid", func(vm *VM, r *rval, a []Value) Value { return mkBool(r != nil) })
	rm("Kind", func(vm *VM, r *rval, a []Value) Value {
		if r == nil {
			return Value{}
		}
		return Value{n: kindNum(r.t)}
	})
	need := func(vm *VM, r *rval, m string, ks ...Kind) {
		if r != nil {
			if len(ks) == 0 {
				return
			}
			for _, k := range ks {
				if r.t.kind == k {
					return
				}
			}
		}
		vm.reflPanic("reflect.Value."+m, r)
	}
	rm("Type", func(vm *VM, r *rval, a []Value) Value { need(vm, r, "Type"); return rtypeVal(r.t) })
	rm("Interface", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "Interface")
		if r.ro || r.ero {
			vm.strPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return vm.rvIface(r)
	})
	reg("verif/sym.Iface", func(vm *VM, ci *callInfo, a []Value) Value {
		r := rvOf(a[0])
		need(vm, r, "Interface")
		return vm.rvIface(r)
	})
	rm("CanInterface", func(vm *VM, r *rval, a []Value) Value { need(vm, r, "CanInterface"); return mkBool(!r.ro && !r.ero) })
	rm("CanSet", func(vm *VM, r *rval, a []Value) Value {
		return mkBool(r != nil && r.addr != nil && !r.ro && !r.ero)
	})
	rm("Addr", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "Addr")
		if r.addr == nil {
			vm.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return vm.mkRV(&rval{t: T(types.NewPointer(r.t.t)), v: Value{o: r.addr}, ro: r.ro, ero: r.ero})
	})
	rm("CanAddr", func(vm *VM, r *rval, a []Value) Value { return mkBool(r != nil && r.addr != nil) })
	rm("IsNil", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "IsNil", KPtr, KMap, KSlice, KFunc, KIface, KChan, KUnsafe)
		return mkBool(r.cur().o == nil)
	})
	rm("IsZero", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "IsZero")
		return vm.val(vm.eq(r.cur(), zero(r.t), r.t, r.t), tBool)
	})
	rm("Int", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "Int", KInt)
		if !r.t.sgn {
			vm.reflPanic("reflect.Value.Int", r)
		}
		return vm.convert(r.cur(), r.t, tInt)
	})
	rm("Uint", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "Uint", KInt)
		if r.t.sgn {
			vm.reflPanic("reflect.Value.Uint", r)
		}
		return vm.convert(r.cur(), r.t, T(types.Typ[types.Uint64]))
	})
	rm("Float", func(vm *VM, r *rval, a []Value) Value { need(vm, r, "Float", KFloat64, KFloat32); return r.cur() })
	rm("Complex", func(vm *VM, r *rval, a []Value) Value { need(vm, r, "Complex", KComplex); return copyVal(r.cur()) })
	rm("Bool", func(vm *VM, r *rval, a []Value) Value { need(vm, r, "Bool", KBool); return r.cur() })
	rm("String", func(vm *VM, r *rval, a []Value) Value {
		if r == nil {
			return mkStr("<invalid Value>")
		}
		if r.t.kind == KString {
			return r.cur()
		}
		return mkStr("<" + r.t.String() + " Value>")
	})
	rm("Len", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "Len", KSlice, KString, KMap, KArray)
		v := r.cur()
		switch r.t.kind {
		case KString:
			return mkInt(strLen(v))
		case KMap:
			if m, _ := v.o.(*Map); m != nil {
				return mkInt(m.live)
			}
			return Value{}
		}
		return mkInt(len(vm.elems(v)))
	})
	rm("Cap", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "Cap", KSlice, KArray)
		return mkInt(cap(vm.elems(r.cur())))
	})
	rm("Index", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "Index", KSlice, KString, KArray)
		v := r.cur()
		if r.t.kind == KString {
			n := strLen(v)
			t := vm.term(a[1], tInt)
			if !vm.branch(vm.tb.Cmp(TUlt, t, vm.tb.Const(64, uint64(n)))) {
				vm.strPanic("reflect: string index out of range")
			}
			return vm.mkRV(&rval{t: tUint8, v: vm.strIndex(v, a[1], tInt)})
		}
		els := vm.elems(v)
		t := vm.term(a[1], tInt)
		if !vm.branch(vm.tb.Cmp(TUlt, t, vm.tb.Const(64, uint64(len(els))))) {
			vm.strPanic("reflect: slice index out of range")
		}
		i := vm.idx(a[1], tInt, len(els))
		if r.t.kind == KArray && r.addr == nil {
			return vm.mkRV(&rval{t: r.t.elem, v: els[i]})
		}
		return vm.mkRV(&rval{t: r.t.elem, addr: &els[i]})
	})
	rm("Set", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "Set")
		x := rvOf(a[1])
		if r.addr == nil {
			vm.strPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		if x == nil {
			vm.reflPanic("reflect.Value.Set", nil)
		}
		if r.ro || r.ero || x.ro || x.ero {
			vm.strPanic("reflect: reflect.Value.Set using value obtained using unexported field")
		}
		v := vm.assignTo(x, r.t, "reflect.Set")
		vm.store(r.addr, v)
		return Value{}
	})
	rm("SetMapIndex", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "SetMapIndex", KMap)
		k := rvOf(a[1])
		if k == nil {
			vm.reflPanic("reflect.Value.SetMapIndex", nil)
		}
		kv := vm.assignTo(k, r.t.key, "reflect.Value.SetMapIndex")
		m, _ := r.cur().o.(*Map)
		x := rvOf(a[2])
		if x == nil {
			if m != nil {
				vm.mapDelete(m, kv, r.t)
			}
			return Value{}
		}
		v := vm.assignTo(x, r.t.elem, "reflect.Value.SetMapIndex")
		if m == nil {
			vm.throwRT("assignment to entry in nil map")
		}
		vm.mapSet(m, kv, v, r.t)
		return Value{}
	})
	rm("MapIndex", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "MapIndex", KMap)
		k := rvOf(a[1])
		if k == nil {
			vm.reflPanic("reflect.Value.MapIndex", nil)
		}
		kv := vm.assignTo(k, r.t.key, "reflect.Value.MapIndex")
		m, _ := r.cur().o.(*Map)
		v, ok := vm.mapGet(m, kv, r.t)
		if !ok {
			return Value{o: &Agg{make([]Value, 3)}}
		}
		return vm.mkRV(&rval{t: r.t.elem, v: v})
	})
	rm("MapKeys", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "MapKeys", KMap)
		out := []Value{}
		if m, _ := r.cur().o.(*Map); m != nil {
			for _, e := range m.ents {
				if !e.dead {
					out = append(out, vm.mkRV(&rval{t: r.t.key, v: e.k}))
				}
			}
		}
		return rvSlice(out)
	})
	rm("Elem", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "Elem", KPtr, KIface)
		return vm.rvElem(r)
	})
	rm("NumField", func(vm *VM, r *rval, a []Value) Value { need(vm, r, "NumField", KStruct); return mkInt(len(r.t.flds)) })
	rm("Field", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "Field", KStruct)
		i := vm.idx(a[1], tInt, len(r.t.flds))
		x := &rval{t: r.t.flds[i], ro: r.ro}
		if f := r.t.under.(*types.Struct).Field(i); !f.Exported() {
			if f.Embedded() {
				x.ero = true
			} else {
				x.ro = true
			}
		}
		if r.addr != nil {
			x.addr = &r.addr.o.(*Agg).e[i]
		} else {
			x.v = r.v.o.(*Agg).e[i]
		}
		return vm.mkRV(x)
	})
	mkStructOf := func(name string, f map[string]Value) Value {
		t := T(P.prog.ImportedPackage("reflect").Type(name).Type())
		v := zero(t)
		st := t.under.(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if x, ok := f[st.Field(i).Name()]; ok {
				v.o.(*Agg).e[i] = x
			}
		}
		return v
	}
	field := func(t *Type, index []int) Value {
		var f *types.Var
		tag := ""
		off := Value{}
		for _, i := range index {
			u := t.under
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem().Underlying()
			}
			st := u.(*types.Struct)
			f, tag = st.Field(i), st.Tag(i)
			t = T(f.Type())
		}
		idx := &Sl{}
		for _, i := range index {
			idx.s = append(idx.s, mkInt(i))
		}
		m := map[string]Value{"Name": mkStr(f.Name()), "Type": rtypeVal(t), "Tag": mkStr(tag), "Offset": off, "Index": {o: idx}, "Anonymous": mkBool(f.Embedded())}
		if !f.Exported() && f.Pkg() != nil {
			m["PkgPath"] = mkStr(f.Pkg().Path())
		}
		return mkStructOf("StructField", m)
	}
	tm("Field", func(vm *VM, t *Type, a []Value) Value {
		if t.kind != KStruct {
			vm.strPanic("reflect: Field of non-struct type " + t.String())
		}
		i := vm.concInt(a[1])
		if i < 0 || i >= len(t.flds) {
			vm.strPanic("reflect: Field index out of bounds")
		}
		return field(t, []int{i})
	})
	tm("FieldByName", func(vm *VM, t *Type, a []Value) Value {
		if t.kind != KStruct {
			vm.strPanic("reflect: FieldByName of non-struct type " + t.String())
		}
		n := vm.constStr(a[1], "FieldByName")
		P.mu.Lock()
		var pkg *types.Package
		if x, ok := t.t.(*types.Named); ok {
			pkg = x.Obj().Pkg()
		}
		o, index, _ := types.LookupFieldOrMethod(t.t, false, pkg, n)
		P.mu.Unlock()
		if _, ok := o.(*types.Var); !ok {
			return Value{o: &Agg{[]Value{mkStructOf("StructField", nil), {}}}}
		}
		return Value{o: &Agg{[]Value{field(t, index), mkBool(true)}}}
	})
	// exported methods in name order
	methods := func(t *Type) []*types.Selection {
		P.mu.Lock()
		defer P.mu.Unlock()
		ms := P.prog.MethodSets.MethodSet(t.t)
		var out []*types.Selection
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				out = append(out, ms.At(i))
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
		return out
	}
	method := func(vm *VM, t *Type, i int, m *types.Selection) Value {
		s := m.Obj().Type().(*types.Signature)
		f := map[string]Value{"Name": mkStr(m.Obj().Name()), "Index": mkInt(i)}
		if t.kind == KIface {
			f["Type"] = rtypeVal(T(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())))
		} else {
			ps := []*types.Var{types.NewVar(0, nil, "", t.t)}
			for k := 0; k < s.Params().Len(); k++ {
				ps = append(ps, s.Params().At(k))
			}
			ft := T(types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), s.Results(), s.Variadic()))
			f["Type"] = rtypeVal(ft)
			f["Func"] = vm.mkRV(&rval{t: ft, v: Value{o: funcClosure(P.methodOf(t, m.Obj().Name()), ft)}})
		}
		return mkStructOf("Method", f)
	}
	tm("Method", func(vm *VM, t *Type, a []Value) Value {
		ms := methods(t)
		i := vm.concInt(a[1])
		if i < 0 || i >= len(ms) {
			vm.strPanic("reflect: Method index out of range")
		}
		return method(vm, t, i, ms[i])
	})
	tm("MethodByName", func(vm *VM, t *Type, a []Value) Value {
		n := vm.constStr(a[1], "MethodByName")
		for i, m := range methods(t) {
			if m.Obj().Name() == n {
				return Value{o: &Agg{[]Value{method(vm, t, i, m), mkBool(true)}}}
			}
		}
		return Value{o: &Agg{[]Value{mkStructOf("Method", nil), {}}}}
	})
	tm("Bits", func(vm *VM, t *Type, a []Value) Value { return mkInt(8 * sizeOf(t)) })
	rf("TypeFor", func(vm *VM, ci *callInfo, a []Value) Value { vm.unsup("reflect.TypeFor"); return Value{} })
	rf("FuncOf", func(vm *VM, ci *callInfo, a []Value) Value {
		tuple := func(v Value) *types.Tuple {
			var vs []*types.Var
			for _, x := range vm.elems(v) {
				vs = append(vs, types.NewVar(0, nil, "", vm.typeOfRT(x).t))
			}
			return types.NewTuple(vs...)
		}
		return rtypeVal(T(types.NewSignatureType(nil, nil, nil, tuple(a[0]), tuple(a[1]), a[2].n != 0)))
	})
	rf("MakeFunc", func(vm *VM, ci *callInfo, a []Value) Value {
		t := vm.typeOfRT(a[0])
		s, ok := t.under.(*types.Signature)
		if !ok {
			vm.strPanic("reflect: call of MakeFunc with non-Func type")
		}
		f := a[1]
		vm.nclos++
		nat := func(vm *VM, args []Value) Value {
			in := []Value{}
			for i, x := range args {
				in = append(in, vm.mkRV(&rval{t: T(s.Params().At(i).Type()), v: copyVal(x)}))
			}
			return vm.callLater(f, []Value{rvSlice(in)}, func(vm *VM, v Value) Value {
				out := vm.elems(v)
				if len(out) != s.Results().Len() {
					vm.strPanic("reflect: wrong return count from function created by MakeFunc")
				}
				var rs []Value
				for i, x := range out {
					if rvOf(x) == nil {
						vm.strPanic("reflect: function created by MakeFunc using closure returned zero Value")
					}
					rs = append(rs, vm.assignTo(rvOf(x), T(s.Results().At(i).Type()), "reflect.MakeFunc"))
				}
				switch len(rs) {
				case 0:
					return Value{}
				case 1:
					return rs[0]
				}
				return Value{o: &Agg{rs}}
			})
		}
		return vm.mkRV(&rval{t: t, v: Value{o: &Closure{nat: nat, ntyp: t, id: 1000000 + vm.nclos}}})
	})
	rm("NumMethod", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "NumMethod")
		return intrinsics["(*reflect.rtype).NumMethod"](vm, nil, []Value{rtypeVal(r.t)})
	})
	rm("MethodByName", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "MethodByName")
		n := vm.constStr(a[1], "MethodByName")
		t, v := r.t, copyVal(r.cur())
		if t.kind == KIface {
			i, ok := v.o.(*Iface)
			if !ok {
				return Value{o: &Agg{make([]Value, 3)}}
			}
			t, v = i.t, i.v
		}
		if !types.NewVar(0, nil, n, nil).Exported() {
			return Value{o: &Agg{make([]Value, 3)}}
		}
		fn := P.methodOf(t, n)
		if fn == nil {
			return Value{o: &Agg{make([]Value, 3)}}
		}
		s := fn.sig
		st := types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
		vm.nclos++
		return vm.mkRV(&rval{t: T(st), v: Value{o: &Closure{fn: fn, bound: &v, id: 1000000 + vm.nclos}}})
	})
	rm("Call", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "Call", KFunc)
		return vm.rvCall(r, vm.elems(a[1]))
	})
	rm("Pointer", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "Pointer", KFunc, KPtr, KSlice, KMap, KChan, KUnsafe)
		v := r.cur()
		if v.o == nil {
			return Value{}
		}
		if c, ok := v.o.(*Closure); ok && c.fn != nil {
			return mkInt(0x400000 + 32*funcClosure(c.fn, nil).id)
		}
		vm.unsup("reflect Pointer of %v", r.t)
		return Value{}
	})
	rm("Slice", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "Slice", KSlice, KString)
		v := r.cur()
		n := 0
		if r.t.kind == KString {
			n = strLen(v)
		} else {
			n = cap(vm.elems(v))
		}
		if !vm.within(a[1], a[2], n) {
			vm.strPanic("reflect.Value.Slice: slice index out of bounds")
		}
		i, j := vm.concInt(a[1]), vm.concInt(a[2])
		if r.t.kind == KString {
			if i < 0 || j < i || j > strLen(v) {
				vm.strPanic("reflect.Value.Slice: string slice index out of bounds")
			}
			return vm.mkRV(&rval{t: r.t, v: subStr(v, i, j)})
		}
		els := vm.elems(v)
		if i < 0 || j < i || j > cap(els) {
			vm.strPanic("reflect.Value.Slice: slice index out of bounds")
		}
		if v.o == nil {
			return vm.mkRV(&rval{t: r.t})
		}
		return vm.mkRV(&rval{t: r.t, v: Value{o: &Sl{els[i:j]}}})
	})
	rm("Convert", func(vm *VM, r *rval, a []Value) Value {
		need(vm, r, "Convert")
		t := vm.typeOfRT(a[1])
		if t.kind == KIface {
			return vm.mkRV(&rval{t: t, v: vm.rvIface(r)})
		}
		P.mu.Lock()
		ok := types.ConvertibleTo(r.t.t, t.t)
		P.mu.Unlock()
		if !ok {
			vm.strPanic("reflect.Value.Convert: value of type " + r.t.String() + " cannot be converted to type " + t.String())
		}
		return vm.mkRV(&rval{t: t, v: vm.convert(copyVal(r.cur()), r.t, t)})
	})
}

func (vm *VM) rvElem(r *rval) Value {
	v := r.cur()
	if r.t.kind == KIface {
		i, ok := v.o.(*Iface)
		if !ok {
			return Value{o: &Agg{make([]Value, 3)}}
		}
		return vm.mkRV(&rval{t: i.t, v: i.v})
	}
	p, ok := v.o.(*Value)
	if !ok {
		return Value{o: &Agg{make([]Value, 3)}}
	}
	return vm.mkRV(&rval{t: r.t.elem, addr: p})
}

// deepEq is reflect.DeepEqual on values of one type.
func (vm *VM) deepEq(a, b Value, t *Type, d int) *Term {
	tb := vm.tb
	if d > 40 {
		vm.unsup("DeepEqual depth")
	}
	switch t.kind {
	case KSlice:
		if (a.o == nil) != (b.o == nil) {
			return tb.False
		}
		x, y := vm.elems(a), vm.elems(b)
		if len(x) != len(y) {
			return tb.False
		}
		r := tb.True
		for i := range x {
			r = tb.And(r, vm.deepEq(x[i], y[i], t.elem, d+1))
		}
		return r
	case KArray, KStruct:
		x, y := a.o.(*Agg).e, b.o.(*Agg).e
		r := tb.True
		for i := range x {
			ft := t.elem
			if t.kind == KStruct {
				ft = t.flds[i]
			}
			r = tb.And(r, vm.deepEq(x[i], y[i], ft, d+1))
		}
		return r
	case KPtr:
		if a.o == nil || b.o == nil {
			return tb.Bool(a.o == nil && b.o == nil)
		}
		p, q := a.o.(*Value), b.o.(*Value)
		if p == q {
			return tb.True
		}
		return vm.deepEq(*p, *q, t.elem, d+1)
	case KIface:
		x, ok1 := a.o.(*Iface)
		y, ok2 := b.o.(*Iface)
		if !ok1 || !ok2 {
			return tb.Bool(ok1 == ok2)
		}
		if x.t != y.t {
			return tb.False
		}
		return vm.deepEq(x.v, y.v, x.t, d+1)
	case KMap:
		if (a.o == nil) != (b.o == nil) {
			return tb.False
		}
		if a.o == nil {
			return tb.True
		}
		x, y := a.o.(*Map), b.o.(*Map)
		if x.live != y.live {
			return tb.False
		}
		r := tb.True
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			i, _, _ := vm.mapFind(y, e.k, t)
			if i < 0 {
				return tb.False
			}
			r = tb.And(r, vm.deepEq(e.v, y.ents[i].v, t.elem, d+1))
		}
		return r
	case KFunc:
		return tb.Bool(a.o == nil && b.o == nil)
	}
	return vm.eq(a, b, t, t)
}

var _ = math.Pi
