package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one Go value. Scalars: n (normalised to their width), or o.(*Term) if symbolic.
// Zero Value is the zero of every scalar, string, pointer, slice, map, func, interface type.
type Value struct {
	n uint64
	o any
}

type Agg struct{ e []Value } // struct, array, tuple, complex

type Sl struct{ s []Value } // non-nil slice

type SymStr struct{ b []Value } // string with at least one symbolic byte

type Iface struct {
	t *Type
	v Value
}

type Closure struct {
	fn    *Fn
	env   []Value
	nat   func(vm *VM, args []Value) Value // engine-implemented function value
	ntyp  *Type
	bound *Value // receiver of a reflect method value
	id    int
}

// Map with insertion-ordered entries.
type Map struct {
	idx     map[string]int // canonical concrete key -> entry
	ents    []mapEnt
	live    int
	symKeys int
}
type mapEnt struct {
	k, v Value
	dead bool
}

type mapIter struct {
	m    *Map
	pos  int
	str  []Value // string iteration (bytes)
	base int
}

// Opaque boxes an engine-native object (e.g. big.Rat model).
type Opaque struct {
	kind string
	t    *Term
	x    any
}

type Type struct {
	id    int
	t     types.Type
	under types.Type
	kind  Kind
	w     uint8 // bit width for ints
	sgn   bool
	elem  *Type // pointer, slice, array, map elem, chan
	key   *Type
	flds  []*Type
	n     int // array len
	mset  map[string]*Fn
	rt    *Value // cached reflect type identity
	str   string
}

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KFloat32
	KFloat64
	KComplex
	KString
	KUnsafe
	KPtr
	KSlice
	KArray
	KStruct
	KMap
	KChan
	KFunc
	KIface
	KTuple
)

type typeTab struct {
	mu sync.RWMutex
	m  typeutil.Map
	n  int
}

var ttab = &typeTab{}

func T(t types.Type) *Type {
	ttab.mu.Lock()
	defer ttab.mu.Unlock()
	return ttab.get(t)
}

func (tt *typeTab) get(t types.Type) *Type {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if x := tt.m.At(t); x != nil {
		return x.(*Type)
	}
	ti := &Type{id: tt.n, t: t, under: t.Underlying()}
	tt.n++
	tt.m.Set(t, ti)
	switch u := ti.under.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind = KBool
		case types.Int, types.Int64, types.UntypedInt:
			ti.kind, ti.w, ti.sgn = KInt, 64, true
		case types.Int8:
			ti.kind, ti.w, ti.sgn = KInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.sgn = KInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.sgn = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.kind, ti.w = KInt, 64
		case types.Uint8:
			ti.kind, ti.w = KInt, 8
		case types.Uint16:
			ti.kind, ti.w = KInt, 16
		case types.Uint32:
			ti.kind, ti.w = KInt, 32
		case types.Float32:
			ti.kind = KFloat32
		case types.Float64, types.UntypedFloat:
			ti.kind = KFloat64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.kind = KComplex
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer:
			ti.kind = KUnsafe
		}
	case *types.Pointer:
		ti.kind = KPtr
		ti.elem = tt.get(u.Elem())
	case *types.Slice:
		ti.kind = KSlice
		ti.elem = tt.get(u.Elem())
	case *types.Array:
		ti.kind = KArray
		ti.elem = tt.get(u.Elem())
		ti.n = int(u.Len())
	case *types.Struct:
		ti.kind = KStruct
		for i := 0; i < u.NumFields(); i++ {
			ti.flds = append(ti.flds, tt.get(u.Field(i).Type()))
		}
	case *types.Map:
		ti.kind = KMap
		ti.key = tt.get(u.Key())
		ti.elem = tt.get(u.Elem())
	case *types.Chan:
		ti.kind = KChan
		ti.elem = tt.get(u.Elem())
	case *types.Signature:
		ti.kind = KFunc
	case *types.Interface:
		ti.kind = KIface
	case *types.Tuple:
		ti.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.flds = append(ti.flds, tt.get(u.At(i).Type()))
		}
	}
	return ti
}

func qual(p *types.Package) string { return p.Name() }

func (t *Type) String() string {
	if t == nil {
		return "<nil>"
	}
	ttab.mu.RLock()
	s := t.str
	ttab.mu.RUnlock()
	if s != "" {
		return s
	}
	s = types.TypeString(t.t, qual)
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	if s == "any" {
		s = "interface {}"
	}
	s = strings.ReplaceAll(s, "untyped ", "")
	ttab.mu.Lock()
	t.str = s
	ttab.mu.Unlock()
	return s
}

func (t *Type) ssort() Sort {
	switch t.kind {
	case KBool:
		return SBool
	case KInt:
		return Sort(t.w)
	case KFloat64, KFloat32:
		return SF64
	}
	return 255
}

func (t *Type) isAgg() bool {
	return t.kind == KStruct || t.kind == KArray || t.kind == KComplex || t.kind == KTuple
}

// zero returns a fresh zero value.
func zero(t *Type) Value {
	switch t.kind {
	case KStruct, KTuple:
		e := make([]Value, len(t.flds))
		for i, f := range t.flds {
			if f.isAgg() {
				e[i] = zero(f)
			}
		}
		return Value{o: &Agg{e}}
	case KArray:
		e := make([]Value, t.n)
		if t.elem.isAgg() {
			for i := range e {
				e[i] = zero(t.elem)
			}
		}
		return Value{o: &Agg{e}}
	case KComplex:
		return Value{o: &Agg{make([]Value, 2)}}
	}
	return Value{}
}

// copyVal deep-copies aggregates (by-value semantics).
func copyVal(v Value) Value {
	if a, ok := v.o.(*Agg); ok {
		e := make([]Value, len(a.e))
		for i, x := range a.e {
			if _, ok := x.o.(*Agg); ok {
				e[i] = copyVal(x)
			} else {
				e[i] = x
			}
		}
		return Value{o: &Agg{e}}
	}
	return v
}

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{o: s}
}

// strOf returns a concrete string, or ok=false if symbolic.
func strOf(v Value) (string, bool) {
	switch s := v.o.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strLen(v Value) int {
	switch s := v.o.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v.o))
}

func strByte(v Value, i int) Value {
	switch s := v.o.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strByte")
}

func strBytes(v Value) []Value {
	switch s := v.o.(type) {
	case nil:
		return nil
	case string:
		b := make([]Value, len(s))
		for i := range b {
			b[i] = Value{n: uint64(s[i])}
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes %T", v.o))
}

// mkSymStr copies b.
func mkSymStr(b []Value) Value {
	sym := false
	for _, x := range b {
		if x.o != nil {
			sym = true
			break
		}
	}
	if sym {
		return Value{o: &SymStr{append([]Value(nil), b...)}}
	}
	buf := make([]byte, len(b))
	for i, x := range b {
		buf[i] = byte(x.n)
	}
	return mkStr(string(buf))
}

func subStr(v Value, lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	switch s := v.o.(type) {
	case string:
		return mkStr(s[lo:hi])
	case *SymStr:
		return mkSymStr(s.b[lo:hi])
	}
	return Value{}
}

func mkIface(t *Type, v Value) Value { return Value{o: &Iface{t, v}} }

func isSym(v Value) bool { _, ok := v.o.(*Term); return ok }

func mkBool(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

func mkInt(i int) Value { return Value{n: uint64(int64(i))} }

// norm normalises a concrete integer to its width.
func norm(n uint64, w uint8, sgn bool) uint64 {
	if w >= 64 {
		return n
	}
	if sgn {
		sh := 64 - uint(w)
		return uint64(int64(n<<sh) >> sh)
	}
	return n & (1<<w - 1)
}

var _ = ssa.NaiveForm
