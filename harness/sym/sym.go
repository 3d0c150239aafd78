// Package sym is the interface between a harness and the symbolic engine.
//
// The engine replaces every function here by an intrinsic; the bodies below are what the compiled
// harness uses when a counterexample (or a sampled path) is replayed against the real build.
package sym

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

// RTErr stands for runtime.Error inside the engine.
type RTErr struct{ msg string }

func (e RTErr) Error() string { return e.msg }
func (e RTErr) RuntimeError() {}

// NatErr stands for an error value produced by a modelled library function.
type NatErr struct{ msg string }

func (e NatErr) Error() string { return e.msg }

// ---- native state ----

type State struct {
	Vals   map[string]string
	used   map[string]int
	Status string // "", assume, skip, assert
	Msg    string
	Obs    []string
	Tier   int
	N      int
}

var S = &State{Vals: map[string]string{}}

func Reset(vals map[string]string, tier int) {
	S = &State{Vals: vals, used: map[string]int{}, Tier: tier}
}

func val(name string) uint64 {
	u, _ := strconv.ParseUint(raw(name), 10, 64)
	return u
}

func raw(name string) string {
	S.used[name]++
	if k := S.used[name]; k > 1 {
		name = fmt.Sprintf("%s#%d", name, k)
		S.used[name]++
	}
	return S.Vals[name]
}

// ---- registry ----

var Entries = map[string]func(){}

// Register makes entries known to the native replayer.
func Register(fs ...func()) {
	for _, f := range fs {
		n := runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name()
		Entries[n[strings.LastIndexByte(n, '.')+1:]] = f
	}
}

// ---- inputs ----

func Byte(name string) byte       { return byte(val(name)) }
func Int(name string) int         { return int(val(name)) }
func Bool(name string) bool       { return val(name) != 0 }
func Float64(name string) float64 { return math.Float64frombits(val(name)) }
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}
func Rat(name string) *big.Rat {
	r, ok := new(big.Rat).SetString(raw(name))
	if !ok {
		return new(big.Rat)
	}
	return r
}

// Choice is a symbolic integer in [0,n) that the engine forks over.
func Choice(name string, n int) int {
	if n == 1 {
		return 0
	}
	return int(val(name))
}

// ---- outcomes ----

func stop(status, msg string) {
	if S.Status == "" {
		S.Status, S.Msg = status, msg
	}
	runtime.Goexit()
}

func Assume(c bool) {
	if !c {
		stop("assume", "")
	}
}
func Skip() { stop("skip", "") }

// Unsupported ends the path undecided.
func Unsupported(what string) { stop("unsupported", what) }
func Assert(c bool, msg string) {
	S.N++
	if !c {
		stop("assert", msg)
	}
}
func Reach(label string)            {}
func Bound(label string, n int) int { return n }
func Tier() int                     { return S.Tier }
func Observe(label string, v any)   { S.Obs = append(S.Obs, label+"="+Render(v)) }
func Symbolic() bool                { return false }
func StepLimit(n int)               {}
func Concrete(n int) int            { return n }
func Trace(v any)                   {}

// Known reports whether n is a constant to the engine.
func Known(n int) bool         { return true }
func And(a, b bool) bool       { return a && b }
func Or(a, b bool) bool        { return a || b }
func RatEq(a, b *big.Rat) bool { return a.Cmp(b) == 0 }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Same is equality that takes NaN to be equal to itself.
func Same(a, b any) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y)
	}
	if x, ok := a.(complex128); ok {
		y, ok := b.(complex128)
		return ok && Same(real(x), real(y)) && Same(imag(x), imag(y))
	}
	return a == b
}

func FmtInt(n int) string              { return strconv.Itoa(n) }
func FmtAny(verb string, v any) string { return fmt.Sprintf("%"+verb, v) }

// Iface is v.Interface() without the check for unexported fields.
func Iface(v reflect.Value) any { return v.Interface() }
func TypeName(v any) string     { return fmt.Sprintf("%T", v) }

// Render prints v in the canonical form the engine uses.
func Render(v any) string {
	if v == nil {
		return "nil"
	}
	return render(reflect.ValueOf(v))
}

func render(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float64, reflect.Float32:
		f := v.Float()
		if f != f {
			return "NaN"
		}
		return strconv.FormatUint(math.Float64bits(f), 16) + "f"
	case reflect.Complex128, reflect.Complex64:
		c := v.Complex()
		return "(" + Render(real(c)) + "," + Render(imag(c)) + ")"
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Slice, reflect.Array:
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, render(v.Index(i)))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Struct:
		var p []string
		for i := 0; i < v.NumField(); i++ {
			p = append(p, render(v.Field(i)))
		}
		return "{" + strings.Join(p, " ") + "}"
	case reflect.Map:
		var p []string
		for _, k := range v.MapKeys() {
			p = append(p, render(k)+":"+render(v.MapIndex(k)))
		}
		sort.Strings(p)
		return "map[" + strings.Join(p, " ") + "]"
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return render(v.Elem())
	case reflect.Ptr, reflect.Func:
		if v.IsNil() {
			return "nil"
		}
		return "ptr"
	}
	return "?"
}
