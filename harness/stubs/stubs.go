// Package stubs holds the Go models that replace library functions inside the engine (never in native runs).
// Each is bound to the function named in its //sym:stub line.
package stubs

import (
	"errors"
	"io"
	"reflect"
	"sort"
	"unicode"

	"verif/sym"
)

type stringer interface{ String() string }

func fmtV(spec string, verb byte, x interface{}) string {
	if rv, ok := x.(reflect.Value); ok && verb != 'T' {
		if !rv.IsValid() {
			return "<invalid reflect.Value>"
		}
		return fmtV(spec, verb, sym.Iface(rv))
	}
	if spec == "" {
		switch verb {
		case 'v', 's':
			switch y := x.(type) {
			case nil:
				if verb == 's' {
					return "%!s(<nil>)"
				}
				return "<nil>"
			case string:
				return y
			case error:
				return y.Error()
			case stringer:
				return y.String()
			case []byte:
				if verb == 's' {
					return string(y)
				}
			case int:
				if verb == 'v' {
					return sym.FmtInt(y)
				}
			case bool:
				if verb == 'v' {
					if y {
						return "true"
					}
					return "false"
				}
			}
		case 'd':
			switch y := x.(type) {
			case int:
				return sym.FmtInt(y)
			}
		case 'T':
			return sym.TypeName(x)
		}
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		switch y := x.(type) {
		case error:
			return sym.FmtAny(spec+string(verb), y.Error())
		case stringer:
			return sym.FmtAny(spec+string(verb), y.String())
		}
	}
	if verb == 'v' && (spec == "" || spec == "+") {
		if x != nil {
			return fmtComp(spec, reflect.ValueOf(x), 0)
		}
	}
	return sym.FmtAny(spec+string(verb), x)
}

// fmtComp formats a value the way %v and %+v do.
func fmtComp(spec string, v reflect.Value, depth int) string {
	if depth > 0 {
		if !v.IsValid() {
			return "<nil>"
		}
		if v.CanInterface() {
			switch y := v.Interface().(type) {
			case error:
				return y.Error()
			case stringer:
				return y.String()
			}
		}
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return "<nil>"
		}
		return fmtComp(spec, v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			break
		}
		out := "["
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				out += " "
			}
			out += fmtComp(spec, v.Index(i), depth+1)
		}
		return out + "]"
	case reflect.Map:
		ks := v.MapKeys()
		for i := 1; i < len(ks); i++ {
			for j := i; j > 0 && mapLess(ks[j], ks[j-1]); j-- {
				ks[j], ks[j-1] = ks[j-1], ks[j]
			}
		}
		out := "map["
		for i, k := range ks {
			if i > 0 {
				out += " "
			}
			out += fmtComp(spec, k, depth+1) + ":" + fmtComp(spec, v.MapIndex(k), depth+1)
		}
		return out + "]"
	case reflect.Struct:
		out := "{"
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				out += " "
			}
			if spec == "+" {
				out += t.Field(i).Name + ":"
			}
			f := v.Field(i)
			if f.Kind() == reflect.Interface && !f.IsNil() {
				f = f.Elem()
			}
			out += fmtComp(spec, f, depth+1)
		}
		return out + "}"
	case reflect.Ptr:
		if v.IsNil() {
			return "<nil>"
		}
		if depth == 0 {
			switch k := v.Elem().Kind(); k {
			case reflect.Array, reflect.Slice, reflect.Struct, reflect.Map:
				return "&" + fmtComp(spec, v.Elem(), depth+1)
			}
		}
	}
	return sym.FmtAny("v", sym.Iface(v))
}

func mapLess(a, b reflect.Value) bool {
	if a.Kind() == reflect.Interface {
		a, b = a.Elem(), b.Elem()
	}
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	}
	return false
}

//sym:stub fmt.Sprintf
func Sprintf(format string, a ...interface{}) string {
	out := ""
	n := 0
	i := 0
	reordered := false
	for i < len(format) {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out += format[i:j]
			i = j
			continue
		}
		i++
		j := i
		spec := ""
		for j < len(format) && (format[j] == '#' || format[j] == '+' || format[j] == '-' || format[j] == ' ' || format[j] == '.' || format[j] == '*' || format[j] == '[' || format[j] >= '0' && format[j] <= '9') {
			switch format[j] {
			case '*':
				spec += format[i:j]
				if n < len(a) {
					if w, ok := a[n].(int); ok {
						spec += sym.FmtInt(w)
					}
					n++
				}
				i = j + 1
			case '[':
				spec += format[i:j]
				k := 0
				for j++; j < len(format) && format[j] != ']'; j++ {
					k = k*10 + int(format[j]-'0')
				}
				n = k - 1
				i = j + 1
				reordered = true
			}
			j++
		}
		if j >= len(format) {
			out += "%!(NOVERB)"
			break
		}
		spec += format[i:j]
		verb := format[j]
		i = j + 1
		if verb == '%' {
			out += "%"
			continue
		}
		if verb >= 0x80 {
			return out + sym.FmtAny("!verb", format) // not modelled: an opaque text
		}
		if verb == 'w' {
			verb = 'v'
		}
		if n < 0 || n >= len(a) {
			if reordered {
				out += "%!" + string(verb) + "(BADINDEX)"
			} else {
				out += "%!" + string(verb) + "(MISSING)"
			}
			continue
		}
		out += fmtV(spec, verb, a[n])
		n++
	}
	if n < len(a) && !reordered {
		out += "%!(EXTRA "
		for k, x := range a[n:] {
			if k > 0 {
				out += ", "
			}
			if x == nil {
				out += "<nil>"
			} else {
				out += sym.TypeName(x) + "=" + fmtV("", 'v', x)
			}
		}
		out += ")"
	}
	return out
}

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

//sym:stub fmt.Errorf
func Errorf(format string, a ...interface{}) error {
	s := Sprintf(format, a...)
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		if format[i] == 'w' && n < len(a) {
			if e, ok := a[n].(error); ok {
				return &wrapError{s, e}
			}
		}
		if format[i] != '%' {
			n++
		}
	}
	return errors.New(s)
}

//sym:stub fmt.Append
func Append(b []byte, a ...interface{}) []byte { return append(b, Sprint(a...)...) }

//sym:stub fmt.Appendf
func Appendf(b []byte, format string, a ...interface{}) []byte {
	return append(b, Sprintf(format, a...)...)
}

//sym:stub fmt.Appendln
func Appendln(b []byte, a ...interface{}) []byte { return append(b, Sprintln(a...)...) }

//sym:stub fmt.Sprint
func Sprint(a ...interface{}) string {
	out := ""
	prev := false
	for i, x := range a {
		_, isStr := x.(string)
		if i > 0 && !isStr && !prev {
			out += " "
		}
		out += fmtV("", 'v', x)
		prev = isStr
	}
	return out
}

//sym:stub fmt.Sprintln
func Sprintln(a ...interface{}) string {
	out := ""
	for i, x := range a {
		if i > 0 {
			out += " "
		}
		out += fmtV("", 'v', x)
	}
	return out + "\n"
}

//sym:stub fmt.Print
func Print(a ...interface{}) (n int, err error) { return 0, nil }

//sym:stub fmt.Println
func Println(a ...interface{}) (n int, err error) { return 0, nil }

//sym:stub fmt.Printf
func Printf(format string, a ...interface{}) (n int, err error) { return 0, nil }

//sym:stub fmt.Fprint
func Fprint(w io.Writer, a ...interface{}) (n int, err error) { return fwrite(w, Sprint(a...)) }

//sym:stub fmt.Fprintln
func Fprintln(w io.Writer, a ...interface{}) (n int, err error) { return fwrite(w, Sprintln(a...)) }

//sym:stub fmt.Fprintf
func Fprintf(w io.Writer, format string, a ...interface{}) (n int, err error) {
	return fwrite(w, Sprintf(format, a...))
}

func fwrite(w io.Writer, s string) (int, error) {
	if sym.TypeName(w) == "*os.File" {
		return len(s), nil
	}
	return w.Write([]byte(s))
}

// ---- strings / bytes primitives that are assembly in the real library ----

//sym:stub internal/bytealg.IndexByte
func IndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}

//sym:stub internal/bytealg.IndexByteString
func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

//sym:stub internal/bytealg.LastIndexByte
func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

//sym:stub internal/bytealg.LastIndexByteString
func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

//sym:stub internal/bytealg.Count
func Count(b []byte, c byte) int {
	n := 0
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}

//sym:stub internal/bytealg.CountString
func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

//sym:stub internal/bytealg.Compare
func Compare(a, b []byte) int { return CompareString(string(a), string(b)) }

//sym:stub internal/bytealg.CompareString
func CompareString(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

//sym:stub internal/bytealg.Equal
func Equal(a, b []byte) bool { return string(a) == string(b) }

//sym:stub bytes.Equal
func BytesEqual(a, b []byte) bool { return string(a) == string(b) }

//sym:stub strings.Index
func StrIndex(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

//sym:stub internal/stringslite.Index
func LiteIndex(s, sub string) int { return StrIndex(s, sub) }

//sym:stub bytes.Index
func BytesIndex(s, sub []byte) int { return StrIndex(string(s), string(sub)) }

func inTable(t *unicode.RangeTable, r rune) bool {
	res := false
	for _, x := range t.R16 {
		res = sym.Or(res, inRange(r, uint32(x.Lo), uint32(x.Hi), uint32(x.Stride)))
	}
	for _, x := range t.R32 {
		res = sym.Or(res, inRange(r, x.Lo, x.Hi, x.Stride))
	}
	return res
}

func inRange(r rune, lo, hi, stride uint32) bool {
	if stride == 1 || lo == hi {
		return sym.And(rune(lo) <= r, r <= rune(hi))
	}
	return sym.And(sym.And(rune(lo) <= r, r <= rune(hi)), (uint32(r)-lo)%stride == 0)
}

//sym:stub unicode.IsLetter
func IsLetter(r rune) bool {
	if sym.Known(int(r)) {
		return unicode.Is(unicode.Letter, r)
	}
	return inTable(unicode.Letter, r)
}

//sym:stub unicode.IsDigit
func IsDigit(r rune) bool {
	if sym.Known(int(r)) {
		return unicode.Is(unicode.Digit, r)
	}
	return inTable(unicode.Digit, r)
}

//sym:stub strconv.Itoa
func Itoa(i int) string { return sym.FmtInt(i) }

// ---- errors (the library uses internal/reflectlite) ----

//sym:stub errors.Is
func ErrIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return errIs(err, target, reflect.TypeOf(target).Comparable())
}

func errIs(err, target error, cmp bool) bool {
	for {
		if cmp && reflect.TypeOf(err).Comparable() && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errIs(e, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

//sym:stub errors.As
func ErrAs(err error, target interface{}) bool {
	if err == nil {
		return false
	}
	if target == nil {
		panic("errors: target cannot be nil")
	}
	v := reflect.ValueOf(target)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		panic("errors: target must be a non-nil pointer")
	}
	t := v.Type().Elem()
	if t.Kind() != reflect.Interface && !t.Implements(reflect.TypeOf((*error)(nil)).Elem()) {
		panic("errors: *target must be interface or implement error")
	}
	return errAs(err, target, v, t)
}

func errAs(err error, target interface{}, v reflect.Value, t reflect.Type) bool {
	for {
		if reflect.TypeOf(err).AssignableTo(t) {
			v.Elem().Set(reflect.ValueOf(err))
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && errAs(e, target, v, t) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// ---- sort (the library swaps through internal/reflectlite; the sorting algorithm itself is the real one) ----

type lessSwap struct {
	n    int
	less func(i, j int) bool
	swap func(i, j int)
}

func (s *lessSwap) Len() int           { return s.n }
func (s *lessSwap) Less(i, j int) bool { return s.less(i, j) }
func (s *lessSwap) Swap(i, j int)      { s.swap(i, j) }

//sym:stub sort.Slice
func SortSlice(x interface{}, less func(i, j int) bool) {
	sort.Sort(&lessSwap{reflect.ValueOf(x).Len(), less, Swapper(x)})
}

//sym:stub sort.SliceStable
func SortSliceStable(x interface{}, less func(i, j int) bool) {
	sort.Stable(&lessSwap{reflect.ValueOf(x).Len(), less, Swapper(x)})
}

//sym:stub sort.SliceIsSorted
func SortSliceIsSorted(x interface{}, less func(i, j int) bool) bool {
	for i := reflect.ValueOf(x).Len() - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

// ---- reflect ----

//sym:stub reflect.Swapper
func Swapper(x interface{}) func(i, j int) {
	v := reflect.ValueOf(x)
	if v.Kind() != reflect.Slice {
		panic(&reflect.ValueError{Method: "Swapper", Kind: v.Kind()})
	}
	tmp := reflect.New(v.Type().Elem()).Elem()
	return func(i, j int) {
		a, b := v.Index(i), v.Index(j)
		tmp.Set(a)
		a.Set(b)
		b.Set(tmp)
	}
}

//sym:stub reflect.AppendSlice
func ReflAppendSlice(s, t reflect.Value) reflect.Value {
	if s.Kind() != reflect.Slice || t.Kind() != reflect.Slice {
		panic(&reflect.ValueError{Method: "reflect.AppendSlice", Kind: s.Kind()})
	}
	if s.Type().Elem() != t.Type().Elem() {
		panic("reflect.AppendSlice: " + s.Type().String() + " != " + t.Type().String())
	}
	var xs []reflect.Value
	for i := 0; i < t.Len(); i++ {
		xs = append(xs, t.Index(i))
	}
	return reflect.Append(s, xs...)
}

//sym:stub reflect.Copy
func ReflCopy(dst, src reflect.Value) int {
	n := dst.Len()
	if src.Len() < n {
		n = src.Len()
	}
	tmp := make([]reflect.Value, n)
	for i := 0; i < n; i++ {
		x := reflect.New(dst.Type().Elem()).Elem()
		x.Set(src.Index(i))
		tmp[i] = x
	}
	for i := 0; i < n; i++ {
		dst.Index(i).Set(tmp[i])
	}
	return n
}

//sym:stub reflect.MakeMapWithSize
func ReflMakeMapWithSize(t reflect.Type, n int) reflect.Value { return reflect.MakeMap(t) }

type mapIter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

//sym:stub (reflect.Value).MapRange
func ReflMapRange(v reflect.Value) *mapIter {
	if v.Kind() != reflect.Map {
		panic(&reflect.ValueError{Method: "reflect.Value.MapRange", Kind: v.Kind()})
	}
	return &mapIter{m: v, keys: v.MapKeys(), i: -1}
}

//sym:stub (*reflect.MapIter).Next
func MapIterNext(it *mapIter) bool {
	for it.i++; it.i < len(it.keys); it.i++ {
		if it.m.MapIndex(it.keys[it.i]).IsValid() {
			return true
		}
	}
	return false
}

//sym:stub (*reflect.MapIter).Key
func MapIterKey(it *mapIter) reflect.Value { return it.keys[it.i] }

//sym:stub (*reflect.MapIter).Value
func MapIterValue(it *mapIter) reflect.Value { return it.m.MapIndex(it.keys[it.i]) }

//sym:stub (reflect.Value).CallSlice
func ReflCallSlice(f reflect.Value, in []reflect.Value) []reflect.Value {
	if f.Kind() != reflect.Func || !f.Type().IsVariadic() {
		panic("reflect: CallSlice of non-variadic function")
	}
	n := f.Type().NumIn()
	if len(in) < n {
		panic("reflect: CallSlice with too few input arguments")
	}
	if len(in) > n {
		panic("reflect: CallSlice with too many input arguments")
	}
	last := in[n-1]
	args := append([]reflect.Value(nil), in[:n-1]...)
	for i := 0; i < last.Len(); i++ {
		args = append(args, last.Index(i))
	}
	return f.Call(args)
}

//sym:stub (reflect.Value).SetInt
func ReflSetInt(v reflect.Value, x int64) {
	v.Set(reflect.ValueOf(x).Convert(needKind(v, "SetInt", reflect.Int, reflect.Int64)))
}

//sym:stub (reflect.Value).SetUint
func ReflSetUint(v reflect.Value, x uint64) {
	v.Set(reflect.ValueOf(x).Convert(needKind(v, "SetUint", reflect.Uint, reflect.Uintptr)))
}

//sym:stub (reflect.Value).SetFloat
func ReflSetFloat(v reflect.Value, x float64) {
	v.Set(reflect.ValueOf(x).Convert(needKind(v, "SetFloat", reflect.Float32, reflect.Float64)))
}

//sym:stub (reflect.Value).SetString
func ReflSetString(v reflect.Value, x string) {
	v.Set(reflect.ValueOf(x).Convert(needKind(v, "SetString", reflect.String, reflect.String)))
}

//sym:stub (reflect.Value).SetBool
func ReflSetBool(v reflect.Value, x bool) {
	v.Set(reflect.ValueOf(x).Convert(needKind(v, "SetBool", reflect.Bool, reflect.Bool)))
}

func needKind(v reflect.Value, m string, lo, hi reflect.Kind) reflect.Type {
	if k := v.Kind(); k < lo || k > hi {
		panic(&reflect.ValueError{Method: "reflect.Value." + m, Kind: k})
	}
	return v.Type()
}

//sym:stub (reflect.Value).SetZero
func ReflSetZero(v reflect.Value) { v.Set(reflect.Zero(v.Type())) }

//sym:stub (reflect.Value).SetLen
func ReflSetLen(v reflect.Value, n int) { v.Set(v.Slice(0, n)) }

//sym:stub (reflect.Value).CanInt
func ReflCanInt(v reflect.Value) bool { k := v.Kind(); return k >= reflect.Int && k <= reflect.Int64 }

//sym:stub (reflect.Value).CanUint
func ReflCanUint(v reflect.Value) bool {
	k := v.Kind()
	return k >= reflect.Uint && k <= reflect.Uintptr
}

//sym:stub (reflect.Value).CanFloat
func ReflCanFloat(v reflect.Value) bool {
	k := v.Kind()
	return k == reflect.Float32 || k == reflect.Float64
}

//sym:stub (reflect.Value).CanComplex
func ReflCanComplex(v reflect.Value) bool {
	k := v.Kind()
	return k == reflect.Complex64 || k == reflect.Complex128
}

//sym:stub (reflect.Value).CanConvert
func ReflCanConvert(v reflect.Value, t reflect.Type) bool { return v.Type().ConvertibleTo(t) }

//sym:stub (reflect.Value).Comparable
func ReflComparable(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Invalid:
		return true
	case reflect.Interface:
		return v.IsNil() || ReflComparable(v.Elem())
	}
	return v.Type().Comparable()
}

//sym:stub (reflect.Value).Equal
func ReflEqual(v, u reflect.Value) bool {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if u.Kind() == reflect.Interface {
		u = u.Elem()
	}
	if !v.IsValid() || !u.IsValid() {
		return v.IsValid() == u.IsValid()
	}
	return v.Type() == u.Type() && sym.Iface(v) == sym.Iface(u)
}

//sym:stub (reflect.Value).Bytes
func ReflBytes(v reflect.Value) []byte {
	if v.Kind() != reflect.Slice || v.Type().Elem().Kind() != reflect.Uint8 {
		panic(&reflect.ValueError{Method: "reflect.Value.Bytes", Kind: v.Kind()})
	}
	return sym.Iface(v.Convert(reflect.TypeOf([]byte(nil)))).([]byte)
}

//sym:stub (reflect.Value).FieldByIndex
func ReflFieldByIndex(v reflect.Value, index []int) reflect.Value {
	for i, x := range index {
		if i > 0 && v.Kind() == reflect.Ptr {
			if v.IsNil() {
				panic("reflect: indirection through nil pointer to embedded struct")
			}
			v = v.Elem()
		}
		v = v.Field(x)
	}
	return v
}

//sym:stub (reflect.Value).FieldByName
func ReflFieldByName(v reflect.Value, name string) reflect.Value {
	if f, ok := v.Type().FieldByName(name); ok {
		return ReflFieldByIndex(v, f.Index)
	}
	return reflect.Value{}
}

//sym:stub (reflect.Value).Method
func ReflMethod(v reflect.Value, i int) reflect.Value {
	return v.MethodByName(v.Type().Method(i).Name)
}

//sym:stub (reflect.Value).Clear
func ReflClear(v reflect.Value) {
	switch v.Kind() {
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(reflect.Zero(v.Type().Elem()))
		}
	default:
		panic(&reflect.ValueError{Method: "reflect.Value.Clear", Kind: v.Kind()})
	}
}

// ---- sync ----

type smap struct{ m map[interface{}]interface{} }

var smaps = map[interface{}]*smap{}

func smapOf(p interface{}) *smap {
	m := smaps[p]
	if m == nil {
		m = &smap{map[interface{}]interface{}{}}
		smaps[p] = m
	}
	return m
}

//sym:stub (*sync.Map).Load
func SMLoad(p *struct{}, k interface{}) (interface{}, bool) { v, ok := smapOf(p).m[k]; return v, ok }

//sym:stub (*sync.Map).Store
func SMStore(p *struct{}, k, v interface{}) { smapOf(p).m[k] = v }

//sym:stub (*sync.Map).Delete
func SMDelete(p *struct{}, k interface{}) { delete(smapOf(p).m, k) }

//sym:stub (*sync.Map).LoadOrStore
func SMLoadOrStore(p *struct{}, k, v interface{}) (interface{}, bool) {
	m := smapOf(p).m
	if x, ok := m[k]; ok {
		return x, true
	}
	m[k] = v
	return v, false
}

//sym:stub (*sync.Map).LoadAndDelete
func SMLoadAndDelete(p *struct{}, k interface{}) (interface{}, bool) {
	m := smapOf(p).m
	x, ok := m[k]
	delete(m, k)
	return x, ok
}

//sym:stub (*sync.Map).Range
func SMRange(p *struct{}, f func(k, v interface{}) bool) {
	for k, v := range smapOf(p).m {
		if !f(k, v) {
			return
		}
	}
}

//sym:stub (*sync/atomic.Value).Load
func AVLoad(p *struct{}) interface{} { return smapOf(p).m[0] }

//sym:stub (*sync/atomic.Value).Store
func AVStore(p *struct{}, v interface{}) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	smapOf(p).m[0] = v
}
