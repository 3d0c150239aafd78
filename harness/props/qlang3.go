package props

import (
	"errors"
	"math"
	"reflect"
	"strconv"

	"verif/sym"

	"github.com/qiniu/text/tpl/qlang"
	qcl "github.com/qiniu/text/tpl/qlang/cl"
	"github.com/qiniu/text/tpl/qlang/spec"
)

func qeval(l qlang.Qlang, code string) (v interface{}, failed bool) {
	if l.SafeEval(code) != nil {
		return nil, true
	}
	v, ok := l.Ret()
	sym.Assert(ok, "a script has a value")
	return v, false
}

// ---- Q08: classes ----

const q08Classes = `
A = class {
	fn _init(v) { set(this, "n", v); set(this, "log", []) }
	fn get() { return this.n };
	fn add(d) { set(this, "n", this.n + d); return this }
	fn minus(o) { return this.n - o.get() }
	fn many(a, b...) { return [this.n, a, len(b)] }
	fn twice() { this.add(this.n); return this.get() }
	fn count() { total; total = total + 1; return total }
	fn none() {}
	fn rest(r...) { return r }
	fn later() { me = this; return fn() { return me.n } }
};
B = class {
	fn get() { return base }
	fn minus(o) { return base - o.get() }
};
total = 0
`

type q08obj struct {
	n int
	f map[string]int
}

func Q08_objects() {
	l := newQ()
	base := sym.Int("base")
	l.SetVar("base", base)
	_, failed := qeval(l, q08Classes)
	sym.Assert(!failed, "classes are declared")
	objs := map[string]*q08obj{}
	for _, n := range []string{"p", "q"} {
		v := sym.Int(n)
		l.SetVar("v", v)
		_, failed := qeval(l, n+" = new A(v)")
		sym.Assert(!failed, "an object is made")
		objs[n] = &q08obj{n: v, f: map[string]int{}}
	}
	_, failed = qeval(l, "b = new B; c = new B()")
	sym.Assert(!failed, "an object is made")
	total := 0
	steps := sym.Bound("steps", 2+sym.Tier())
	for i := 0; i < steps; i++ {
		n := []string{"p", "q"}[sym.Choice("object", 2)]
		o := objs[n]
		d := sym.Int("d" + strconv.Itoa(i))
		l.SetVar("d", d)
		code := ""
		var want interface{}
		bad := false
		on, oo := "q", objs["q"]
		if n == "q" {
			on, oo = "p", objs["p"]
		}
		switch sym.Choice("step", 24) {
		case 23:
			code, want = "m = "+n+".rest; x = m(d, 1); y = m(7, 8); x[0] + y[0]", d+7
		case 20:
			o.f["x"] = d
			code, want = "set("+n+", \"x\", 1, \"y\", 2, \"x\", d); "+n+".x + "+n+".y", d+2
			o.f["y"] = 2
		case 21: // nil is a value
			code, want = "set("+n+", \"x\", nil, \"get2\", nil); "+n+".get2; "+n+".x", nil
			delete(o.f, "x")
			code += "; set(" + n + ", \"x\", 0); set(" + n + ", \"x\", nil); " + n + ".x"
			o.f["x"] = -1
			code += " ; x = " + n + ".x; set(" + n + ", \"x\", -1); x"
		case 22: // members of one step of several that cannot be set
			code, bad = "set("+n+", \"x\", d, \"add\", 2)", true
			o.f["x"] = d
		case 18:
			code, want = "m = "+n+".get; "+on+".get(); f = "+on+".get; m() - f()", o.n-oo.n
		case 19:
			oo.n += d
			o.n += oo.n
			code, want = n+".add("+on+".add(d).n).get()", o.n
		case 0:
			code, want = n+".get()", o.n
		case 1:
			o.n += d
			code, want = n+".add(d).get()", o.n
		case 2:
			o.n += d
			code, want = "m = "+n+".add; m(d).n", o.n
		case 3:
			code, want = n+".minus(p)", o.n-objs["p"].n
		case 4:
			code, want = "x = "+n+".many(1, d, d); x[0] - x[1] + x[2]", o.n+1
		case 5:
			o.n += o.n
			code, want = n+".twice()", o.n
		case 6:
			total++
			code, want = n+".count()", total
		case 7:
			code, want = n+".none()", nil
		case 8:
			code, want = "A.get("+n+")", o.n
		case 9:
			o.n = d
			code, want = "set("+n+", \"n\", d); "+n+".n", d
		case 10:
			o.f["x"] = d
			code, want = "set("+n+", \"x\", d); "+n+".x", d
		case 11:
			if v, ok := o.f["x"]; ok {
				want = v
			} else {
				bad = true
			}
			code = n + ".x"
		case 12:
			code, bad = "set("+n+", \"get\", d)", true // a method stays what it is
		case 13:
			code, bad = n+".nosuch()", true
		case 14:
			code, bad = n+".add()", true
		case 15:
			o.n -= 5
			code, want = "set("+n+", \"g\", fn(x) { return x + 1 }); f = "+n+".later(); set("+n+", \"n\", "+n+".n - 5); "+n+".g(1) + f()", o.n+2
		case 16:
			code, want = "b.minus("+n+") + c.get()", base-o.n+base
		case 17:
			code, bad = "A.nosuch", true
		}
		v, failed := qeval(l, code)
		sym.Assert(failed == bad, "a use of an object fails exactly if there is no such member or it is used wrongly")
		if !failed {
			sym.Assert(v == want, "a member has the value it should have")
			sym.Reach("value")
		} else {
			sym.Reach("reported")
		}
	}
	for n, o := range objs {
		v, failed := qeval(l, n+".get()")
		sym.Assert(!failed && v == interface{}(o.n), "objects keep their own state")
	}
	v, _ := l.Var("total")
	sym.Assert(v == interface{}(total), "methods see the variables around their class")
}

func Q08_new() {
	l := newQ()
	_, failed := qeval(l, q08Classes)
	sym.Assert(!failed, "classes are declared")
	k := sym.Choice("new", 14)
	code := []string{"new A(1).n", "o = new A(1); o.get()", "new A", "new A()", "new A(1, 2)", "new nosuch", "x = 3; new x", "new A(nosuch)", "o = new (A)(4); o.n",
		"C = class { fn _init(a...) { set(this, \"n\", len(a)) } }; o = new C(1, 2, 3); o.n", "mk = fn(k) { return class { fn get() { return k } } }; C = mk(3); D = mk(4); o = new C; q = new D; o.get() * 10 + q.get()",
		"p = new A(7); C = class { fn _init() { set(this, \"n\", 34); return p } }; o = new C; o.n", "C = class { fn _init() { set(this, \"n\", 34); return nil } }; o = new C(); o.n", "C = class { fn _init(v) { set(this, \"n\", v); _x = new A(3); return _x } }; o = new C(34); o.n"}[k]
	v, failed := qeval(l, code)
	switch k {
	case 0:
		return // what is a member of a new expression is not said
	case 1:
		sym.Assert(!failed && v == interface{}(1), "the constructor gets the arguments")
	case 8:
		sym.Assert(!failed && v == interface{}(4), "the constructor gets the arguments")
	case 9:
		sym.Assert(!failed && v == interface{}(3), "the constructor gets the arguments")
	case 11, 12, 13:
		sym.Assert(!failed && v == interface{}(34), "what the constructor returns is not the object")
	case 10:
		sym.Assert(!failed && v == interface{}(34), "methods see the variables around their class")
	default:
		sym.Assert(failed, "an object that cannot be made is reported")
	}
	sym.Reach("checked")
}

// ---- Q09: slices and maps ----

// qelem makes a value of a kind in variable name
func qelem(l qlang.Qlang, name string, kind int) interface{} {
	var v interface{}
	switch kind {
	case 0:
		v = sym.Int(name)
	case 1:
		v = sym.Float64(name)
	case 2:
		v = string(sym.Bytes(name, 1))
	case 3:
		v = sym.Bool(name)
	}
	l.SetVar(name, v)
	return v
}

func asF(v interface{}) float64 {
	if n, ok := v.(int); ok {
		return float64(n)
	}
	return v.(float64)
}

func asF0(v interface{}) string { return sym.TypeName(v) }

// kindsOf tells whether all values are ints, numbers, strings
func kindsOf(vs []interface{}) (ints, nums, strs bool) {
	ints, nums, strs = true, true, true
	for _, v := range vs {
		_, i := v.(int)
		_, f := v.(float64)
		_, s := v.(string)
		ints, nums, strs = ints && i, nums && (i || f), strs && s
	}
	return
}

func Q09_slice() {
	l := newQ()
	n := sym.Choice("elements", 1+sym.Bound("elements", 3))
	code := "s = ["
	var vs []interface{}
	for i := 0; i < n; i++ {
		name := "e" + strconv.Itoa(i)
		vs = append(vs, qelem(l, name, sym.Choice(name+" kind", 5)))
		if i > 0 {
			code += ", "
		}
		code += name
	}
	if n > 0 && sym.Choice("comma", 2) == 1 {
		code += ","
	}
	s, failed := qeval(l, code+"]")
	sym.Assert(!failed, "a slice is made of its elements")
	o := reflect.ValueOf(s)
	sym.Assert(o.Kind() == reflect.Slice && o.Len() == n, "a slice has the elements it is made of")
	ints, nums, strs := kindsOf(vs)
	typ := reflect.TypeOf([]interface{}{})
	switch {
	case n == 0:
	case ints:
		typ = reflect.TypeOf([]int{})
	case nums:
		typ = reflect.TypeOf([]float64{})
	case strs:
		typ = reflect.TypeOf([]string{})
	}
	sym.Assert(o.Type() == typ, "a slice has the type its elements have in common")
	for i := range vs {
		v := o.Index(i).Interface()
		if n > 0 && nums && !ints {
			sym.Assert(sym.Same(v, asF(vs[i])), "a slice has the elements it is made of")
		} else {
			sym.Assert(sym.Same(v, vs[i]), "a slice has the elements it is made of")
		}
	}
	// any element
	i := sym.Int("i")
	l.SetVar("i", i)
	v, failed := qeval(l, "s[i]")
	sym.Assert(failed == sym.Or(i < 0, i >= n), "an index is reported exactly if there is no such element")
	if !failed {
		want := o.Index(i).Interface()
		sym.Assert(sym.Same(v, want), "an index selects the element")
		sym.Reach("element")
	}
	// any part
	j := sym.Int("j")
	l.SetVar("j", j)
	form := sym.Choice("part", 4)
	v, failed = qeval(l, []string{"s[i:j]", "s[i:]", "s[:j]", "s[:]"}[form])
	if form > 1 {
		i = 0
	}
	if form&1 == 1 {
		j = n
	}
	if form == 0 || form == 2 {
		sym.Assume(j <= n) // whether a part can reach beyond the end is not said
	}
	sym.Assert(failed == sym.Or(i < 0, i > j), "a part is reported exactly if there is none")
	if !failed {
		o2 := reflect.ValueOf(v)
		sym.Assert(o2.Type() == o.Type() && o2.Len() == j-i, "a part has the elements between its ends")
		for k := 0; k < o2.Len(); k++ {
			sym.Assert(sym.Same(o2.Index(k).Interface(), o.Index(i+k).Interface()), "a part has the elements between its ends")
		}
		sym.Reach("part")
	}
	v, failed = qeval(l, "len(s)")
	sym.Assert(!failed && v == interface{}(n), "the length is the number of elements")
}

// a part of a part
func Q09_part() {
	l := newQ()
	l.SetVar("i", 0)
	lit := []string{"[1, 2, 3]", "[1, 2.5, 3]", "[1, nil, \"a\"]"}[sym.Choice("slice", 3)]
	i, j := sym.Int("i"), sym.Int("j")
	sym.Assume(i >= 0)
	sym.Assume(i <= j)
	sym.Assume(j <= 3)
	l.SetVar("i", i)
	l.SetVar("j", j)
	v, failed := qeval(l, "s = "+lit+"; t = s[i:j]; s")
	sym.Assert(!failed, "a part is made")
	o := reflect.ValueOf(v)
	k := sym.Int("k")
	l.SetVar("k", k)
	switch form := sym.Choice("use", 6); form {
	case 0:
		v, failed = qeval(l, "t[k]")
		sym.Assert(failed == sym.Or(k < 0, k >= j-i), "an index is reported exactly if there is no such element")
		if !failed {
			sym.Assert(sym.Same(v, o.Index(i+k).Interface()), "an index selects the element")
			sym.Reach("element")
		}
	case 1, 2:
		v, failed = qeval(l, []string{"t[k:]", "t[:]"}[form-1])
		if form == 2 {
			k = 0
		}
		sym.Assert(failed == sym.Or(k < 0, k > j-i), "a part is reported exactly if there is none")
		if !failed {
			o2 := reflect.ValueOf(v)
			sym.Assert(o2.Type() == o.Type() && o2.Len() == j-i-k, "a part has the elements between its ends")
			for x := 0; x < o2.Len(); x++ {
				sym.Assert(sym.Same(o2.Index(x).Interface(), o.Index(i+k+x).Interface()), "a part has the elements between its ends")
			}
			sym.Reach("part")
		}
	case 3:
		v, failed = qeval(l, "len(t)")
		sym.Assert(!failed && v == interface{}(j-i), "the length is the number of elements")
	case 4:
		v, failed = qeval(l, "set(t, k, s[2]); s")
		sym.Assert(failed == sym.Or(k < 0, k >= j-i), "an element is set exactly if there is one")
		if !failed {
			o2 := reflect.ValueOf(v)
			for x := 0; x < 3; x++ {
				want := x
				if x == i+k {
					want = 2
				}
				sym.Assert(sym.Same(o2.Index(x).Interface(), o.Index(want).Interface()), "an element is set, the others stay what they are")
			}
		}
	case 5:
		v, failed = qeval(l, "append(t, s[0])")
		sym.Assert(!failed, "values are appended exactly if they fit")
		o2 := reflect.ValueOf(v)
		sym.Assert(o2.Type() == o.Type() && o2.Len() == j-i+1, "append adds the values at the end")
	}
}

// changing slices
func Q09_change() {
	l := newQ()
	lit := []string{"[1, 2, 3]", "[1, 2, 3.5]", "[\"a\", \"b\", \"c\"]", "[1, \"b\", nil]"}[sym.Choice("slice", 4)]
	_, failed := qeval(l, "s = "+lit)
	sym.Assert(!failed, "a slice is made")
	s, _ := l.Var("s")
	var vs []interface{}
	for i := 0; i < 3; i++ {
		vs = append(vs, reflect.ValueOf(s).Index(i).Interface())
	}
	v := qelem(l, "v", sym.Choice("value", 5))
	fits := false
	var elem interface{} = v
	switch s.(type) {
	case []int:
		_, fits = v.(int)
	case []float64:
		_, fits = v.(float64)
	case []string:
		_, fits = v.(string)
	default:
		fits = true
	}
	switch sym.Choice("change", 4) {
	case 3:
		if v == nil && !fits {
			return // what is set then is not said
		}
		_, failed := qeval(l, "set(s, 0, s[1], 2, s[1], 0, v, 1, s[0])")
		sym.Assert(failed == !fits, "elements are set one after the other")
		if fits {
			vs[0], vs[2], vs[1] = elem, vs[1], vs[0]
		} else {
			vs[0], vs[2] = vs[1], vs[1]
		}
	case 0:
		if v == nil && !fits {
			return // what is set then is not said
		}
		i := sym.Int("i")
		l.SetVar("i", i)
		_, failed := qeval(l, "set(s, i, v)")
		sym.Assert(failed == sym.Or(!fits, sym.Or(i < 0, i >= 3)), "an element is set exactly if there is one and the value fits")
		if !failed {
			vs[i] = elem
			sym.Reach("set")
		}
	case 1:
		if _, ok := s.([]float64); ok {
			if n, ok := v.(int); ok {
				fits, elem = true, float64(n)
			}
		}
		if v == nil && !fits {
			return // what is appended then is not said
		}
		r, failed := qeval(l, "append(s, v, v)")
		sym.Assert(failed == !fits, "values are appended exactly if they fit")
		if !failed {
			o := reflect.ValueOf(r)
			sym.Assert(o.Type() == reflect.TypeOf(s) && o.Len() == 5, "append adds the values at the end")
			for i := 0; i < 5; i++ {
				want := elem
				if i < 3 {
					want = vs[i]
				}
				sym.Assert(sym.Same(o.Index(i).Interface(), want), "append adds the values at the end")
			}
			sym.Reach("append")
		}
	case 2:
		_, failed := qeval(l, "t = s[1:]; set(t, 0, s[2], 1, s[2])")
		sym.Assert(!failed, "elements are set")
		vs[1] = vs[2]
	}
	s2, _ := l.Var("s")
	o := reflect.ValueOf(s2)
	sym.Assert(o.Len() == 3, "a slice keeps its length")
	for i := range vs {
		sym.Assert(sym.Same(o.Index(i).Interface(), vs[i]), "the other elements stay what they are")
	}
}

func Q09_map() {
	l := newQ()
	n := sym.Choice("entries", 1+sym.Bound("entries", 2))
	ik := sym.Choice("keys", 2) == 1
	keys := []interface{}{}
	vs := []interface{}{}
	code := "m = {"
	for i := 0; i < n; i++ {
		kn, vn := "k"+strconv.Itoa(i), "v"+strconv.Itoa(i)
		if ik {
			keys = append(keys, qelem(l, kn, 0))
		} else {
			keys = append(keys, qelem(l, kn, 2))
		}
		vs = append(vs, qelem(l, vn, sym.Choice(vn+" kind", 5)))
		if i > 0 {
			code += ", "
		}
		code += kn + ": " + vn
	}
	_, failed := qeval(l, code+"}; nil")
	sym.Assert(!failed, "a map is made of its entries")
	m, _ := l.Var("m")
	o := reflect.ValueOf(m)
	size := n
	if n == 2 && keys[0] == keys[1] {
		size = 1
		vs[0] = vs[1]
	}
	ints, nums, strs := true, true, true
	if n > 0 {
		all := append([]interface{}{}, vs[:n]...)
		ints, nums, strs = kindsOf(all)
	}
	sym.Assert(o.Kind() == reflect.Map && o.Len() == size, "a map has the entries it is made of")
	if n > 0 && size == n {
		et := reflect.TypeOf((*interface{})(nil)).Elem()
		switch {
		case ints:
			et = reflect.TypeOf(0)
		case nums:
			et = reflect.TypeOf(0.5)
		case strs:
			et = reflect.TypeOf("")
		}
		sym.Assert(o.Type().Key() == reflect.TypeOf(keys[0]) && o.Type().Elem() == et, "a map has the types its keys and values have in common")
	}
	var k interface{}
	if ik || n == 0 && sym.Choice("key", 2) == 1 {
		k = qelem(l, "k", 0)
	} else {
		k = qelem(l, "k", 2)
	}
	if n == 0 {
		if _, ok := k.(int); ok {
			return // an empty map has strings as keys
		}
	}
	found := -1
	for i := range keys {
		if keys[i] == k {
			found = i
		}
	}
	v, failed := qeval(l, "m[k]")
	sym.Assert(!failed, "a key can be looked up")
	if found >= 0 {
		w := vs[found]
		if nums && !ints && size == n {
			w = asF(w)
		}
		sym.Assert(sym.Same(v, w) || size < n, "a key selects the value of its entry")
		sym.Reach("found")
	} else {
		sym.Assert(v == spec.Undefined, "a key that is not there is undefined")
		sym.Reach("undefined")
	}
	switch sym.Choice("change", 4) {
	case 3: // one after the other
		w := reflect.Zero(o.Type().Elem()).Interface()
		if w == nil {
			w = 7
		}
		l.SetVar("w", w)
		if sym.Choice("last", 2) == 0 {
			_, failed = qeval(l, "set(m, k, w, k, undefined)")
			sym.Assert(!failed, "an entry can be deleted")
			if found >= 0 {
				size--
			}
			v, _ = qeval(l, "m[k]")
			sym.Assert(v == spec.Undefined, "a deleted entry is undefined")
			break
		}
		_, failed = qeval(l, "set(m, k, undefined, k, w)")
		sym.Assert(!failed, "an entry can be set")
		if found < 0 {
			size++
		}
		v, _ = qeval(l, "m[k]")
		sym.Assert(sym.Same(v, w), "a key selects the value that was set last")
	case 0:
		_, failed = qeval(l, "delete(m, k)")
		sym.Assert(!failed, "an entry can be deleted")
		if found >= 0 {
			size--
		}
		v, _ = qeval(l, "m[k]")
		sym.Assert(v == spec.Undefined, "a deleted entry is undefined")
	case 1:
		_, failed = qeval(l, "set(m, k, undefined)")
		sym.Assert(!failed, "an entry can be deleted")
		if found >= 0 {
			size--
		}
		v, _ = qeval(l, "m[k]")
		sym.Assert(v == spec.Undefined, "a deleted entry is undefined")
	case 2:
		w := reflect.Zero(o.Type().Elem()).Interface()
		if w == nil {
			w = 7
		}
		l.SetVar("w", w)
		_, failed = qeval(l, "set(m, k, w)")
		sym.Assert(!failed, "an entry can be set")
		if found < 0 {
			size++
		}
		v, _ = qeval(l, "m[k]")
		sym.Assert(sym.Same(v, w), "a key selects the value that was set last")
	}
	v, failed = qeval(l, "len(m)")
	sym.Assert(!failed && v == interface{}(size), "the length is the number of entries")
	// members
	_, failed = qeval(l, "set(n = mkmap(\"string:int\"), \"a\", 3); n.b")
	sym.Assert(failed, "a member that is not there is reported")
}

// assignments to several variables, and to one with an operator
func Q09_assign() {
	p := newQtest()
	n := 2 + sym.Choice("variables", 2)
	k := 1 + sym.Choice("values", 4)
	names := []string{"x", "y", "z"}[:n]
	for _, v := range names {
		p.set(v, sym.Int(v))
	}
	m := nd("massign", nd("slice"))
	m.args = names
	for i := 0; i < k; i++ {
		j := sym.Choice("value", 4)
		e := qint(5)
		if j < n {
			e = qvar(names[j])
		} else if j == 3 {
			e = nd("slice", qint(1), qvar("x"))
		}
		m.kids[0].kids = append(m.kids[0].kids, e)
	}
	p.run(m)
	op := nd([]string{"+=", "-=", "*=", "/=", "%="}[sym.Choice("operator", 5)], qlog(1, nd("+", qvar("y"), qint(1))))
	op.s = []string{"x", "nosuch"}[sym.Choice("target", 2)]
	_, failed := p.run(qdoc(op))
	if failed {
		sym.Reach("reported")
	} else {
		sym.Reach("value")
	}
}

// a variable that is assigned twice has the value that comes last
func Q09_twice() {
	p := newQtest()
	n := 2 + sym.Choice("variables", 2)
	names := [][]string{{"x", "x", "y"}, {"x", "y", "x"}, {"y", "x", "x"}}[sym.Choice("names", 3)][:n]
	p.set("x", sym.Int("x"))
	p.set("y", sym.Int("y"))
	m := nd("massign", nd("slice"))
	m.args = names
	for i := 0; i < n; i++ {
		m.kids[0].kids = append(m.kids[0].kids, []*qn{qvar("x"), qvar("y"), qint(5 + i)}[sym.Choice("value", 3)])
	}
	if sym.Choice("in a function", 2) == 1 {
		m = qcall(qfn(qdoc(qset("_z", nd("slice", qvar("x"), qvar("y"))), m, nd("return", nd("slice", qvar("x"), qvar("y"))))))
	}
	p.run(m)
	sym.Reach("value")
}

// elements of slices of any type are assigned as they are
func Q09_typed() {
	l := newQ()
	n := sym.Int("n")
	f := sym.Float64("f")
	ss := [][2]interface{}{{int64(n), int64(7)}, {uint16(n), uint16(3)}, {float32(1.5), float32(2.5)}, {byte(n), byte(2)}, {string(sym.Bytes("s", 1)), "b"}, {f, 2.5}, {n > 3, false}, {n, nil}, {int8(n), int8(1)}}
	vs := []interface{}{[]int64{int64(n), 7}, []uint16{uint16(n), 3}, []float32{1.5, 2.5}, []byte{byte(n), 2}, []string{ss[4][0].(string), "b"}, []float64{f, 2.5}, []bool{n > 3, false}, []interface{}{n, nil}, []int8{int8(n), 1}}
	k := sym.Choice("type", len(vs)+3)
	if k >= len(vs) { // no slices
		l.SetVar("s", []interface{}{[2]int{n, 1}, map[int]int{0: 1, 1: 2}, "ab"}[k-len(vs)])
		_, failed := qeval(l, "x, y = s")
		sym.Assert(failed, "only the elements of a slice can be assigned")
		sym.Reach("reported")
		return
	}
	l.SetVar("s", vs[k])
	code := []string{"x, y = s", "x = s[0]; y = s[1]", "f = fn() { x, y = s; return [x, y] }; r = f(); x = r[0]; y = r[1]"}[sym.Choice("form", 3)]
	_, failed := qeval(l, code)
	sym.Assert(!failed, "the elements of a slice can be assigned")
	if code[0] == 'f' {
		sym.Reach("in a function")
		return
	}
	for i, name := range []string{"x", "y"} {
		v, ok := l.Var(name)
		sym.Assert(ok && sym.TypeName(v) == sym.TypeName(ss[k][i]) && sym.Same(v, ss[k][i]), "a variable holds the element that was assigned")
	}
	sym.Reach("assigned")
}

// ---- Q10: host functions and values ----

type Q10one struct{ N int }

func (p *Q10one) Get(d int) int {
	if p == nil {
		return -d
	}
	return p.N + d
}

type Q10val struct{ N int }

func (p Q10val) Get(d int) int { return p.N + d }

type Q10fn func(int) int

func (f Q10fn) Get(d int) int { return f(d) }

type Q10map map[string]int

// members of all kinds of host objects
func Q10_kinds() {
	l := newQ()
	n, d := sym.Int("n"), sym.Int("d")
	k := sym.Choice("object", 8)
	o := []interface{}{&Q10one{n}, (*Q10one)(nil), Q10val{n}, &Q10val{n}, Q10fn(func(d int) int { return n + d }), Q10map{"get": n}, map[string]interface{}{"get": func(d int) int { return n + d }}, map[string]func(int) int{"n": func(d int) int { return n + d }}}[k]
	l.SetVar("o", o)
	l.SetVar("d", d)
	code := []string{"o.get(d)", "f = o.get; f(d)", "o.n"}[sym.Choice("use", 3)]
	v, failed := qeval(l, code)
	if code == "o.n" {
		switch k {
		case 0, 2, 3:
			sym.Assert(!failed && v == interface{}(n), "a field has its value")
		case 7:
			sym.Assert(!failed, "a member of a map has its value")
		default:
			sym.Assert(failed, "what is no member is reported")
		}
		sym.Reach("field")
		return
	}
	switch k {
	case 5, 7:
		sym.Assert(failed, "what is no member, or no function, is reported")
		sym.Reach("reported")
		return
	case 1:
		sym.Assert(!failed && v == interface{}(-d), "a method is called on its object, even if that is nil")
	default:
		sym.Assert(!failed && v == interface{}(n+d), "a method is called on its object")
	}
	sym.Reach("method")
}

type Q10obj struct {
	N   int
	Sub *Q10obj
}

func (p *Q10obj) Add(d int) int       { p.N += d; return p.N }
func (p *Q10obj) Get() int            { return p.N }
func (p *Q10obj) Pair() (int, string) { return p.N, "b" }
func (p *Q10obj) None()               { p.N++ }
func (p *Q10obj) Sum(a float64, b ...int) float64 {
	for _, x := range b {
		a += float64(x)
	}
	return a
}

func Q10_results() {
	l := newQ()
	n := sym.Int("n")
	f := sym.Float64("f")
	s := string(sym.Bytes("s", 1))
	e := errors.New("e")
	fs := []interface{}{
		func() int { return n },
		func() int8 { return int8(n) },
		func() int16 { return int16(n) },
		func() int32 { return int32(n) },
		func() int64 { return int64(n) },
		func() uint { return uint(n) },
		func() uint16 { return uint16(n) },
		func() uintptr { return uintptr(n) },
		func() uint32 { return uint32(n) },
		func() uint64 { return uint64(n) },
		func() float64 { return f },
		func() float32 { return 1.5 },
		func() string { return s },
		func() bool { return n > 5 },
		func() error { return e },
		func() error { return nil },
		func() interface{} { return n },
		func() interface{} { return nil },
		func() {},
		func() (int, string) { return n, s },
		func() (int8, error) { return int8(n), nil },
		func() (float32, bool, int64) { return 2.5, true, int64(n) },
	}
	wants := []interface{}{n, n, n, n, n, n, n, n, n, n, f, 1.5, s, n > 5, e, nil, n, nil, nil, []interface{}{n, s}, []interface{}{n, nil}, []interface{}{2.5, true, n}}
	k := sym.Choice("function", len(fs))
	limits := map[int][2]int{1: {-128, 127}, 2: {-32768, 32767}, 3: {-1 << 31, 1<<31 - 1}, 5: {0, 1<<63 - 1}, 6: {0, 65535}, 7: {0, 1<<63 - 1}, 8: {0, 1<<32 - 1}, 9: {0, 1<<63 - 1}, 20: {-128, 127}}
	if lim, ok := limits[k]; ok { // what such an integer can be
		sym.Assume(n >= lim[0])
		sym.Assume(n <= lim[1])
	}
	l.SetVar("f", fs[k])
	code := []string{"f()", "x = f()", "[1, f()][1]"}[sym.Choice("use", 2)]
	v, failed := qeval(l, code)
	sym.Assert(!failed, "a function of the host can be called")
	if w, ok := wants[k].([]interface{}); ok {
		vs, ok := v.([]interface{})
		sym.Assert(ok && len(vs) == len(w), "several results are a slice")
		for i := range w {
			sym.Assert(sym.Same(vs[i], w[i]), "the results are those of the function")
		}
		sym.Reach("several")
		return
	}
	sym.Assert(sym.TypeName(v) == sym.TypeName(wants[k]), "integers of any size are integers, floats of any size are floats")
	sym.Assert(sym.Same(v, wants[k]), "the result is that of the function")
	sym.Reach("one")
}

func Q10_args() {
	l := newQ()
	var got []interface{}
	fs := []interface{}{
		func(a int, b string) { got = append(got, a, b) },
		func(a float64) { got = append(got, a) },
		func(a interface{}, b ...interface{}) { got = append(append(got, a), b...) },
		func(a ...float64) {
			for _, x := range a {
				got = append(got, x)
			}
		},
		func(a ...int) {
			for _, x := range a {
				got = append(got, x)
			}
		},
		func(a func(...interface{}) interface{}) {},
		func(a interface{}, b float64, c ...int) {
			got = append(got, a, b)
			for _, x := range c {
				got = append(got, x)
			}
		},
	}
	k := sym.Choice("function", len(fs))
	l.SetVar("f", fs[k])
	n := sym.Choice("arguments", 4)
	var vs []interface{}
	code := "f("
	for i := 0; i < n; i++ {
		name := "a" + strconv.Itoa(i)
		vs = append(vs, qelem(l, name, sym.Choice(name+" kind", 5)))
		if i > 0 {
			code += ", "
		}
		code += name
	}
	_, failed := qeval(l, code+")")
	ok := true
	want := append([]interface{}{}, vs...)
	ints, nums, _ := kindsOf(vs)
	switch k {
	case 0:
		ok = n == 2
		if ok {
			_, ok1 := vs[0].(int)
			_, ok2 := vs[1].(string)
			ok = ok1 && ok2
		}
	case 1, 3:
		ok = nums && (n == 1 || k == 3)
		if ok {
			for i := range want {
				want[i] = asF(want[i])
			}
		}
	case 2:
		ok = n > 0
	case 4:
		ok = ints
	case 5:
		ok = false
	case 6:
		ok = n >= 2
		if ok {
			_, ok1, _ := kindsOf(vs[1:2])
			ok2, _, _ := kindsOf(vs[2:])
			if ok = ok1 && ok2; ok {
				want[1] = asF(want[1])
			}
		}
	}
	sym.Assert(failed == !ok, "a call fails exactly if number or types of the arguments are wrong")
	if failed {
		sym.Assert(len(got) == 0, "a call that fails does not happen")
		sym.Reach("reported")
		return
	}
	sym.Assert(len(got) == len(want), "a function gets its arguments in order")
	for i := range want {
		sym.Assert(sym.Same(got[i], want[i]), "a function gets its arguments in order")
	}
	sym.Reach("called")
}

func Q10_failure() {
	l := newQ()
	e := errors.New("why")
	k := sym.Choice("failure", 5)
	l.SetVar("f", func() int {
		switch k {
		case 0:
			panic("why")
		case 1:
			panic(e)
		case 2:
			panic(7)
		case 3:
			var m map[string]int
			m["a"] = 1
		}
		return 3
	})
	code := []string{"f()", "g = fn() { return f() }; g()", "g = fn() { defer fn() { r = recover() }(); f() }; g()", "[1, f()]"}[sym.Choice("use", 4)]
	var err error
	var pan interface{}
	func() {
		defer func() { pan = recover() }()
		err = l.SafeEval(code)
	}()
	switch {
	case k == 4:
		sym.Assert(err == nil && pan == nil, "a function of the host can be called")
	case code[len(code)-1] == ')' && len(code) > 30:
		sym.Assert(err == nil && pan == nil, "a script can recover from a failure of the host")
		sym.Reach("recovered")
	case k == 2:
		sym.Assert(err == nil && pan == interface{}(7), "a panic that is no error is passed on")
	default:
		sym.Assert(err != nil && pan == nil, "a failure of the host is reported")
		sym.Reach("reported")
	}
	// whatever happened, the next script runs
	v, failed := qeval(l, "1 + 2")
	sym.Assert(!failed && v == interface{}(3), "the next script runs")
}

func Q10_members() {
	l := newQ()
	n, d := sym.Int("n"), sym.Int("d")
	o := &Q10obj{N: n, Sub: &Q10obj{N: d}}
	auto := sym.Choice("auto call", 2) == 1
	if auto {
		qlang.SetAutoCall(reflect.TypeOf(o))
	}
	defer func() { delete(spec.AutoCall, reflect.TypeOf(o)) }()
	l.SetVar("o", o)
	l.SetVar("d", d)
	k := sym.Choice("use", 11)
	v, failed := qeval(l, []string{"o.n", "o.add(d)", "m = o.add; m(d) + m(d)", "o.sub.n", "o.sum(1, 2, 3)", "o.nosuch", "o.add()", "o.sub.sub == nil", "o.get", "x, y = o.pair; [y, x]", "o.none; 5"}[k])
	sym.Assert(failed == (k == 5 || k == 6 || k == 9 && !auto), "members of host objects can be used")
	switch k {
	case 0:
		sym.Assert(v == interface{}(n), "a field has its value")
	case 1:
		sym.Assert(v == interface{}(n+d) && o.N == n+d, "a method is called on its object")
	case 2:
		sym.Assert(v == interface{}(n+d+n+d+d) && o.N == n+d+d, "a method value is called on its object")
	case 3:
		sym.Assert(v == interface{}(d), "a field has its value")
	case 4:
		sym.Assert(v == interface{}(6.0), "a method gets its arguments")
	case 9:
		if auto {
			r, ok := v.([]interface{})
			sym.Assert(ok && len(r) == 2 && r[0] == "b" && r[1] == n, "a method without parameters is called where that is asked for")
		}
	case 10:
		if auto {
			sym.Assert(v == interface{}(5) && o.N == n+1, "a method without parameters is called where that is asked for")
		} else {
			sym.Assert(v == interface{}(5) && o.N == n, "a method is a value")
		}
	case 8:
		if auto {
			sym.Assert(v == interface{}(n), "a method without parameters is called where that is asked for")
		} else {
			f, ok := v.(func() int)
			sym.Assert(ok && f() == n, "a method is a value")
		}
	}
	sym.Reach("checked")
}

// ---- Q11: modules ----

func Q11_import() {
	type T = map[string]interface{}
	defer func() {
		for _, n := range []string{"mod1", "mod2", "_x", "_y"} {
			delete(spec.Fntable, n)
		}
		spec.SafeMode = false
	}()
	f := func(n int) T {
		return T{"get": func() int { return n }, "n": n, "danger": func() int { return -n }}
	}
	try := func(mod string, t T) (bad bool) {
		defer func() {
			if e := recover(); e != nil {
				_, ok := e.(string)
				sym.Assert(ok, "a name that is taken is reported")
				bad = true
			}
		}()
		qlang.Import(mod, t)
		return
	}
	spec.SafeMode = sym.Choice("safe", 2) == 1
	n := sym.Int("n")
	t := f(n)
	hook := sym.Choice("hook", 3)
	var hooked T
	switch hook {
	case 1:
		t["_initSafe"] = func(m map[string]interface{}, dummy func(...interface{}) interface{}) {
			hooked = m
			m["danger"] = dummy
		}
	case 2:
		t["_initSafe"] = 1
	}
	bad := try("mod1", t)
	sym.Assert(bad == (spec.SafeMode && hook == 2), "a module without a usable safe initialiser is rejected in safe mode")
	if bad {
		return
	}
	l := newQ()
	v, failed := qeval(l, "mod1.get()")
	sym.Assert(!failed && v == interface{}(n), "a module's function can be called")
	v, failed = qeval(l, "mod1.n")
	sym.Assert(!failed && v == interface{}(n), "a module's value can be used")
	v, failed = qeval(l, "mod1.danger()")
	if spec.SafeMode && hook == 1 {
		sym.Assert(failed && hooked != nil, "in safe mode a module decides what it offers")
	} else {
		sym.Assert(!failed && v == interface{}(-n) && hooked == nil, "a module's function can be called")
	}
	_, failed = qeval(l, "mod1."+[]string{"nosuch", "N", "Get", "ge", "_n", "class"}[sym.Choice("other", 6)])
	sym.Assert(failed, "what a module does not have is reported")
	if k := sym.Choice("hide", 8); k > 0 { // a name that a script uses for something else stands for the module everywhere else
		own := []string{"mod1 = 5", "mod1, y = [5, 6]", "f = fn() { mod1 = 5; return mod1 }; f()", "f = fn(mod1) { return mod1 }; f(5)", "unset(\"mod1\"); 5", "mod1++", "mod1 += 5"}[k-1]
		v, failed = qeval(l, own)
		sym.Assert(failed == (k > 5), "the name of a module is free for variables")
		if !failed && k != 2 {
			sym.Assert(v == interface{}(5), "the name of a module is free for variables")
		}
		if k < 3 {
			v, failed = qeval(l, "mod1")
			sym.Assert(!failed && v == interface{}(5), "the name of a module is free for variables")
			l = newQ()
		}
		v, failed = qeval(l, "mod1.n")
		sym.Assert(!failed && v == interface{}(n), "a variable does not replace the module")
		sym.Reach("hidden")
	}
	sym.Assert(try("mod1", f(n+1)), "a module that exists is not replaced")
	v, failed = qeval(l, "mod1.get()")
	sym.Assert(!failed && v == interface{}(n), "a module that exists is not replaced")
	sym.Assert(!try("mod2", f(n+2)), "another module can be imported")
	v, failed = qeval(l, "mod2.get() - mod1.get()")
	sym.Assert(!failed && v == interface{}(2), "modules are separate")
	// symbols without a module
	name := []string{"_x", "len", "$add", "mod1", "$_y"}[sym.Choice("name", 5)]
	if name[0] == '$' {
		defer delete(spec.Fntable, "$_y")
	}
	bad = try("", T{name: n})
	sym.Assert(bad == (name == "len" || name == "$add" || name == "mod1"), "a symbol that exists is not replaced")
	if name == "_x" {
		v, failed = qeval(l, "_x")
		sym.Assert(!failed && v == interface{}(n), "a symbol can be used")
		v, failed = qeval(l, "f = fn() { return _x }; f()")
		sym.Assert(!failed && v == interface{}(n), "a symbol can be used anywhere")
	}
	v, failed = qeval(l, "len([1, 2]) + 1")
	sym.Assert(!failed && v == interface{}(3), "the others stay what they are")
	sym.Reach("checked")
}

// ---- Q13: builtin functions ----

func Q13_convert() {
	l := newQ()
	a := qvalue("a", sym.Choice("kind", 6))
	l.SetVar("a", a)
	fn := []string{"int", "float", "byte", "string", "len", "type"}[sym.Choice("function", 6)]
	if f, ok := a.(float64); ok { // conversions that lose the value are not said
		sym.Assume(f == math.Floor(f))
		sym.Assume(f >= 0)
		sym.Assume(f <= 255)
	}
	v, failed := qeval(l, fn+"(a)")
	var want interface{}
	ok := true
	switch fn {
	case "int":
		switch a := a.(type) {
		case int:
			want = a
		case float64:
			want = int(a)
		case byte:
			want = int(a)
		default:
			ok = false
		}
	case "float":
		switch a := a.(type) {
		case int:
			want = float64(a)
		case float64:
			want = a
		case byte:
			want = float64(a)
		default:
			ok = false
		}
	case "byte":
		switch a := a.(type) {
		case int:
			want = byte(a)
		case float64:
			want = byte(int(a))
		case byte:
			want = a
		default:
			ok = false
		}
	case "string":
		switch a := a.(type) {
		case byte:
			want = string(rune(a))
		case int:
			sym.Assume(a >= 0)
			sym.Assume(a < 256)
			v, failed = qeval(l, fn+"(a)")
			want = string(rune(a))
		default:
			ok = false
		}
	case "len":
		switch a := a.(type) {
		case string:
			want = len(a)
		case nil:
			want = 0
		default:
			ok = false
		}
	case "type":
		sym.Assert(!failed, "a value has a type")
		if a != nil {
			sym.Assert(v == interface{}(reflect.TypeOf(a)), "the type is that of the value")
		}
		return
	}
	sym.Assert(failed == !ok, "a conversion fails exactly where there is none")
	if ok {
		sym.Assert(sym.TypeName(v) == sym.TypeName(want), "a conversion has the type it should have")
		sym.Assert(sym.Same(v, want), "a conversion keeps the value")
		sym.Reach("value")
	}
}

func Q13_minmax() {
	l := newQ()
	n := sym.Choice("arguments", 4)
	max := sym.Choice("function", 2) == 1
	code := "min("
	if max {
		code = "max("
	}
	var vs []interface{}
	for i := 0; i < n; i++ {
		name := "a" + strconv.Itoa(i)
		vs = append(vs, qelem(l, name, sym.Choice(name+" kind", 3)))
		if f, ok := vs[i].(float64); ok {
			sym.Assume(f == f)
		}
		if i == 2 && asF0(vs[0]) != asF0(vs[1]) || i == 2 && asF0(vs[0]) != asF0(vs[2]) {
			return // three of a kind
		}
		if i > 0 {
			code += ", "
		}
		code += name
	}
	v, failed := qeval(l, code+")")
	ints, nums, _ := kindsOf(vs)
	sym.Assert(failed == !nums, "numbers have a largest and a smallest one")
	if n == 0 || failed {
		return
	}
	if ints {
		r, ok := v.(int)
		sym.Assert(ok, "the result is an integer if the arguments are")
		some := false
		for _, x := range vs {
			some = sym.Or(some, r == x.(int))
			sym.Assert(r == x.(int) || (r > x.(int)) == max, "no argument is beyond the result")
		}
		sym.Assert(some, "the result is one of the arguments")
		sym.Reach("integer")
		return
	}
	r, ok := v.(float64)
	sym.Assert(ok, "the result is a float if an argument is")
	some := false
	for _, x := range vs {
		f := asF(x)
		some = sym.Or(some, sym.Same(r, f))
		if max {
			sym.Assert(!(f > r), "no argument is beyond the result")
		} else {
			sym.Assert(!(f < r), "no argument is beyond the result")
		}
	}
	sym.Assert(some, "the result is one of the arguments")
	sym.Reach("float")
}

func Q13_make() {
	l := newQ()
	k := sym.Choice("call", 19)
	v, failed := qeval(l, []string{
		`slice("int", 2)`, `slice("float")`, `slice("string", 1, 4)`, `slice("var", 2)`, `slice("bool", 1)`, `slice("byte", 3)`, `slice("nosuch")`, `slice("int", "a")`,
		`mkmap("string:int")`, `mkmap("string:var")`, `mkmap(mapOf("int", "string"))`, `slice(sliceOf("int"), 1)`, `mapFrom("a", 1, "b")`, `mapFrom(1.5, 2)`,
		`mkmap("string:float")`, `mkmap("string:string")`, `slice("string:float", 1)`, `mkmap(mapOf("string", "float"))`, `mkmap(mapOf("string", sliceOf("byte")))`}[k])
	wants := []interface{}{[]int{0, 0}, []float64{}, []string{""}, []interface{}{nil, nil}, []bool{false}, []byte{0, 0, 0}, nil, nil,
		map[string]int{}, map[string]interface{}{}, map[int]string{}, [][]int{nil}, nil, nil,
		map[string]float64{}, map[string]string{}, []map[string]float64{nil}, map[string]float64{}, map[string][]byte{}}
	sym.Assert(failed == (wants[k] == nil), "a collection is made exactly if there is such a type")
	if !failed {
		o, w := reflect.ValueOf(v), reflect.ValueOf(wants[k])
		sym.Assert(o.Type() == w.Type() && o.Len() == w.Len(), "a collection has the type and size that were asked for")
		if k == 2 {
			sym.Assert(o.Cap() == 4, "a slice has the capacity that was asked for")
		}
		sym.Reach("made")
	}
}

var _ = qcl.New
