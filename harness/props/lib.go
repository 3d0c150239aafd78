package props

import (
	"bufio"
	"bytes"
	"container/heap"
	"container/list"
	"errors"
	"fmt"
	"io"
	"math"
	"math/bits"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"
	"unicode/utf8"

	"verif/sym"
)

// Z entries belong to no property: they exercise library functions a changed /repo may use, to test the engine.

type zheap []int

func (h zheap) Len() int            { return len(h) }
func (h zheap) Less(i, j int) bool  { return h[i] < h[j] }
func (h zheap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *zheap) Push(x interface{}) { *h = append(*h, x.(int)) }
func (h *zheap) Pop() interface{} {
	n := len(*h) - 1
	x := (*h)[n]
	*h = (*h)[:n]
	return x
}

type zerr struct{ n int }

func (e *zerr) Error() string { return "zerr " + strconv.Itoa(e.n) }

func eqS(got, want string) {
	sym.Assert(got == want, "got "+got+" want "+want)
}

func Z01_strings() {
	eqS(strings.Map(func(r rune) rune {
		if r == 'a' {
			return -1
		}
		return unicode.ToUpper(r)
	}, "banana"), "BNN")
	eqS(strings.Join(strings.Fields(" a  b\tc "), "|"), "a|b|c")
	eqS(strings.Join(strings.FieldsFunc("a1b2c", unicode.IsDigit), "|"), "a|b|c")
	eqS(strings.Title("hello world"), "Hello World")
	eqS(strings.ToTitle("abc"), "ABC")
	eqS(strings.Repeat("ab", 3), "ababab")
	eqS(strings.Replace("aXbXc", "X", "--", 1), "a--bXc")
	eqS(strings.ReplaceAll("aXbXc", "X", ""), "abc")
	eqS(strings.NewReplacer("<", "&lt;", ">", "&gt;").Replace("<a>"), "&lt;a&gt;")
	eqS(strings.NewReplacer("abc", "1", "x", "").Replace("abcxabc"), "11")
	eqS(strings.TrimFunc("12a34", unicode.IsDigit), "a")
	eqS(strings.TrimLeft("xxa", "x")+strings.TrimRight("axx", "x")+strings.TrimSpace(" b\n"), "aab")
	eqS(strings.Join(strings.SplitN("a,b,c", ",", 2), "|"), "a|b,c")
	eqS(strings.Join(strings.SplitAfter("a,b,c", ","), "|"), "a,|b,|c")
	a, b, ok := strings.Cut("k=v", "=")
	sym.Assert(ok, "cut")
	eqS(a+b, "kv")
	sym.Assert(strings.EqualFold("Go", "GO") && strings.Contains("seafood", "foo") && strings.ContainsRune("abc", 'b') && strings.ContainsAny("abc", "xyzc"), "contains")
	sym.Assert(strings.Index("chicken", "ken") == 4 && strings.LastIndex("go gopher", "go") == 3 && strings.IndexAny("golang", "gy") == 0 && strings.IndexRune("chicken", 'k') == 4 && strings.IndexFunc("Hello", unicode.IsLower) == 1, "index")
	sym.Assert(strings.Count("cheese", "e") == 3 && strings.Compare("a", "b") < 0 && strings.LastIndexAny("golang", "go") == 5 && strings.LastIndexByte("abca", 'a') == 3, "count")
	r := strings.NewReader("abc")
	x, _ := io.ReadAll(r)
	eqS(string(x), "abc")
	rr := strings.NewReader("aé")
	c, n, err := rr.ReadRune()
	sym.Assert(c == 'a' && n == 1 && err == nil && rr.Len() == 2, "reader")
	c, n, err = rr.ReadRune()
	sym.Assert(c == 'é' && n == 2 && err == nil, "reader")
	_, _, err = rr.ReadRune()
	sym.Assert(err == io.EOF, "eof")
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d-%s-%v-%q-%x-%5d-%-3d|%03d-%c-%t", 1, "a", nil, "q", 255, 7, 8, 9, 'z', true)
	sb.WriteRune('é')
	sb.WriteByte('!')
	eqS(sb.String(), "1-a-<nil>-\"q\"-ff-    7-8  |009-z-trueé!")
	sym.Assert(sb.Len() == len(sb.String()), "len")
	eqS(strings.ToValidUTF8("a\xffb", "?"), "a?b")
	eqS(strings.ToLower("ABC")+strings.ToUpper("é"), "abcÉ")
	sym.Reach("done")
}

func Z01_bytes() {
	var b bytes.Buffer
	b.WriteString("hello")
	b.WriteByte(' ')
	b.Write([]byte("world"))
	b.WriteRune('é')
	b.Truncate(b.Len() - 2)
	eqS(b.String(), "hello world")
	p := make([]byte, 5)
	n, _ := b.Read(p)
	sym.Assert(n == 5, "read")
	eqS(b.String(), " world")
	l, err := b.ReadString('r')
	sym.Assert(err == nil, "readstring")
	eqS(l, " wor")
	b.Reset()
	sym.Assert(b.Len() == 0, "reset")
	sym.Assert(bytes.Equal([]byte("a"), []byte("a")) && bytes.Compare([]byte("a"), []byte("b")) < 0 && bytes.Contains([]byte("abc"), []byte("bc")) && bytes.HasSuffix([]byte("abc"), []byte("bc")), "cmp")
	eqS(string(bytes.Join(bytes.Split([]byte("a,b"), []byte(",")), []byte(";"))), "a;b")
	eqS(string(bytes.ToUpper([]byte("abc")))+string(bytes.TrimSpace([]byte(" x ")))+string(bytes.TrimRight([]byte("y\n"), "\n")), "ABCxy")
	eqS(string(bytes.ReplaceAll([]byte("a\r\n"), []byte("\r"), nil)), "a\n")
	eqS(string(bytes.Map(func(r rune) rune { return r + 1 }, []byte("abc"))), "bcd")
	sym.Assert(bytes.IndexByte([]byte("abc"), 'c') == 2 && bytes.LastIndexByte([]byte("aba"), 'a') == 2 && bytes.Count([]byte("aba"), []byte("a")) == 2 && bytes.Index([]byte("abab"), []byte("ba")) == 1 && bytes.LastIndex([]byte("abab"), []byte("ab")) == 2 && bytes.IndexAny([]byte("abc"), "cb") == 1 && bytes.IndexFunc([]byte("ab1"), unicode.IsDigit) == 2, "index")
	eqS(string(bytes.Repeat([]byte("ab"), 2))+string(bytes.Title([]byte("abc"))), "ababAbc")
	eqS(string(bytes.Fields([]byte(" a b "))[1]), "b")
	sc := bufio.NewScanner(strings.NewReader("l1\nl2\n"))
	var ls []string
	for sc.Scan() {
		ls = append(ls, sc.Text())
	}
	eqS(strings.Join(ls, "|"), "l1|l2")
	w := bufio.NewWriter(&b)
	fmt.Fprintf(w, "%v %v", 1, "x")
	w.Flush()
	eqS(b.String(), "1 x")
	br := bufio.NewReader(strings.NewReader("ab\ncd"))
	s, _ := br.ReadString('\n')
	eqS(s, "ab\n")
	sym.Reach("done")
}

func Z01_sort() {
	x := []string{"b", "a", "c"}
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	eqS(strings.Join(x, ""), "abc")
	type kv struct {
		k string
		v int
	}
	y := []kv{{"a", 3}, {"b", 1}, {"c", 3}, {"d", 1}}
	sort.SliceStable(y, func(i, j int) bool { return y[i].v < y[j].v })
	eqS(fmt.Sprint(y[0].k, y[1].k, y[2].k, y[3].k), "bdac")
	sym.Assert(sort.SliceIsSorted(y, func(i, j int) bool { return y[i].v < y[j].v }), "sorted")
	z := []interface{}{3, nil, 1}
	sort.Slice(z, func(i, j int) bool { return z[j] == nil })
	i := sort.SearchStrings(x, "b")
	sym.Assert(i == 1 && sort.SearchInts([]int{1, 3, 5}, 4) == 2, "search")
	n := []int{3, 1, 2}
	sort.Sort(sort.Reverse(sort.IntSlice(n)))
	sym.Assert(n[0] == 3 && n[2] == 1, "reverse")
	sort.Stable(sort.IntSlice(n))
	sym.Assert(sort.IntsAreSorted(n), "ints")
	sw := reflect.Swapper(n)
	sw(0, 2)
	sym.Assert(n[0] == 3 && n[2] == 1, "swapper")
	h := &zheap{5, 2, 8}
	heap.Init(h)
	heap.Push(h, 1)
	sym.Assert(heap.Pop(h) == 1 && heap.Pop(h) == 2, "heap")
	l := list.New()
	l.PushBack(1)
	l.PushFront(0)
	l.InsertAfter(5, l.Front())
	t := 0
	for e := l.Front(); e != nil; e = e.Next() {
		t = t*10 + e.Value.(int)
	}
	sym.Assert(t == 51 && l.Len() == 3, "list")
	m := map[string]int{"x": 1, "y": 2}
	ks := reflect.ValueOf(m).MapKeys()
	sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
	eqS(ks[0].String()+ks[1].String(), "xy")
	it := reflect.ValueOf(m).MapRange()
	k := 0
	for it.Next() {
		k += int(it.Value().Int()) * len(it.Key().String())
	}
	sym.Assert(k == 3, "maprange")
	sym.Reach("done")
}

func Z01_errors() {
	e := &zerr{3}
	w := fmt.Errorf("wrap: %w", e)
	eqS(w.Error(), "wrap: zerr 3")
	var t *zerr
	sym.Assert(errors.Is(w, e), "is")
	sym.Assert(errors.As(w, &t) && t == e, "as")
	sym.Assert(errors.Unwrap(w) == e, "unwrap")
	sym.Assert(!errors.Is(w, io.EOF) && errors.Unwrap(io.EOF) == nil, "not")
	_, err := strconv.Atoi("x1")
	eqS(err.Error(), `strconv.Atoi: parsing "x1": invalid syntax`)
	sym.Assert(errors.Is(err, strconv.ErrSyntax), "errsyntax")
	ne, ok := err.(*strconv.NumError)
	sym.Assert(ok && ne.Num == "x1", "numerror")
	eqS(fmt.Sprintf("%v %+v %T %v", e, w, e, err), `zerr 3 wrap: zerr 3 *props.zerr strconv.Atoi: parsing "x1": invalid syntax`)
	eqS(fmt.Sprintf("%v %v %v %s", []int{1, 2}, []string{"a"}, map[string]int{"b": 2, "a": 1}, []byte("q")), "[1 2] [a] map[a:1 b:2] q")
	eqS(fmt.Sprintf("%v %+v %#v", struct {
		A int
		B string
	}{1, "x"}, struct{ A int }{1}, "s"), `{1 x} {A:1} "s"`)
	eqS(fmt.Sprintf("%*d|%6.2f|%g|%e|%x|%X|%o|%b|%U|%08.3f|%+d", 4, 7, 3.14159, 0.5, 1e6, "hi", 255, 8, 5, 'a', 3.14159, 5), "   7|  3.14|0.5|1.000000e+06|6869|FF|10|101|U+0061|0003.142|+5")
	ff := "%s %d %v %s %d"
	eqS(fmt.Sprintf(ff, 5, "x", reflect.TypeOf(1), errors.New("e")), "%!s(int=5) %!d(string=x) int e %!d(MISSING)")
	ff = "%s"
	eqS(fmt.Sprintf(ff, "x", 3, nil), "x%!(EXTRA int=3, <nil>)")
	eqS(fmt.Sprint("a", 1, 2, "b", nil, true, 1.5), "a1 2b<nil> true 1.5")
	eqS(fmt.Sprintln("a", 1), "a 1\n")
	eqS(fmt.Sprintf("%[2]d %[1]d %%", 1, 2), "2 1 %")
	eqS(fmt.Sprintf("%5s|%-5s|%.2s|%q|%v", "ab", "ab", "abc", 'x', 'x'), "   ab|ab   |ab|'x'|120")
	var b []byte
	b = fmt.Appendf(b, "%d", 3)
	eqS(string(b), "3")
	var n int
	var s string
	_, err = fmt.Sscanf("12 ab", "%d %s", &n, &s)
	sym.Assert(err == nil && n == 12 && s == "ab", "sscanf")
	sym.Reach("done")
}

func Z01_conv() {
	eqS(strconv.Quote("a\"\n\u00e9\x00"), `"a\"\né\x00"`)
	eqS(strconv.QuoteToASCII("é")+strconv.QuoteRune('x'), `"\u00e9"'x'`)
	eqS(strconv.FormatInt(-255, 16)+strconv.FormatUint(7, 2)+strconv.Itoa(-3)+strconv.FormatBool(true), "-ff111-3true")
	eqS(strconv.FormatFloat(1.5, 'g', -1, 64), "1.5")
	b := strconv.AppendInt(nil, 42, 10)
	b = strconv.AppendQuote(b, "x")
	eqS(string(b), `42"x"`)
	v, err := strconv.ParseBool("true")
	sym.Assert(v && err == nil, "bool")
	u, err := strconv.ParseUint("ff", 16, 64)
	sym.Assert(u == 255 && err == nil, "uint")
	i, err := strconv.ParseInt("0x1F", 0, 64)
	sym.Assert(i == 31 && err == nil, "int")
	s, err := strconv.Unquote("`raw`")
	sym.Assert(s == "raw" && err == nil, "unquote")
	r, mb, tail, err := strconv.UnquoteChar(`\nx`, '\'')
	sym.Assert(r == '\n' && !mb && tail == "x" && err == nil, "unquotechar")
	sym.Assert(bits.Len(8) == 4 && bits.OnesCount(7) == 3 && bits.TrailingZeros(8) == 3, "bits")
	sym.Assert(math.MaxInt64 > 0 && math.IsNaN(math.NaN()) && math.IsInf(math.Inf(1), 0) && math.Trunc(1.5) == 1 && math.Max(1, 2) == 2 && math.Abs(-1) == 1 && math.Float64bits(1) == 0x3ff0000000000000, "math")
	sym.Assert(utf8.RuneCountInString("aé") == 2 && utf8.ValidString("a") && utf8.RuneLen('é') == 2 && utf8.FullRune([]byte("a")), "utf8")
	var buf [4]byte
	sym.Assert(utf8.EncodeRune(buf[:], 'é') == 2 && string(utf8.AppendRune(nil, 'é')) == "é", "encode")
	rr, n := utf8.DecodeLastRuneInString("aé")
	sym.Assert(rr == 'é' && n == 2, "decodelast")
	sym.Assert(unicode.IsSpace(' ') && unicode.IsPunct('!') && unicode.Is(unicode.Han, '世') && unicode.In('a', unicode.Letter, unicode.Digit) && unicode.ToLower('A') == 'a' && unicode.IsUpper('A') && unicode.SimpleFold('A') == 'a', "unicode")
	sym.Reach("done")
}

func Z01_regexp() {
	re := regexp.MustCompile(`^([a-z]+)_(Int|Float)(s|Array)?$`)
	m := re.FindStringSubmatch("items_IntArray")
	sym.Assert(m != nil && m[1] == "items" && m[2] == "Int" && m[3] == "Array", "submatch")
	sym.Assert(!re.MatchString("items_Foo"), "match")
	eqS(regexp.MustCompile(`\s+`).ReplaceAllString("a  b", " "), "a b")
	sym.Reach("done")
}

func Z01_sync() {
	var mu sync.Mutex
	mu.Lock()
	mu.Unlock()
	var rw sync.RWMutex
	rw.RLock()
	rw.RUnlock()
	var once sync.Once
	k := 0
	once.Do(func() { k++ })
	once.Do(func() { k++ })
	sym.Assert(k == 1, "once")
	p := sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}
	b := p.Get().(*bytes.Buffer)
	b.WriteString("x")
	p.Put(b)
	var c int64
	atomic.AddInt64(&c, 2)
	sym.Assert(atomic.LoadInt64(&c) == 2, "atomic")
	var m sync.Map
	m.Store("a", 1)
	v, ok := m.Load("a")
	sym.Assert(ok && v == 1, "syncmap")
	var av atomic.Value
	av.Store("s")
	sym.Assert(av.Load() == "s", "value")
	sym.Reach("done")
}

type zT struct {
	A int `json:"a"`
	B string
	c bool
}

func (t zT) M(x int) int   { return t.A + x }
func (t *zT) P() string    { return t.B }
func (t *zT) Set(s string) { t.B = s }

func Z01_reflect() {
	t := &zT{1, "x", true}
	v := reflect.ValueOf(t)
	sym.Assert(v.Elem().NumField() == 3 && v.Elem().Field(0).Int() == 1 && v.Elem().Type().Field(1).Name == "B" && v.Elem().Type().Field(0).Tag.Get("json") == "a", "fields")
	sym.Assert(v.NumMethod() == 3 && v.Type().Method(0).Name == "M", "methods")
	f, ok := v.Type().Elem().FieldByName("B")
	sym.Assert(ok && f.Type.Kind() == reflect.String, "fieldbyname")
	mm, ok := v.Type().MethodByName("P")
	sym.Assert(ok && mm.Type.NumIn() == 1, "methodbyname")
	v.Elem().Field(1).SetString("y")
	v.Elem().FieldByName("A").SetInt(7)
	sym.Assert(t.B == "y" && t.A == 7 && v.Elem().Field(0).CanSet() && !v.Elem().Field(2).CanSet() && !v.Elem().Field(2).CanInterface(), "set")
	out := v.Method(0).Call([]reflect.Value{reflect.ValueOf(3)})
	sym.Assert(out[0].Int() == 10, "call")
	sym.Assert(reflect.TypeOf(1.5).ConvertibleTo(reflect.TypeOf(1)) && reflect.ValueOf(1.5).Convert(reflect.TypeOf(1)).Int() == 1, "convert")
	sym.Assert(reflect.ValueOf(3).CanInt() && !reflect.ValueOf(3).CanFloat() && reflect.ValueOf(3.5).CanFloat() && reflect.ValueOf(uint8(3)).CanUint(), "can")
	s := reflect.MakeSlice(reflect.TypeOf([]int{}), 2, 4)
	s.Index(1).SetInt(5)
	s = reflect.Append(s, reflect.ValueOf(9))
	s = reflect.AppendSlice(s, reflect.ValueOf([]int{1}))
	sym.Assert(s.Len() == 4 && s.Cap() == 4 && s.Slice(1, 3).Len() == 2 && s.Interface().([]int)[3] == 1, "slice")
	m := reflect.MakeMap(reflect.TypeOf(map[string]int{}))
	m.SetMapIndex(reflect.ValueOf("a"), reflect.ValueOf(1))
	sym.Assert(m.Len() == 1 && m.MapIndex(reflect.ValueOf("a")).Int() == 1 && !m.MapIndex(reflect.ValueOf("b")).IsValid(), "map")
	m2 := reflect.MakeMapWithSize(reflect.TypeOf(map[string]int{}), 3)
	sym.Assert(m2.Len() == 0 && !m2.IsNil() && m2.IsZero() == false, "mapsize")
	n := reflect.New(reflect.TypeOf(0))
	n.Elem().Set(reflect.ValueOf(4))
	sym.Assert(*(n.Interface().(*int)) == 4, "new")
	fn := reflect.MakeFunc(reflect.TypeOf(func(int) int { return 0 }), func(in []reflect.Value) []reflect.Value {
		return []reflect.Value{reflect.ValueOf(int(in[0].Int()) * 2)}
	})
	sym.Assert(fn.Call([]reflect.Value{reflect.ValueOf(4)})[0].Int() == 8, "makefunc")
	var e error = &zerr{1}
	sym.Assert(reflect.TypeOf(e).Implements(reflect.TypeOf((*error)(nil)).Elem()) && reflect.ValueOf(&e).Elem().Kind() == reflect.Interface, "implements")
	sym.Assert(reflect.TypeOf(t).Elem().String() == "props.zT" && reflect.TypeOf(t).Elem().Name() == "zT", "names")
	c := reflect.Copy(reflect.ValueOf([]int{0, 0}), reflect.ValueOf([]int{1, 2}))
	sym.Assert(c == 2, "copy")
	sym.Assert(reflect.ValueOf("abc").Index(1).Uint() == 'b' && reflect.ValueOf("abc").Len() == 3, "string")
	vc := reflect.ValueOf(fmt.Sprint).CallSlice([]reflect.Value{reflect.ValueOf([]interface{}{1})})
	sym.Assert(vc[0].String() == "1", "callslice")
	sym.Assert(reflect.ValueOf(nil).Kind() == reflect.Invalid && reflect.Value{}.IsValid() == false, "invalid")
	sym.Assert(reflect.ValueOf(3).Equal(reflect.ValueOf(3)) && reflect.ValueOf(3).Comparable(), "equal")
	eqS(reflect.ValueOf(3).String(), "<int Value>")
	eqS(fmt.Sprint(reflect.ValueOf(3)), "3")
	sym.Reach("done")
}
