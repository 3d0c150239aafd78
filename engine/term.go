package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

// Sort of a term: 0 = Bool, 1..64 = bit-vector width, SF64 = Float64, SReal.
type Sort uint8

const (
	SBool Sort = 0
	SF64  Sort = 100
	SReal Sort = 101
)

type TOp uint8

const (
	TConst TOp = iota
	TVar
	TNot
	TAnd
	TOr
	TIte
	TEq
	TUlt
	TUle
	TSlt
	TSle
	TAdd
	TSub
	TMul
	TUdiv
	TSdiv
	TUrem
	TSrem
	TBAnd
	TBOr
	TBXor
	TShl
	TLshr
	TAshr
	TNeg
	TBNot
	TExtract // k = lo; width = sort
	TZext
	TSext
	TTab // table lookup: a = index (BV64), tab
	TFAdd
	TFSub
	TFMul
	TFDiv
	TFNeg
	TFAbs
	TFSqrt
	TFEq
	TFLt
	TFLe
	TFIsNaN
	TFFromS // signed bv -> f64
	TFFromU
	TFToS  // f64 -> signed bv (go semantics only when in range)
	TFBits // bits -> f64
	TFRint // k = rounding mode 0 RNE 1 RTZ 2 RTP 3 RTN
	TUF    // name(args)
	TRAdd  // reals
	TRSub
	TRMul
	TRDiv
	TRNeg
	TREq
	TRLt
	TRLe
	TRFromS // signed bv64 -> real (via bv2int)
)

type Table struct {
	id   int
	vals []uint64
	key  string
}

type Term struct {
	op   TOp
	sort Sort
	nv   uint8 // number of distinct vars: 0,1,2(many)
	uf   bool  // contains an uninterpreted function or a real
	a    *Term
	b    *Term
	c    *Term
	k    uint64
	name string
	args []*Term
	tab  *Table
	id   int
	v1   *Term // the var if nv==1
	set  *[4]uint64
	vars []*Term // cached var list (lazily, nv==2)
	// variable only
	vidx int
	mx   uint64 // upper bound (bit-vectors)
}

type termKey struct {
	op      TOp
	sort    Sort
	a, b, c int
	k       uint64
	name    string
}

// TB is a term bank (one per worker).
type TB struct {
	tab    map[termKey]*Term
	next   int
	vars   []*Term
	byName map[string]*Term
	True   *Term
	False  *Term
	tabs   map[string]*Table
	defs   []*Term
}

func newTB() *TB {
	tb := &TB{tab: map[termKey]*Term{}, byName: map[string]*Term{}, tabs: map[string]*Table{}}
	tb.True = tb.Const(SBool, 1)
	tb.False = tb.Const(SBool, 0)
	return tb
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func (tb *TB) mk(op TOp, s Sort, a, b, c *Term, k uint64, name string) *Term {
	key := termKey{op, s, tid(a), tid(b), tid(c), k, name}
	if t, ok := tb.tab[key]; ok {
		return t
	}
	t := &Term{op: op, sort: s, a: a, b: b, c: c, k: k, name: name, id: tb.next}
	tb.next++
	for _, x := range [3]*Term{a, b, c} {
		if x != nil {
			t.join(x)
		}
	}
	if op == TRAdd || op == TRSub || op == TRMul || op == TRDiv || op == TRNeg || op == TREq || op == TRLt || op == TRLe || op == TRFromS {
		t.uf = true
	}
	if s != SBool && s <= 64 {
		t.mx = t.bound()
	}
	tb.tab[key] = t
	return t
}

// bound computes an upper bound of the unsigned value of t from its shape.
func (t *Term) bound() uint64 {
	m := mask(t.sort)
	a, b := t.a, t.b
	ones := func(x uint64) uint64 { return 1<<bits.Len64(x) - 1 }
	switch t.op {
	case TConst:
		return t.k
	case TZext:
		return a.mx
	case TBAnd:
		return min(a.mx, b.mx)
	case TBOr, TBXor:
		return min(m, ones(a.mx|b.mx))
	case TShl:
		if isC(b) && b.k < 64 && a.mx <= m>>b.k {
			return a.mx << b.k
		}
	case TLshr:
		if isC(b) && b.k < 64 {
			return a.mx >> b.k
		}
	case TIte:
		return max(b.mx, t.c.mx)
	case TExtract:
		if t.k == 0 {
			return min(m, a.mx)
		}
	case TAdd:
		if c := a.mx + b.mx; c >= a.mx && c <= m {
			return c
		}
	case TUrem:
		if isC(b) && b.k > 0 {
			return min(a.mx, b.k-1)
		}
		return a.mx
	case TUdiv:
		if isC(b) && b.k > 0 {
			return a.mx / b.k
		}
	}
	return m
}

func (t *Term) join(x *Term) {
	if x.uf {
		t.uf = true
	}
	switch {
	case x.nv == 0:
	case t.nv == 0:
		t.nv, t.v1 = x.nv, x.v1
	case t.nv == 1 && x.nv == 1 && t.v1 == x.v1:
	default:
		t.nv, t.v1 = 2, nil
	}
}

func (t *Term) varList() []*Term {
	if t.nv == 0 {
		return nil
	}
	if t.nv == 1 {
		return []*Term{t.v1}
	}
	if t.vars != nil {
		return t.vars
	}
	seen := map[*Term]bool{}
	var out []*Term
	add := func(x *Term) {
		if x == nil {
			return
		}
		for _, v := range x.varList() {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	add(t.a)
	add(t.b)
	add(t.c)
	for _, x := range t.args {
		add(x)
	}
	t.vars = out
	return out
}

func mask(s Sort) uint64 {
	if s == SBool {
		return 1
	}
	if s >= 64 {
		return ^uint64(0)
	}
	return 1<<s - 1
}

func (tb *TB) Const(s Sort, v uint64) *Term {
	return tb.mk(TConst, s, nil, nil, nil, v&mask(s), "")
}

func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

func (tb *TB) Var(s Sort, name string) *Term {
	if t, ok := tb.byName[name]; ok {
		if t.sort == s {
			return t
		}
		return tb.Var(s, name+"~"+strconv.Itoa(int(s))) // same name with another sort in another entry
	}
	t := &Term{op: TVar, sort: s, name: name, id: tb.next, mx: mask(s), vidx: len(tb.vars)}
	tb.next++
	t.nv, t.v1 = 1, t
	if s == SReal {
		t.uf = true
	}
	tb.vars = append(tb.vars, t)
	tb.byName[name] = t
	return t
}

func (tb *TB) UF(s Sort, name string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := termKey{TUF, s, -1, -1, -1, 0, sb.String()}
	if t, ok := tb.tab[key]; ok {
		return t
	}
	t := &Term{op: TUF, sort: s, name: name, args: args, id: tb.next, uf: true, mx: mask(s)}
	tb.next++
	for _, a := range args {
		t.join(a)
	}
	if t.nv == 0 {
		t.nv = 2 // never treat as constant
		t.vars = []*Term{}
	} else if t.nv == 1 {
		t.vars = []*Term{t.v1}
		t.nv = 2
		t.v1 = nil
	}
	tb.tab[key] = t
	return t
}

func isC(t *Term) bool { return t.op == TConst }

func sx(s Sort, v uint64) int64 {
	if s >= 64 {
		return int64(v)
	}
	sh := 64 - uint(s)
	return int64(v<<sh) >> sh
}

// evalOp computes an operator on concrete operand values.
func evalOp(t *Term, a, b, c uint64) uint64 {
	s := t.sort
	m := mask(s)
	var as Sort
	if t.a != nil {
		as = t.a.sort
	}
	b2 := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	f := math.Float64frombits
	switch t.op {
	case TNot:
		return a ^ 1
	case TAnd:
		return a & b
	case TOr:
		return a | b
	case TIte:
		if a != 0 {
			return b
		}
		return c
	case TEq:
		return b2(a == b)
	case TUlt:
		return b2(a < b)
	case TUle:
		return b2(a <= b)
	case TSlt:
		return b2(sx(as, a) < sx(as, b))
	case TSle:
		return b2(sx(as, a) <= sx(as, b))
	case TAdd:
		return (a + b) & m
	case TSub:
		return (a - b) & m
	case TMul:
		return (a * b) & m
	case TUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case TUrem:
		if b == 0 {
			return a
		}
		return a % b
	case TSdiv:
		x, y := sx(s, a), sx(s, b)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case TSrem:
		x, y := sx(s, a), sx(s, b)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case TBAnd:
		return a & b
	case TBOr:
		return a | b
	case TBXor:
		return a ^ b
	case TShl:
		if b >= uint64(s) {
			return 0
		}
		return (a << b) & m
	case TLshr:
		if b >= uint64(s) {
			return 0
		}
		return a >> b
	case TAshr:
		if b >= uint64(s) {
			b = uint64(s) - 1
		}
		return uint64(sx(s, a)>>b) & m
	case TNeg:
		return -a & m
	case TBNot:
		return ^a & m
	case TExtract:
		return (a >> t.k) & m
	case TZext:
		return a
	case TSext:
		return uint64(sx(as, a)) & m
	case TTab:
		if a < uint64(len(t.tab.vals)) {
			return t.tab.vals[a] & m
		}
		return 0
	case TFAdd:
		return math.Float64bits(f(a) + f(b))
	case TFSub:
		return math.Float64bits(f(a) - f(b))
	case TFMul:
		return math.Float64bits(f(a) * f(b))
	case TFDiv:
		return math.Float64bits(f(a) / f(b))
	case TFNeg:
		return math.Float64bits(-f(a))
	case TFAbs:
		return math.Float64bits(math.Abs(f(a)))
	case TFSqrt:
		return math.Float64bits(math.Sqrt(f(a)))
	case TFEq:
		return b2(f(a) == f(b))
	case TFLt:
		return b2(f(a) < f(b))
	case TFLe:
		return b2(f(a) <= f(b))
	case TFIsNaN:
		return b2(f(a) != f(a))
	case TFFromS:
		return math.Float64bits(float64(sx(as, a)))
	case TFFromU:
		return math.Float64bits(float64(a))
	case TFToS:
		return uint64(int64(f(a))) & m
	case TFBits:
		return a
	case TFRint:
		x := f(a)
		switch t.k {
		case 0:
			x = math.RoundToEven(x)
		case 1:
			x = math.Trunc(x)
		case 2:
			x = math.Ceil(x)
		default:
			x = math.Floor(x)
		}
		return math.Float64bits(x)
	}
	panic(fmt.Sprintf("evalOp %d", t.op))
}

func (tb *TB) fold(op TOp, s Sort, a, b, c *Term, k uint64) *Term {
	tmp := Term{op: op, sort: s, a: a, b: b, c: c, k: k}
	var av, bv, cv uint64
	if a != nil {
		av = a.k
	}
	if b != nil {
		bv = b.k
	}
	if c != nil {
		cv = c.k
	}
	return tb.Const(s, evalOp(&tmp, av, bv, cv))
}

func (tb *TB) Not(a *Term) *Term {
	if isC(a) {
		return tb.Bool(a.k == 0)
	}
	if a.op == TNot {
		return a.a
	}
	return tb.mk(TNot, SBool, a, nil, nil, 0, "")
}

func (tb *TB) And(a, b *Term) *Term {
	if isC(a) {
		if a.k == 0 {
			return a
		}
		return b
	}
	if isC(b) {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == TNot && a.a == b) || (b.op == TNot && b.a == a) {
		return tb.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(TAnd, SBool, a, b, nil, 0, "")
}

func (tb *TB) Or(a, b *Term) *Term {
	if isC(a) {
		if a.k != 0 {
			return a
		}
		return b
	}
	if isC(b) {
		if b.k != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == TNot && a.a == b) || (b.op == TNot && b.a == a) {
		return tb.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(TOr, SBool, a, b, nil, 0, "")
}

func (tb *TB) Ite(c, x, y *Term) *Term {
	if isC(c) {
		if c.k != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.sort != y.sort {
		panic("ite sorts")
	}
	if c.op == TNot {
		return tb.Ite(c.a, y, x)
	}
	if x.sort == SBool {
		if isC(x) {
			if x.k != 0 {
				return tb.Or(c, y)
			}
			return tb.And(tb.Not(c), y)
		}
		if isC(y) {
			if y.k != 0 {
				return tb.Or(tb.Not(c), x)
			}
			return tb.And(c, x)
		}
	}
	if y.op == TIte && y.a == c {
		y = y.c
	}
	if x.op == TIte && x.a == c {
		x = x.b
	}
	// ite(c, x, ite(d, x, z)) = ite(c||d, x, z)
	if y.op == TIte && y.b == x {
		return tb.Ite(tb.Or(c, y.a), x, y.c)
	}
	return tb.mk(TIte, x.sort, c, x, y, 0, "")
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b && a.sort != SReal {
		return tb.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %d %d", a.sort, b.sort))
	}
	if a.sort == SF64 {
		panic("Eq on floats")
	}
	if a.sort == SReal {
		return tb.R2(TREq, a, b)
	}
	if isC(a) && isC(b) {
		return tb.Bool(a.k == b.k)
	}
	if isC(a) {
		a, b = b, a
	}
	if a.sort == SBool {
		if isC(b) {
			if b.k != 0 {
				return a
			}
			return tb.Not(a)
		}
	}
	if isC(b) {
		switch a.op {
		case TZext:
			if b.k > mask(a.a.sort) {
				return tb.False
			}
			return tb.Eq(a.a, tb.Const(a.a.sort, b.k))
		case TSext:
			if uint64(sx(a.a.sort, b.k&mask(a.a.sort)))&mask(a.sort) != b.k {
				return tb.False
			}
			return tb.Eq(a.a, tb.Const(a.a.sort, b.k))
		case TAdd:
			if isC(a.b) {
				return tb.Eq(a.a, tb.Const(a.sort, b.k-a.b.k))
			}
		case TIte:
			if isC(a.b) && isC(a.c) {
				return tb.Ite(a.a, tb.Bool(a.b.k == b.k), tb.Bool(a.c.k == b.k))
			}
			if isC(a.b) || isC(a.c) {
				return tb.Ite(a.a, tb.Eq(a.b, b), tb.Eq(a.c, b))
			}
		}
	} else {
		if a.op == TZext && b.op == TZext && a.a.sort == b.a.sort {
			return tb.Eq(a.a, b.a)
		}
		if a.op == TSext && b.op == TSext && a.a.sort == b.a.sort {
			return tb.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tb.mk(TEq, SBool, a, b, nil, 0, "")
}

func (tb *TB) Cmp(op TOp, a, b *Term) *Term {
	if isC(a) && isC(b) {
		return tb.fold(op, SBool, a, b, nil, 0)
	}
	if a == b {
		return tb.Bool(op == TUle || op == TSle)
	}
	if a.sort != b.sort {
		panic("cmp sorts")
	}
	s := a.sort
	half := uint64(1) << (s - 1)
	if isC(b) && a.mx != mask(s) && (op == TUlt || op == TUle || a.mx < half && b.k < half) {
		if a.mx < b.k || a.mx == b.k && (op == TUle || op == TSle) {
			return tb.True
		}
	}
	if isC(a) && b.mx != mask(s) && (op == TUlt || op == TUle || b.mx < half && a.k < half) {
		if b.mx < a.k || b.mx == a.k && (op == TUlt || op == TSlt) {
			return tb.False
		}
	}
	if (op == TSlt || op == TSle) && a.mx < half && b.mx < half {
		op = op - TSlt + TUlt
	}
	// zext normalisation
	if a.op == TZext && isC(b) {
		m := mask(a.a.sort)
		switch op {
		case TUlt, TUle:
			if b.k > m {
				return tb.True
			}
			return tb.Cmp(op, a.a, tb.Const(a.a.sort, b.k))
		case TSlt, TSle:
			if sx(s, b.k) < 0 {
				return tb.False
			}
			if b.k > m {
				return tb.True
			}
			return tb.Cmp(op-TSlt+TUlt, a.a, tb.Const(a.a.sort, b.k))
		}
	}
	if b.op == TZext && isC(a) {
		m := mask(b.a.sort)
		switch op {
		case TUlt, TUle:
			if a.k > m {
				return tb.False
			}
			return tb.Cmp(op, tb.Const(b.a.sort, a.k), b.a)
		case TSlt, TSle:
			if sx(s, a.k) < 0 {
				return tb.True
			}
			if a.k > m {
				return tb.False
			}
			return tb.Cmp(op-TSlt+TUlt, tb.Const(b.a.sort, a.k), b.a)
		}
	}
	if a.op == TZext && b.op == TZext && a.a.sort == b.a.sort {
		if op == TSlt {
			op = TUlt
		} else if op == TSle {
			op = TUle
		}
		return tb.Cmp(op, a.a, b.a)
	}
	if op == TUlt && isC(b) && b.k == 0 {
		return tb.False
	}
	if op == TUle && isC(a) && a.k == 0 {
		return tb.True
	}
	if op == TUle && isC(b) && b.k == mask(s) {
		return tb.True
	}
	if op == TUlt && isC(a) && a.k == mask(s) {
		return tb.False
	}
	if isC(b) && a.op == TIte && (isC(a.b) || isC(a.c)) {
		return tb.Ite(a.a, tb.Cmp(op, a.b, b), tb.Cmp(op, a.c, b))
	}
	if isC(a) && b.op == TIte && (isC(b.b) || isC(b.c)) {
		return tb.Ite(b.a, tb.Cmp(op, a, b.b), tb.Cmp(op, a, b.c))
	}
	return tb.mk(op, SBool, a, b, nil, 0, "")
}

func (tb *TB) Bin(op TOp, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("bin sorts op %d: %d %d", op, a.sort, b.sort))
	}
	s := a.sort
	if isC(a) && isC(b) {
		return tb.fold(op, s, a, b, nil, 0)
	}
	switch op {
	case TAdd, TMul, TBAnd, TBOr, TBXor:
		if isC(a) || (!isC(b) && a.id > b.id) {
			a, b = b, a
		}
	}
	zero := func() *Term { return tb.Const(s, 0) }
	switch op {
	case TAdd:
		if isC(b) {
			if b.k == 0 {
				return a
			}
			if a.op == TAdd && isC(a.b) {
				return tb.Bin(TAdd, a.a, tb.Const(s, a.b.k+b.k))
			}
		}
	case TSub:
		if isC(b) {
			return tb.Bin(TAdd, a, tb.Const(s, -b.k))
		}
		if a == b {
			return zero()
		}
	case TMul:
		if isC(b) {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case TUdiv, TSdiv:
		if isC(b) && b.k == 1 {
			return a
		}
	case TUrem:
		if isC(b) && b.k == 1 {
			return zero()
		}
		if isC(b) && b.k&(b.k-1) == 0 && b.k != 0 {
			return tb.Bin(TBAnd, a, tb.Const(s, b.k-1))
		}
	case TBAnd:
		if isC(b) {
			if b.k == 0 {
				return b
			}
			if b.k == mask(s) {
				return a
			}
			if a.op == TZext && b.k&mask(a.a.sort) == mask(a.a.sort) {
				return a
			}
			if a.op == TZext && b.k <= mask(a.a.sort) {
				return tb.Zext(s, tb.Bin(TBAnd, a.a, tb.Const(a.a.sort, b.k)))
			}
		}
		if a == b {
			return a
		}
	case TBOr:
		if isC(b) {
			if b.k == 0 {
				return a
			}
			if b.k == mask(s) {
				return b
			}
		}
		if a == b {
			return a
		}
	case TBXor:
		if isC(b) && b.k == 0 {
			return a
		}
		if a == b {
			return zero()
		}
	case TShl, TLshr, TAshr:
		if isC(b) && b.k == 0 {
			return a
		}
		if isC(b) && b.k >= uint64(s) && op != TAshr {
			return zero()
		}
		if isC(a) && a.k == 0 {
			return a
		}
	}
	return tb.mk(op, s, a, b, nil, 0, "")
}

func (tb *TB) Neg(a *Term) *Term {
	if isC(a) {
		return tb.Const(a.sort, -a.k)
	}
	if a.op == TNeg {
		return a.a
	}
	return tb.mk(TNeg, a.sort, a, nil, nil, 0, "")
}

func (tb *TB) BNot(a *Term) *Term {
	if isC(a) {
		return tb.Const(a.sort, ^a.k)
	}
	if a.op == TBNot {
		return a.a
	}
	return tb.mk(TBNot, a.sort, a, nil, nil, 0, "")
}

func (tb *TB) Zext(s Sort, a *Term) *Term {
	if a.sort == s {
		return a
	}
	if isC(a) {
		return tb.Const(s, a.k)
	}
	if a.op == TZext {
		return tb.Zext(s, a.a)
	}
	return tb.mk(TZext, s, a, nil, nil, 0, "")
}

func (tb *TB) Sext(s Sort, a *Term) *Term {
	if a.sort == s {
		return a
	}
	if isC(a) {
		return tb.Const(s, uint64(sx(a.sort, a.k)))
	}
	if a.op == TSext {
		return tb.Sext(s, a.a)
	}
	if a.op == TZext {
		return tb.Zext(s, a.a)
	}
	return tb.mk(TSext, s, a, nil, nil, 0, "")
}

func (tb *TB) Extract(s Sort, lo uint64, a *Term) *Term {
	if lo == 0 && s == a.sort {
		return a
	}
	if isC(a) {
		return tb.Const(s, a.k>>lo)
	}
	if lo == 0 {
		switch a.op {
		case TZext, TSext:
			if a.a.sort == s {
				return a.a
			}
			if a.a.sort > s {
				return tb.Extract(s, 0, a.a)
			}
			if a.op == TZext {
				return tb.Zext(s, a.a)
			}
			return tb.Sext(s, a.a)
		case TExtract:
			return tb.Extract(s, a.k, a.a)
		case TIte:
			if isC(a.b) || isC(a.c) {
				return tb.Ite(a.a, tb.Extract(s, 0, a.b), tb.Extract(s, 0, a.c))
			}
		case TAdd, TSub, TMul, TBAnd, TBOr, TBXor:
			return tb.Bin(a.op, tb.Extract(s, 0, a.a), tb.Extract(s, 0, a.b))
		}
	}
	return tb.mk(TExtract, s, a, nil, nil, lo, "")
}

// Tab is a table lookup; out-of-range indices give 0.
func (tb *TB) Tab(s Sort, vals []uint64, idx *Term) *Term {
	if isC(idx) {
		if idx.k < uint64(len(vals)) {
			return tb.Const(s, vals[idx.k])
		}
		return tb.Const(s, 0)
	}
	same := true
	for _, v := range vals {
		if v != vals[0] {
			same = false
			break
		}
	}
	_ = same
	var sb strings.Builder
	for _, v := range vals {
		sb.WriteString(strconv.FormatUint(v, 16))
		sb.WriteByte(',')
	}
	key := sb.String()
	tab, ok := tb.tabs[key]
	if !ok {
		tab = &Table{id: len(tb.tabs), vals: append([]uint64(nil), vals...), key: key}
		tb.tabs[key] = tab
	}
	k := termKey{TTab, s, idx.id, -1, -1, uint64(tab.id), ""}
	if t, ok := tb.tab[k]; ok {
		return t
	}
	t := &Term{op: TTab, sort: s, a: idx, tab: tab, mx: mask(s), id: tb.next}
	tb.next++
	t.join(idx)
	tb.tab[k] = t
	return t
}

func (tb *TB) F2(op TOp, a, b *Term) *Term {
	s := SF64
	if op == TFEq || op == TFLt || op == TFLe {
		s = SBool
	}
	if isC(a) && isC(b) {
		return tb.fold(op, s, a, b, nil, 0)
	}
	if op == TFAdd || op == TFMul || op == TFEq {
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tb.mk(op, s, a, b, nil, 0, "")
}

func (tb *TB) F1(op TOp, a *Term, k uint64) *Term {
	s := SF64
	if op == TFIsNaN {
		s = SBool
	}
	if isC(a) {
		return tb.fold(op, s, a, nil, nil, k)
	}
	return tb.mk(op, s, a, nil, nil, k, "")
}

func (tb *TB) FToS(s Sort, a *Term) *Term {
	if isC(a) {
		return tb.fold(TFToS, s, a, nil, nil, 0)
	}
	return tb.mk(TFToS, s, a, nil, nil, 0, "")
}

func (tb *TB) R2(op TOp, a, b *Term) *Term {
	s := SReal
	if op == TREq || op == TRLt || op == TRLe {
		s = SBool
		if a == b {
			return tb.Bool(op != TRLt)
		}
	}
	if isC(a) && isC(b) {
		x, _ := new(big.Rat).SetString(a.name)
		y, _ := new(big.Rat).SetString(b.name)
		switch op {
		case TRAdd:
			return tb.RConst(x.Add(x, y).RatString())
		case TRSub:
			return tb.RConst(x.Sub(x, y).RatString())
		case TRMul:
			return tb.RConst(x.Mul(x, y).RatString())
		case TRDiv:
			if y.Sign() != 0 {
				return tb.RConst(x.Quo(x, y).RatString())
			}
		case TREq:
			return tb.Bool(x.Cmp(y) == 0)
		case TRLt:
			return tb.Bool(x.Cmp(y) < 0)
		case TRLe:
			return tb.Bool(x.Cmp(y) <= 0)
		}
	}
	if op == TRAdd || op == TRMul || op == TREq {
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tb.mk(op, s, a, b, nil, 0, "")
}

func (tb *TB) R1(op TOp, a *Term) *Term { return tb.mk(op, SReal, a, nil, nil, 0, "") }

// RConst: a rational constant "num/den" in name.
func (tb *TB) RConst(s string) *Term {
	key := termKey{TConst, SReal, -1, -1, -1, 0, s}
	if t, ok := tb.tab[key]; ok {
		return t
	}
	t := &Term{op: TConst, sort: SReal, name: s, id: tb.next, uf: true}
	tb.next++
	tb.tab[key] = t
	return t
}

// ---- single byte-variable truth tables ----

func (tb *TB) evalVec(t *Term, memo map[*Term]*[256]uint64) *[256]uint64 {
	if r, ok := memo[t]; ok {
		return r
	}
	r := new([256]uint64)
	switch t.op {
	case TConst:
		for i := range r {
			r[i] = t.k
		}
	case TVar:
		for i := range r {
			r[i] = uint64(i) & mask(t.sort)
		}
	default:
		var a, b, c *[256]uint64
		if t.a != nil {
			a = tb.evalVec(t.a, memo)
		}
		if t.b != nil {
			b = tb.evalVec(t.b, memo)
		}
		if t.c != nil {
			c = tb.evalVec(t.c, memo)
		}
		for i := range r {
			var av, bv, cv uint64
			if a != nil {
				av = a[i]
			}
			if b != nil {
				bv = b[i]
			}
			if c != nil {
				cv = c[i]
			}
			r[i] = evalOp(t, av, bv, cv)
		}
	}
	memo[t] = r
	return r
}

// unary reports whether t depends on exactly one byte variable and can be tabulated.
func (t *Term) unary() bool {
	return t.nv == 1 && !t.uf && t.v1.sort == 8
}

func (tb *TB) truth(t *Term) *[4]uint64 {
	if t.set != nil {
		return t.set
	}
	var s [4]uint64
	switch t.op {
	case TNot:
		x := tb.truth(t.a)
		for i := range s {
			s[i] = ^x[i]
		}
	case TAnd:
		x, y := tb.truth(t.a), tb.truth(t.b)
		for i := range s {
			s[i] = x[i] & y[i]
		}
	case TOr:
		x, y := tb.truth(t.a), tb.truth(t.b)
		for i := range s {
			s[i] = x[i] | y[i]
		}
	default:
		v := tb.evalVec(t, map[*Term]*[256]uint64{})
		for i := 0; i < 256; i++ {
			if v[i] != 0 {
				s[i>>6] |= 1 << (i & 63)
			}
		}
	}
	t.set = &s
	return &s
}

func setEmpty(s *[4]uint64) bool { return s[0]|s[1]|s[2]|s[3] == 0 }
func setCount(s *[4]uint64) int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func setMin(s *[4]uint64) int {
	for i := 0; i < 4; i++ {
		if s[i] != 0 {
			return i*64 + bits.TrailingZeros64(s[i])
		}
	}
	return -1
}

var setFull = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

// ---- evaluation under a model ----

func (tb *TB) eval(t *Term, m map[*Term]uint64, memo map[*Term]uint64) (uint64, bool) {
	if t.op == TConst {
		if t.sort == SReal {
			return 0, false
		}
		return t.k, true
	}
	if t.uf {
		return 0, false
	}
	if t.op == TVar {
		v, ok := m[t]
		return v & mask(t.sort), ok
	}
	if v, ok := memo[t]; ok {
		return v, true
	}
	var a, b, c uint64
	var ok bool
	if t.a != nil {
		if a, ok = tb.eval(t.a, m, memo); !ok {
			return 0, false
		}
	}
	if t.op == TIte {
		x := t.b
		if a == 0 {
			x = t.c
		}
		v, ok := tb.eval(x, m, memo)
		if ok {
			memo[t] = v
		}
		return v, ok
	}
	if t.b != nil {
		if b, ok = tb.eval(t.b, m, memo); !ok {
			return 0, false
		}
	}
	if t.c != nil {
		if c, ok = tb.eval(t.c, m, memo); !ok {
			return 0, false
		}
	}
	v := evalOp(t, a, b, c)
	memo[t] = v
	return v, true
}

// rebuild re-applies the simplifying constructors with substitution sub on variables.
func (tb *TB) subst(t *Term, sub func(*Term) *Term, memo map[*Term]*Term) *Term {
	if t.nv == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case TVar:
		r = sub(t)
	case TUF:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = tb.subst(a, sub, memo)
		}
		r = tb.UF(t.sort, t.name, args...)
	default:
		var a, b, c *Term
		if t.a != nil {
			a = tb.subst(t.a, sub, memo)
		}
		if t.b != nil {
			b = tb.subst(t.b, sub, memo)
		}
		if t.c != nil {
			c = tb.subst(t.c, sub, memo)
		}
		if a == t.a && b == t.b && c == t.c {
			r = t
		} else {
			r = tb.rebuild(t, a, b, c)
		}
	}
	memo[t] = r
	return r
}

func (tb *TB) rebuild(t, a, b, c *Term) *Term {
	switch t.op {
	case TNot:
		return tb.Not(a)
	case TAnd:
		return tb.And(a, b)
	case TOr:
		return tb.Or(a, b)
	case TIte:
		return tb.Ite(a, b, c)
	case TEq:
		return tb.Eq(a, b)
	case TUlt, TUle, TSlt, TSle:
		return tb.Cmp(t.op, a, b)
	case TAdd, TSub, TMul, TUdiv, TSdiv, TUrem, TSrem, TBAnd, TBOr, TBXor, TShl, TLshr, TAshr:
		return tb.Bin(t.op, a, b)
	case TNeg:
		return tb.Neg(a)
	case TBNot:
		return tb.BNot(a)
	case TExtract:
		return tb.Extract(t.sort, t.k, a)
	case TZext:
		return tb.Zext(t.sort, a)
	case TSext:
		return tb.Sext(t.sort, a)
	case TTab:
		return tb.Tab(t.sort, t.tab.vals, a)
	case TFAdd, TFSub, TFMul, TFDiv, TFEq, TFLt, TFLe:
		return tb.F2(t.op, a, b)
	case TFNeg, TFAbs, TFSqrt, TFIsNaN, TFRint, TFFromS, TFFromU, TFBits:
		return tb.F1(t.op, a, t.k)
	case TFToS:
		return tb.FToS(t.sort, a)
	case TRAdd, TRSub, TRMul, TRDiv, TREq, TRLt, TRLe:
		return tb.R2(t.op, a, b)
	case TRNeg, TRFromS:
		return tb.R1(t.op, a)
	}
	panic("rebuild")
}
