package props

import (
	"errors"
	"go/token"

	"verif/sym"

	"github.com/qiniu/text/tpl"
)

// ---- reference semantics of grammars (ordered choice, greedy repetition, no backtracking into a match) ----

const (
	gLeaf = iota
	gAnd
	gOr
	gRep0
	gRep1
	gRep01
	gList
	gList0
	gPeek
	gNot
	gEOF
	gTrue
	gAction
	gTrans
	gVar
	gNamed
	gTok
	gBang // the fail-fast marker inside gAnd
)

type gx struct {
	op   int
	kids []*gx
	id   int
	kind uint
	g    tpl.Grammar // what was built for it
}

type event struct {
	what    string
	id      int
	pos, n  int
	lenSeen int
	ok      bool
}

// world is one grammar over one token sequence, with sub-grammars of arbitrary behaviour.
type world struct {
	total  int
	toks   []tpl.Token
	leafN  map[[2]int]int // (leaf, position) -> tokens matched, or -1
	leafE  map[[2]int]int // (leaf, position) -> position of the failure relative to the start
	errPos bool           // leaves choose how far they got when they fail
	impl   []event
	ref    []event
	leafs  int
	nulls  bool // leaves may match nothing
	fatal  bool
}

var errLeaf = errors.New("leaf")

func (w *world) outcome(leaf, pos int) (n, e int) {
	k := [2]int{leaf, pos}
	if n, ok := w.leafN[k]; ok {
		return n, w.leafE[k]
	}
	rem := w.total - pos
	lo := 1
	if w.nulls {
		lo = 0
	}
	name := "leaf" + string(rune('0'+leaf)) + "@" + string(rune('0'+pos))
	// one value means failure, the others how many tokens are matched
	c := sym.Choice(name, rem+2-lo)
	n = c - 1 + lo
	if c == 0 {
		n = -1
		if w.errPos {
			e = sym.Choice(name+"!", rem+1)
		}
	}
	w.leafN[k], w.leafE[k] = n, e
	return n, e
}

type leafG struct {
	w  *world
	id int
}

func (p *leafG) Match(src []tpl.Token, ctx tpl.Context) (int, error) {
	n, e := p.w.outcome(p.id, p.w.total-len(src))
	if n < 0 {
		return e, errLeaf
	}
	return n, nil
}
func (p *leafG) Marshal(b []byte, t tpl.Tokener, lvl int) []byte { return append(b, 'L') }
func (p *leafG) Len() int                                        { return -1 }

func (w *world) build(x *gx) tpl.Grammar {
	var ks []tpl.Grammar
	for _, k := range x.kids {
		ks = append(ks, w.build(k))
	}
	var g tpl.Grammar
	switch x.op {
	case gLeaf:
		g = &leafG{w, x.id}
	case gAnd:
		g = tpl.And(ks...)
	case gOr:
		g = tpl.Or(ks...)
	case gRep0:
		g = tpl.Repeat0(ks[0])
	case gRep1:
		g = tpl.Repeat1(ks[0])
	case gRep01:
		g = tpl.Repeat01(ks[0])
	case gList:
		g = tpl.List(ks[0], ks[1])
	case gList0:
		g = tpl.List0(ks[0], ks[1])
	case gPeek:
		g = tpl.Peek(ks[0])
	case gNot:
		g = tpl.Not(ks[0])
	case gEOF:
		g = tpl.GrEOF
	case gTrue:
		g = tpl.GrTrue
	case gTok:
		g = tpl.Gr(x.kind)
	case gBang:
		return nil
	case gVar:
		v := tpl.Var("v")
		v.Assign(ks[0])
		g = v
	case gNamed:
		g = tpl.Named("n", ks[0])
	case gAction:
		id := x.id
		g = tpl.Action(ks[0], func(tokens []tpl.Token, h tpl.Grammar) {
			pos := w.total
			if len(tokens) > 0 {
				pos = w.total - w.left(tokens)
			}
			w.impl = append(w.impl, event{"act", id, pos, len(tokens), h.Len(), true})
		})
	case gTrans:
		id := x.id
		g = tpl.Transaction(ks[0], func() interface{} {
			w.impl = append(w.impl, event{what: "begin", id: id})
			return id
		}, func(t interface{}, err error) {
			i, _ := t.(int)
			w.impl = append(w.impl, event{what: "end", id: i, ok: err == nil})
		})
	}
	x.g = g
	return g
}

// left is the number of tokens from the first of tokens to the end of the document
func (w *world) left(tokens []tpl.Token) int { return w.total - int(tokens[0].Pos-1) }

type refRes struct {
	ok    bool
	n     int
	err   int // how far matching got before the failure
	count int // array length of the last match (-1: not an array)
}

// eval is the reference: what x does at position pos.
func (w *world) eval(x *gx, pos int) (r refRes) {
	r.count = -1
	switch x.op {
	case gLeaf:
		n, e := w.outcome(x.id, pos)
		if n < 0 {
			r.err = e
			return
		}
		r.ok, r.n = true, n
	case gTok:
		if pos < w.total && (w.toks[pos].Kind == x.kind || x.kind == tpl.FLOAT && w.toks[pos].Kind == tpl.INT) {
			r.ok, r.n = true, 1
		}
	case gEOF:
		r.ok = pos == w.total
	case gTrue:
		r.ok = true
	case gVar, gNamed:
		r = w.eval(x.kids[0], pos)
		r.count = -1
	case gAnd:
		r.count = len(x.kids)
		bang := false
		for _, k := range x.kids {
			if k.op == gBang {
				bang = true
				continue
			}
			q := w.eval(k, pos+r.n)
			if w.fatal {
				return
			}
			if !q.ok {
				if bang {
					w.fatal = true
				}
				r.ok, r.err = false, r.n+q.err
				return
			}
			r.n += q.n
		}
		r.ok = true
	case gOr:
		r.count = len(x.kids)
		for _, k := range x.kids {
			q := w.eval(k, pos)
			if w.fatal {
				return
			}
			if q.ok {
				r.ok, r.n = true, q.n
				return
			}
			if q.err > r.err {
				r.err = q.err
			}
		}
	case gRep01:
		q := w.eval(x.kids[0], pos)
		r.ok, r.count = true, 0
		if q.ok {
			r.n, r.count = q.n, 1
		}
	case gRep0, gRep1:
		r.count = 0
		for {
			q := w.eval(x.kids[0], pos+r.n)
			if w.fatal {
				return
			}
			if !q.ok {
				r.ok = r.count > 0 || x.op == gRep0
				if !r.ok {
					r.err = q.err
				}
				return
			}
			r.count++
			r.n += q.n
			if q.n == 0 {
				r.ok = true
				return
			}
		}
	case gList, gList0:
		q := w.eval(x.kids[0], pos)
		r.count = 0
		if w.fatal {
			return
		}
		if !q.ok {
			r.ok = x.op == gList0
			if !r.ok {
				r.err = q.err
			}
			return
		}
		r.ok, r.n, r.count = true, q.n, 1
		for {
			s := w.eval(x.kids[1], pos+r.n)
			if w.fatal || !s.ok {
				return
			}
			e := w.eval(x.kids[0], pos+r.n+s.n)
			if w.fatal || !e.ok {
				return
			}
			r.count++
			r.n += s.n + e.n
			if s.n+e.n == 0 {
				return
			}
		}
	case gPeek:
		q := w.eval(x.kids[0], pos)
		r.ok = q.ok
	case gNot:
		q := w.eval(x.kids[0], pos)
		r.ok = !q.ok
	case gAction:
		r = w.eval(x.kids[0], pos)
		if r.ok && !w.fatal {
			p := pos
			if r.n == 0 {
				p = w.total
			}
			w.ref = append(w.ref, event{"act", x.id, p, r.n, r.count, true})
		}
	case gTrans:
		w.ref = append(w.ref, event{what: "begin", id: x.id})
		r = w.eval(x.kids[0], pos)
		if !w.fatal {
			w.ref = append(w.ref, event{what: "end", id: x.id, ok: r.ok})
		}
	}
	return
}

func newWorld(total int) *world {
	w := &world{total: total, leafN: map[[2]int]int{}, leafE: map[[2]int]int{}}
	for i := 0; i <= total; i++ {
		// one token more than the document holds: the end mark
		w.toks = append(w.toks, tpl.Token{Kind: tpl.IDENT, Pos: token.Pos(i + 1), Literal: "x"})
	}
	w.toks[total].Kind = tpl.EOF
	w.toks = w.toks[:total]
	return w
}

func (w *world) leaf() *gx {
	w.leafs++
	return &gx{op: gLeaf, id: w.leafs - 1}
}

// node builds a composite of the chosen shape; sub supplies its parts.
func (w *world) node(op int, sub func() *gx) *gx {
	x := &gx{op: op, id: 100}
	n := 1
	switch op {
	case gAnd, gOr, gList, gList0:
		n = 2
	case gEOF, gTrue:
		n = 0
	case gLeaf:
		return w.leaf()
	}
	for i := 0; i < n; i++ {
		x.kids = append(x.kids, sub())
	}
	return x
}

var shapes = []int{gLeaf, gAnd, gOr, gRep0, gRep1, gRep01, gList, gList0, gPeek, gNot, gVar, gNamed}

func (w *world) run(x *gx) (n int, err error, fatal bool) {
	g := w.build(x)
	m := &tpl.Matcher{Grammar: g}
	defer func() {
		if e := recover(); e != nil {
			if me, ok := e.(*tpl.MatchError); ok {
				n, err, fatal = 0, me, true
				return
			}
			panic(e)
		}
	}()
	n, err = g.Match(w.toks, m)
	return
}

func (w *world) check(x *gx) {
	n, err, fatal := w.run(x)
	r := w.eval(x, 0)
	sym.Assert(fatal == w.fatal, "matching is aborted exactly when a part after the fail-fast marker fails")
	if fatal {
		sym.Reach("aborted")
		return
	}
	sym.Assert((err == nil) == r.ok, "the grammar matches exactly when its parts do as specified")
	sym.Observe("ok", err == nil)
	if err == nil {
		sym.Assert(n == r.n, "the match covers exactly the tokens of its parts")
		sym.Observe("n", n)
		sym.Reach("match")
	} else {
		sym.Reach("mismatch")
	}
}

// M01: composites of two levels over arbitrary sub-grammars
func (w *world) twoLevel(ops []int, outer int) *gx {
	first := true
	return w.node(outer, func() *gx {
		if first {
			first = false
			return w.node(ops[sym.Choice("inner", len(ops))], func() *gx { return w.leaf() })
		}
		return w.leaf()
	})
}

func docLen(q, t int) int {
	n := q
	if sym.Tier() == 1 {
		n = t
	}
	return sym.Choice("tokens", 1+sym.Bound("tokens", n))
}

func m01(outer int) {
	w := newWorld(docLen(3, 4))
	w.nulls = true
	w.check(w.twoLevel(shapes, outer))
}

func M01_and()   { m01(gAnd) }
func M01_or()    { m01(gOr) }
func M01_rep0()  { m01(gRep0) }
func M01_rep1()  { m01(gRep1) }
func M01_rep01() { m01(gRep01) }
func M01_list()  { m01(gList) }
func M01_list0() { m01(gList0) }
func M01_peek()  { m01(gPeek) }
func M01_not()   { m01(gNot) }
func M01_named() { m01([]int{gVar, gNamed}[sym.Choice("naming", 2)]) }
func M01_second() {
	// the second part is the composite
	w := newWorld(docLen(3, 4))
	outer := []int{gAnd, gOr, gList, gList0}[sym.Choice("outer", 4)]
	a := w.leaf()
	b := w.node(shapes[sym.Choice("inner", len(shapes))], func() *gx { return w.leaf() })
	w.check(&gx{op: outer, kids: []*gx{a, b}})
}
func M01_many() {
	// sequences and choices of three parts
	w := newWorld(docLen(3, 4))
	w.nulls = true
	outer := []int{gAnd, gOr}[sym.Choice("outer", 2)]
	w.check(&gx{op: outer, kids: []*gx{w.leaf(), w.leaf(), w.leaf()}})
}

// three levels: a repetition or lookahead around a composite of composites
func M01_deep() {
	w := newWorld(docLen(2, 3))
	outer := []int{gRep0, gRep1, gRep01, gPeek, gNot, gNamed, gOr, gAnd, gList}[sym.Choice("outer", 9)]
	mid := []int{gAnd, gOr, gRep0, gRep01, gList, gNot}
	first := true
	w.check(w.node(outer, func() *gx {
		if !first {
			return w.leaf()
		}
		first = false
		return w.twoLevel([]int{gAnd, gOr, gRep0, gRep01, gPeek, gNot, gList0}, mid[sym.Choice("middle", len(mid))])
	}))
}

// token matching itself: every kind against every kind
func M01_token() {
	w := newWorld(1)
	w.toks[0].Kind = uint(sym.Int("token"))
	x := &gx{op: gTok, kind: uint(sym.Int("kind"))}
	sym.Bound("kind (uint64)", 64)
	w.check(x)
	n, err := x.g.Match(nil, &tpl.Matcher{})
	sym.Assert(n == 0 && err != nil, "no token matches at the end")
}

// sequences of concrete grammar pieces over arbitrary tokens
func M01_tokens() {
	n := 1 + sym.Choice("n", sym.Bound("tokens", 4+sym.Tier()))
	w := newWorld(n)
	for i := range w.toks {
		k := sym.Byte("kind")
		sym.Assume(oneOf(k, "\x03\x04\x05+;"))
		w.toks[i].Kind = uint(k)
	}
	tok := func() *gx {
		return &gx{op: gTok, kind: []uint{tpl.IDENT, tpl.INT, tpl.FLOAT, '+'}[sym.Choice("want", 4)]}
	}
	outer := shapes[1+sym.Choice("outer", len(shapes)-1)]
	first := true
	x := w.node(outer, func() *gx {
		if first {
			first = false
			return w.node([]int{gAnd, gOr, gRep0, gNot}[sym.Choice("inner", 4)], tok)
		}
		return tok()
	})
	w.check(&gx{op: gAnd, kids: []*gx{x, {op: gEOF}}})
}

// M02: Len reports the number of matched elements of the last match
func M02_count() {
	w := newWorld(docLen(3, 4))
	w.nulls = true
	op := []int{gRep0, gRep1, gRep01, gList, gList0, gAnd, gOr}[sym.Choice("op", 7)]
	x := w.node(op, func() *gx { return w.leaf() })
	wrap := x
	if sym.Choice("wrapped", 2) == 1 {
		wrap = &gx{op: gAction, id: 1, kids: []*gx{x}}
	}
	_, err, _ := w.run(wrap)
	r := w.eval(x, 0)
	if err == nil {
		sym.Assert(wrap.g.Len() == r.count, "Len is the number of elements matched")
		sym.Observe("len", wrap.g.Len())
		sym.Reach("count")
	}
	// a second match of the same grammar at another place forgets the first
	if w.total > 0 {
		n2, err2 := wrap.g.Match(w.toks[1:], &tpl.Matcher{})
		r2 := w.eval(x, 1)
		sym.Assert((err2 == nil) == r2.ok, "a grammar can be matched again")
		if err2 == nil {
			sym.Assert(n2 == r2.n && wrap.g.Len() == r2.count, "Len describes the last match only")
			sym.Reach("again")
		}
	}
}

func M02_nested() {
	// the count of an outer repetition is not disturbed by repetitions inside its elements
	w := newWorld(docLen(3, 4))
	in := w.node([]int{gRep0, gRep1, gRep01, gList, gList0}[sym.Choice("inner", 5)], func() *gx { return w.leaf() })
	op := []int{gRep0, gRep1, gList, gList0}[sym.Choice("outer", 4)]
	x := &gx{op: op, kids: []*gx{in}}
	if op == gList || op == gList0 {
		x.kids = append(x.kids, w.leaf())
	}
	_, err, _ := w.run(x)
	r := w.eval(x, 0)
	if err == nil {
		sym.Assert(x.g.Len() == r.count, "Len is the number of elements matched")
		sym.Reach("count")
	}
}

// a repetition that is entered again while it matches one of its elements
func M02_recursive() {
	n := sym.Choice("tokens", 1+sym.Bound("tokens", 6+sym.Tier()))
	toks := make([]tpl.Token, n, n+1)
	for i := range toks {
		toks[i].Kind = []uint{tpl.INT, '(', ')'}[sym.Choice("kind", 3)]
	}
	op := []int{gRep0, gRep1, gRep01, gList, gList0}[sym.Choice("op", 5)]
	item := tpl.Var("item")
	var g tpl.Grammar
	switch op {
	case gRep0:
		g = tpl.Repeat0(item)
	case gRep1:
		g = tpl.Repeat1(item)
	case gRep01:
		g = tpl.Repeat01(item)
	case gList:
		g = tpl.List(item, tpl.Peek(tpl.Not(tpl.Gr(')'))))
	case gList0:
		g = tpl.List0(item, tpl.Not(tpl.Gr(')')))
	}
	var impl, ref [][2]int
	all := len(toks)
	g = tpl.Action(g, func(ts []tpl.Token, g tpl.Grammar) { impl = append(impl, [2]int{len(ts), g.Len()}) })
	item.Assign(tpl.Or(tpl.Gr(tpl.INT), tpl.And(tpl.Gr('('), g, tpl.Gr(')'))))
	m, err := g.Match(toks, &tpl.Matcher{})
	// reference
	var list func(pos int) (int, bool)
	elem := func(pos int) (int, bool) {
		if pos == all {
			return 0, false
		}
		if toks[pos].Kind == tpl.INT {
			return 1, true
		}
		if toks[pos].Kind != '(' {
			return 0, false
		}
		k, ok := list(pos + 1)
		if !ok || pos+1+k == all || toks[pos+1+k].Kind != ')' {
			return 0, false
		}
		return k + 2, true
	}
	list = func(pos int) (int, bool) {
		n, c := 0, 0
		for {
			k, ok := elem(pos + n)
			if !ok {
				break
			}
			n += k
			c++
			if op == gRep01 {
				break
			}
		}
		if c == 0 && (op == gRep1 || op == gList) {
			return 0, false
		}
		ref = append(ref, [2]int{n, c})
		return n, true
	}
	k, ok := list(0)
	sym.Assert((err == nil) == ok, "a recursive repetition matches")
	if ok {
		sym.Assert(m == k && len(impl) == len(ref), "a recursive repetition matches")
		for i := range ref {
			sym.Assert(impl[i] == ref[i], "Len is the number of elements of the last match, also in a recursive rule")
		}
		sym.Reach("recursive")
	}
}

func M02_scalar() {
	w := newWorld(docLen(2, 3))
	op := []int{gLeaf, gPeek, gNot, gEOF, gTrue, gVar, gNamed}[sym.Choice("op", 7)]
	x := w.node(op, func() *gx { return w.leaf() })
	w.run(x)
	sym.Assert(x.g.Len() == -1, "grammars that are not arrays have no length")
	sym.Assert(tpl.Gr(uint(sym.Int("kind"))).Len() == -1, "a token has no length")
	sym.Reach("scalar")
}

// M03: the fail-fast marker
func M03_bang() {
	w := newWorld(docLen(3, 4))
	bang := sym.Choice("bang", 4)
	var ks []*gx
	for i := 0; i < 3; i++ {
		if i == bang {
			ks = append(ks, &gx{op: gBang})
		}
		ks = append(ks, w.leaf())
	}
	if bang == 3 {
		ks = append(ks, &gx{op: gBang})
	}
	and := &gx{op: gAnd, kids: ks}
	outer := []int{gAnd, gOr, gRep0, gRep1, gRep01, gList, gList0, gPeek, gNot, gVar, gNamed, gAction}[sym.Choice("outer", 12)]
	first := true
	x := w.node(outer, func() *gx {
		if first {
			first = false
			return and
		}
		return w.leaf()
	})
	w.check(x)
}

// M04: actions and transactions
func m04(outer int, opq []int) {
	w := newWorld(docLen(3, 4))
	w.nulls = sym.Choice("null", 2) == 1
	id := 0
	act := func(k *gx) *gx { id++; return &gx{op: gAction, id: id, kids: []*gx{k}} }
	first := true
	x := w.node(outer, func() *gx {
		if first {
			first = false
			return act(w.node(opq[sym.Choice("inner", len(opq))], func() *gx { return act(w.leaf()) }))
		}
		return act(w.leaf())
	})
	w.events(act(x))
}

func (w *world) events(x *gx) {
	_, _, fatal := w.run(x)
	w.eval(x, 0)
	sym.Assert(fatal == w.fatal, "matching is aborted exactly when a part after the fail-fast marker fails")
	sym.Assert(len(w.impl) == len(w.ref), "actions run once per successful match of their grammar")
	for i := range w.impl {
		a, b := w.impl[i], w.ref[i]
		sym.Assert(a.what == b.what && a.id == b.id && a.ok == b.ok, "actions run in matching order")
		sym.Assert(a.n == b.n && a.pos == b.pos, "an action gets exactly the tokens its grammar matched")
		sym.Assert(a.lenSeen == b.lenSeen, "an action sees the length of its grammar")
		sym.Reach("event")
	}
	sym.Observe("events", len(w.impl))
}

var inners = []int{gLeaf, gAnd, gOr, gRep0, gRep01, gList, gPeek, gNot}

func M04_and()  { m04(gAnd, inners) }
func M04_or()   { m04(gOr, inners) }
func M04_rep()  { m04([]int{gRep0, gRep1, gRep01}[sym.Choice("rep", 3)], inners) }
func M04_list() { m04([]int{gList, gList0}[sym.Choice("list", 2)], []int{gLeaf, gAnd, gRep0}) }
func M04_look() { m04([]int{gPeek, gNot}[sym.Choice("look", 2)], inners) }
func M04_trans() {
	w := newWorld(docLen(3, 4))
	id := 0
	tr := func(k *gx) *gx {
		id++
		if sym.Choice("trans", 2) == 1 {
			return &gx{op: gTrans, id: id, kids: []*gx{k}}
		}
		return &gx{op: gAction, id: id, kids: []*gx{k}}
	}
	outer := []int{gAnd, gOr, gRep0, gRep1, gRep01, gList, gPeek, gNot}[sym.Choice("outer", 8)]
	x := w.node(outer, func() *gx { return tr(w.leaf()) })
	w.events(tr(x))
}
func M04_abort() {
	w := newWorld(docLen(2, 3))
	a := &gx{op: gAction, id: 1, kids: []*gx{w.leaf()}}
	b := &gx{op: gAction, id: 2, kids: []*gx{w.leaf()}}
	and := &gx{op: gAnd, kids: []*gx{a, {op: gBang}, b}}
	or := &gx{op: gOr, kids: []*gx{{op: gTrans, id: 3, kids: []*gx{and}}, {op: gAction, id: 4, kids: []*gx{w.leaf()}}}}
	w.events(or)
}

// M05: matching terminates and stays inside the document, whatever the parts do
func M05_progress() {
	w := newWorld(docLen(3, 4))
	w.nulls = true
	loop := []int{gRep0, gRep1, gList, gList0}
	in := w.node([]int{gLeaf, gRep0, gRep01, gRep1, gList0, gPeek, gNot, gTrue, gEOF, gOr, gAnd}[sym.Choice("inner", 11)], func() *gx { return w.leaf() })
	op := loop[sym.Choice("outer", 4)]
	x := &gx{op: op, kids: []*gx{in}}
	if op == gList || op == gList0 {
		x.kids = append(x.kids, &gx{op: []int{gLeaf, gTrue, gEOF}[sym.Choice("sep", 3)], id: 9})
	}
	sym.StepLimit(200000)
	n, err, _ := w.run(x)
	sym.Assert(n >= 0 && n <= w.total, "a match stays inside the document")
	sym.Observe("n", n)
	if err == nil {
		sym.Reach("match")
	}
}
func M05_nested() {
	w := newWorld(docLen(2, 3))
	w.nulls = true
	loop := []int{gRep0, gRep1, gList, gList0, gRep01}
	x := w.leaf()
	for i := 0; i < 3; i++ {
		op := loop[sym.Choice("op", 5)]
		y := &gx{op: op, kids: []*gx{x}}
		if op == gList || op == gList0 {
			y.kids = append(y.kids, w.leaf())
		}
		x = y
	}
	sym.StepLimit(400000)
	n, err, _ := w.run(x)
	sym.Assert(n >= 0 && n <= w.total, "a match stays inside the document")
	if err == nil {
		sym.Reach("match")
	}
}

func tokPos(i int) token.Pos { return token.Pos(i + 1) }
