package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OInvalid Op = iota
	OAlloc
	OBin
	ONotB
	ONeg
	OBNotI
	OLoad
	OCopy
	OConvert
	OCall
	ODefer
	OExtract
	OField
	OFieldAddr
	OIf
	OIndex
	OIndexAddr
	OIndexLoad
	OJump
	OLookup
	OMakeClosure
	OMakeIface
	OMakeMap
	OMakeSlice
	OMapUpdate
	ONext
	OPanic
	ORange
	OReturn
	ORunDefers
	OSlice
	OStore
	OAssert
	OSliceToArr
	ONop
	OUnsup
)

type move struct{ dst, src int32 }

type edge struct {
	pc    int32
	blk   int32
	moves []move
}

type Instr struct {
	op   Op
	bop  token.Token
	dst  int32
	a    int32
	b    int32
	c    int32
	d    int32
	t    *Type // main type (operand or result)
	t2   *Type
	aux  any
	pos  token.Pos
	pure bool
}

type ifInfo struct {
	t, f edge
	regs []*region // largest first
}

// region: a pure acyclic set of blocks hanging off an If, which can be evaluated without forking.
type region struct {
	blocks []int32 // in evaluation order (excluding the head)
	exits  []int32 // exit block indices (-1 = return)
}

type callInfo struct {
	mode    uint8 // 0 static, 1 closure value, 2 invoke, 3 builtin
	fn      *Fn
	fnReg   int32
	args    []int32
	method  *types.Func
	mid     string
	builtin string
	argT    []*Type
	resT    *Type
}

type closInfo struct {
	fn   *Fn
	bind []int32
}

type assertInfo struct {
	t       *Type
	commaok bool
	iface   *types.Interface
	nmeth   int
}

type Fn struct {
	name     string
	f        *ssa.Function
	once     sync.Once
	done     atomic.Bool
	code     []Instr
	nregs    int
	consts   []Value
	blkPC    []int32
	blkEnd   []int32
	recPC    int32
	nparam   int
	nfree    int
	intr     intrinsic
	intrPure bool
	sig      *types.Signature
	resT     *Type
	excl     bool // belongs to a package whose init was not run
	pkg      string
	calls    int64
	isRepo   bool
	ninstr   int
	hit      []bool // with -cover: the instructions that were executed
	regT     []*Type
}

type intrinsic func(vm *VM, ci *callInfo, args []Value) Value

const globalBase = 1 << 24
const exclBase = 1 << 25

type Prog struct {
	prog      *ssa.Program
	mu        sync.Mutex
	fns       map[*ssa.Function]*Fn
	globals   map[*ssa.Global]int32
	glist     []*ssa.Global
	stubs     map[string]*ssa.Function
	harness   *ssa.Package
	symPkg    *ssa.Package
	excl      map[string]bool
	rtErr     *Type
	nativeErr *Type
	nclos     int64
}

var P *Prog

func (p *Prog) fnOf(f *ssa.Function) *Fn {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.fnOfLocked(f)
}

func fnFullName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.RelString(nil)
}

func (p *Prog) fnOfLocked(f *ssa.Function) *Fn {
	if x, ok := p.fns[f]; ok {
		return x
	}
	name := fnFullName(f)
	if s, ok := p.stubs[name]; ok && s != f {
		x := p.fnOfLocked(s)
		p.fns[f] = x
		return x
	}
	x := &Fn{name: name, f: f, sig: f.Signature}
	if f.Pkg != nil {
		x.pkg = f.Pkg.Pkg.Path()
		x.excl = p.excl[x.pkg]
		x.isRepo = isRepoPkg(x.pkg)
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		x.pkg = f.Origin().Pkg.Pkg.Path()
	}
	if f.Synthetic == "package initializer" {
		x.intr = nop
	}
	x.nparam = len(f.Params)
	x.nfree = len(f.FreeVars)
	if in, ok := intrinsics[name]; ok {
		x.intr = in
		x.intrPure = pureIntrinsics[name]
	}
	res := f.Signature.Results()
	if res.Len() == 1 {
		x.resT = T(res.At(0).Type())
	} else if res.Len() > 1 {
		x.resT = T(res)
	}
	p.fns[f] = x
	return x
}

func (p *Prog) globalIdx(g *ssa.Global) int32 {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := int32(len(p.glist))
	p.globals[g] = i
	p.glist = append(p.glist, g)
	return i
}

func (fn *Fn) ensure() {
	if !fn.done.Load() {
		fn.once.Do(func() {
			compileFn(fn)
			fn.done.Store(true)
		})
	}
}

type fcomp struct {
	fn    *Fn
	regs  map[ssa.Value]int32
	cidx  map[any]int32
	skip  map[ssa.Instruction]bool
	fused map[*ssa.UnOp]*ssa.IndexAddr
}

func (c *fcomp) constVal(v Value) int32 {
	c.fn.consts = append(c.fn.consts, v)
	return -int32(len(c.fn.consts))
}

func constValue(k *ssa.Const) Value {
	t := T(k.Type())
	if k.Value == nil {
		return zero(t)
	}
	switch t.kind {
	case KBool:
		return mkBool(constant.BoolVal(k.Value))
	case KInt:
		return Value{n: norm(constInt(k.Value), t.w, t.sgn)}
	case KFloat32:
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		return Value{n: math.Float64bits(float64(float32(f)))}
	case KFloat64:
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		return Value{n: math.Float64bits(f)}
	case KComplex:
		cv := constant.ToComplex(k.Value)
		re, _ := constant.Float64Val(constant.Real(cv))
		im, _ := constant.Float64Val(constant.Imag(cv))
		return Value{o: &Agg{[]Value{{n: math.Float64bits(re)}, {n: math.Float64bits(im)}}}}
	case KString:
		if k.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(k.Value))
		}
		return mkStr(string(rune(k.Int64())))
	}
	panic(fmt.Sprintf("const %v of %v", k, k.Type()))
}

func constInt(v constant.Value) uint64 {
	v = constant.ToInt(v)
	if i, ok := constant.Int64Val(v); ok {
		return uint64(i)
	}
	u, _ := constant.Uint64Val(v)
	return u
}

func (c *fcomp) operand(v ssa.Value) int32 {
	if v == nil {
		return 0
	}
	if r, ok := c.regs[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		r := c.constVal(constValue(v))
		return r
	case *ssa.Global:
		i := P.globalIdx(v)
		if v.Pkg != nil && P.excl[v.Pkg.Pkg.Path()] && !okGlobals[v.Pkg.Pkg.Path()+"."+v.Name()] {
			return exclBase + i
		}
		return globalBase + i
	case *ssa.Function:
		if i, ok := c.cidx[v]; ok {
			return i
		}
		r := c.constVal(Value{o: funcClosure(P.fnOf(v), T(v.Signature))})
		c.cidx[v] = r
		return r
	case *ssa.Builtin:
		return 0
	}
	panic(fmt.Sprintf("operand %T %v in %s", v, v, c.fn.name))
}

var fcMu sync.Mutex
var fclos = map[*Fn]*Closure{}

func funcClosure(fn *Fn, t *Type) *Closure {
	fcMu.Lock()
	defer fcMu.Unlock()
	if c, ok := fclos[fn]; ok {
		return c
	}
	c := &Closure{fn: fn, id: len(fclos) + 1}
	fclos[fn] = c
	return c
}

func compileFn(fn *Fn) {
	f := fn.f
	if f.Blocks == nil {
		return
	}
	c := &fcomp{fn: fn, regs: map[ssa.Value]int32{}, cidx: map[any]int32{}, skip: map[ssa.Instruction]bool{}, fused: map[*ssa.UnOp]*ssa.IndexAddr{}}
	n := int32(0)
	for _, p := range f.Params {
		c.regs[p] = n
		fn.regT = append(fn.regT, T(p.Type()))
		n++
	}
	for _, p := range f.FreeVars {
		c.regs[p] = n
		fn.regT = append(fn.regT, T(p.Type()))
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = n
				fn.regT = append(fn.regT, T(v.Type()))
				n++
			}
			// fuse IndexAddr+load pairs
			if ia, ok := in.(*ssa.IndexAddr); ok {
				refs := ia.Referrers()
				if refs != nil && len(*refs) > 0 {
					all := true
					for _, r := range *refs {
						u, ok := r.(*ssa.UnOp)
						if !ok || u.Op != token.MUL || u.Block() != b {
							all = false
						}
					}
					if all && len(*refs) == 1 {
						et := T(ia.Type()).elem
						if et.kind == KInt || et.kind == KBool || et.kind == KString || et.kind == KFloat64 {
							u := (*refs)[0].(*ssa.UnOp)
							// the load must directly follow (only DebugRef or pure in between is common); require adjacency to keep order of effects
							if adjacent(b, ia, u) {
								c.fused[u] = ia
								c.skip[ia] = true
							}
						}
					}
				}
			}
		}
	}
	fn.nregs = int(n)
	fn.blkPC = make([]int32, len(f.Blocks))
	fn.blkEnd = make([]int32, len(f.Blocks))
	fn.recPC = -1
	for _, b := range f.Blocks {
		fn.blkPC[b.Index] = int32(len(fn.code))
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if c.skip[in] {
				continue
			}
			c.instr(in)
		}
		fn.blkEnd[b.Index] = int32(len(fn.code))
	}
	// patch edges
	for i := range fn.code {
		in := &fn.code[i]
		switch in.op {
		case OJump:
			e := in.aux.(*edge)
			e.pc = fn.blkPC[e.blk]
		case OIf:
			x := in.aux.(*ifInfo)
			x.t.pc = fn.blkPC[x.t.blk]
			x.f.pc = fn.blkPC[x.f.blk]
		}
	}
	for i := range fn.code {
		if fn.code[i].op == OIf {
			x := fn.code[i].aux.(*ifInfo)
			x.regs = c.findRegion(f, i, x)
		}
	}
	if f.Recover != nil {
		fn.recPC = fn.blkPC[f.Recover.Index]
	}
	fn.ninstr = len(fn.code)
	if coverFile != "" && fn.isRepo {
		fn.hit = make([]bool, len(fn.code))
	}
}

func adjacent(b *ssa.BasicBlock, x, y ssa.Instruction) bool {
	seen := false
	for _, in := range b.Instrs {
		if in == x {
			seen = true
			continue
		}
		if in == y {
			return seen
		}
		if seen {
			if _, ok := in.(*ssa.DebugRef); !ok {
				return false
			}
		}
	}
	return false
}

func (c *fcomp) edgeTo(from, to *ssa.BasicBlock) edge {
	e := edge{blk: int32(to.Index)}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.moves = append(e.moves, move{c.regs[phi], c.operand(phi.Edges[pi])})
	}
	return e
}

func (c *fcomp) emit(in Instr) { c.fn.code = append(c.fn.code, in) }

func (c *fcomp) instr(si ssa.Instruction) {
	in := Instr{pos: si.Pos()}
	if v, ok := si.(ssa.Value); ok {
		in.dst = c.regs[v]
	}
	switch x := si.(type) {
	case *ssa.Alloc:
		in.op = OAlloc
		in.t = T(x.Type()).elem
	case *ssa.BinOp:
		in.op = OBin
		in.bop = x.Op
		in.a, in.b = c.operand(x.X), c.operand(x.Y)
		in.t = T(x.X.Type())
		in.t2 = T(x.Y.Type())
		in.pure = x.Op != token.QUO && x.Op != token.REM || in.t.kind == KFloat64
	case *ssa.UnOp:
		in.a = c.operand0(x.X)
		in.t = T(x.Type())
		switch x.Op {
		case token.NOT:
			in.op, in.pure = ONotB, true
		case token.SUB:
			in.op, in.pure = ONeg, true
		case token.XOR:
			in.op, in.pure = OBNotI, true
		case token.MUL:
			in.op, in.pure = OLoad, true
			if ia, ok := c.fused[x]; ok {
				in.op = OIndexLoad
				in.a, in.b = c.operand(ia.X), c.operand(ia.Index)
				in.t2 = T(ia.X.Type())
				in.aux = T(ia.Index.Type())
			}
		default:
			in.op = OUnsup
			in.aux = "unop " + x.Op.String()
		}
	case *ssa.Call:
		in.op = OCall
		ci := c.call(&x.Call)
		in.aux = ci
		in.pure = ci.mode == 0 || ci.mode == 3 && (ci.builtin == "len" || ci.builtin == "cap" || ci.builtin == "min" || ci.builtin == "max")
	case *ssa.Defer:
		in.op = ODefer
		in.aux = c.call(&x.Call)
	case *ssa.ChangeInterface:
		in.op, in.pure = OCopy, true
		in.a = c.operand(x.X)
	case *ssa.ChangeType:
		in.op, in.pure = OCopy, true
		in.a = c.operand(x.X)
	case *ssa.Convert:
		in.op = OConvert
		in.a = c.operand(x.X)
		in.t = T(x.Type())
		in.t2 = T(x.X.Type())
		in.pure = (in.t.kind == KInt || in.t.kind == KFloat64) && (in.t2.kind == KInt || in.t2.kind == KFloat64)
	case *ssa.Extract:
		in.op, in.pure = OExtract, true
		in.a = c.operand(x.Tuple)
		in.b = int32(x.Index)
	case *ssa.Field:
		in.op, in.pure = OField, true
		in.a = c.operand(x.X)
		in.b = int32(x.Field)
	case *ssa.FieldAddr:
		in.op, in.pure = OFieldAddr, true
		in.a = c.operand(x.X)
		in.b = int32(x.Field)
	case *ssa.If:
		in.op = OIf
		in.a = c.operand(x.Cond)
		b := x.Block()
		in.aux = &ifInfo{t: c.edgeTo(b, b.Succs[0]), f: c.edgeTo2(b)}
	case *ssa.Index:
		in.op, in.pure = OIndex, true
		in.a, in.b = c.operand(x.X), c.operand(x.Index)
		in.t = T(x.Type())
		in.t2 = T(x.X.Type())
		in.aux = T(x.Index.Type())
	case *ssa.IndexAddr:
		in.op, in.pure = OIndexAddr, true
		in.a, in.b = c.operand(x.X), c.operand(x.Index)
		in.t2 = T(x.X.Type())
		in.t = T(x.Type())
		in.aux = T(x.Index.Type())
	case *ssa.Jump:
		in.op = OJump
		b := x.Block()
		e := c.edgeTo(b, b.Succs[0])
		in.aux = &e
	case *ssa.Lookup:
		in.op = OLookup
		in.a, in.b = c.operand(x.X), c.operand(x.Index)
		in.t = T(x.X.Type())
		in.t2 = T(x.Index.Type())
		if x.CommaOk {
			in.c = 1
		}
	case *ssa.MakeClosure:
		in.op = OMakeClosure
		ci := &closInfo{fn: P.fnOf(x.Fn.(*ssa.Function))}
		for _, b := range x.Bindings {
			ci.bind = append(ci.bind, c.operand(b))
		}
		in.aux = ci
		in.t = T(x.Type())
	case *ssa.MakeInterface:
		in.op, in.pure = OMakeIface, true
		in.a = c.operand(x.X)
		in.t = T(x.X.Type())
	case *ssa.MakeMap:
		in.op = OMakeMap
		in.t = T(x.Type())
	case *ssa.MakeSlice:
		in.op = OMakeSlice
		in.a, in.b = c.operand(x.Len), c.operand(x.Cap)
		in.t = T(x.Type())
	case *ssa.MapUpdate:
		in.op = OMapUpdate
		in.a, in.b, in.c = c.operand(x.Map), c.operand(x.Key), c.operand(x.Value)
		in.t = T(x.Map.Type())
	case *ssa.Next:
		in.op = ONext
		in.a = c.operand(x.Iter)
		if x.IsString {
			in.b = 1
		}
		in.t = T(x.Type())
	case *ssa.Panic:
		in.op = OPanic
		in.a = c.operand(x.X)
	case *ssa.Range:
		in.op = ORange
		in.a = c.operand(x.X)
		in.t = T(x.X.Type())
	case *ssa.Return:
		in.op = OReturn
		var rs []int32
		for _, r := range x.Results {
			rs = append(rs, c.operand(r))
		}
		in.aux = rs
	case *ssa.RunDefers:
		in.op = ORunDefers
	case *ssa.Slice:
		in.op = OSlice
		in.a = c.operand(x.X)
		in.b, in.c, in.d = -1<<30, -1<<30, -1<<30
		if x.Low != nil {
			in.b = c.operand(x.Low)
		}
		if x.High != nil {
			in.c = c.operand(x.High)
		}
		if x.Max != nil {
			in.d = c.operand(x.Max)
		}
		in.t = T(x.X.Type())
	case *ssa.Store:
		in.op = OStore
		in.a, in.b = c.operand(x.Addr), c.operand(x.Val)
	case *ssa.TypeAssert:
		in.op = OAssert
		in.a = c.operand(x.X)
		ai := &assertInfo{t: T(x.AssertedType), commaok: x.CommaOk}
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			ai.iface = it
			ai.nmeth = it.NumMethods()
		}
		in.aux = ai
		in.t = T(x.X.Type())
		in.pure = true
	case *ssa.SliceToArrayPointer:
		in.op = OSliceToArr
		in.a = c.operand(x.X)
		in.t = T(x.Type()).elem
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		in.op = OUnsup
		in.aux = fmt.Sprintf("%T", x)
	default:
		in.op = OUnsup
		in.aux = fmt.Sprintf("%T %v", x, x)
	}
	c.emit(in)
}

func (c *fcomp) operand0(v ssa.Value) int32 { return c.operand(v) }

func (c *fcomp) edgeTo2(b *ssa.BasicBlock) edge {
	to := b.Succs[1]
	if to == b.Succs[0] {
		// both edges to the same block: second matching pred
		e := edge{blk: int32(to.Index)}
		pi, n := -1, 0
		for i, p := range to.Preds {
			if p == b {
				n++
				if n == 2 {
					pi = i
				}
			}
		}
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			e.moves = append(e.moves, move{c.regs[phi], c.operand(phi.Edges[pi])})
		}
		return e
	}
	return c.edgeTo(b, to)
}

func (c *fcomp) call(cc *ssa.CallCommon) *callInfo {
	ci := &callInfo{}
	if cc.IsInvoke() {
		ci.mode = 2
		ci.fnReg = c.operand(cc.Value)
		ci.method = cc.Method
		ci.mid = cc.Method.Id()
	} else {
		switch v := cc.Value.(type) {
		case *ssa.Builtin:
			ci.mode = 3
			ci.builtin = v.Name()
		case *ssa.Function:
			ci.mode = 0
			ci.fn = P.fnOf(v)
		default:
			ci.mode = 1
			ci.fnReg = c.operand(v)
		}
	}
	for _, a := range cc.Args {
		ci.args = append(ci.args, c.operand(a))
		ci.argT = append(ci.argT, T(a.Type()))
	}
	res := cc.Signature().Results()
	if res.Len() == 1 {
		ci.resT = T(res.At(0).Type())
	} else if res.Len() > 1 {
		ci.resT = T(res)
	}
	return ci
}

const maxRegionInstrs = 160

// findRegion grows a pure acyclic region from the If at code index i.
func (c *fcomp) findRegion(f *ssa.Function, i int, x *ifInfo) []*region {
	fn := c.fn
	var head *ssa.BasicBlock
	for _, b := range f.Blocks {
		if int(fn.blkEnd[b.Index])-1 == i {
			head = b
		}
	}
	if head == nil {
		return nil
	}
	in := map[int]bool{head.Index: true}
	exits := map[int]bool{head.Succs[0].Index: true, head.Succs[1].Index: true}
	var blocks []int32
	total := 0
	const ret = -1
	var best []*region
	snap := func() {
		n := len(exits)
		if n > 2 {
			return
		}
		r := &region{blocks: append([]int32(nil), blocks...)}
		for e := range exits {
			r.exits = append(r.exits, int32(e))
		}
		if len(r.exits) == 2 && r.exits[0] > r.exits[1] {
			r.exits[0], r.exits[1] = r.exits[1], r.exits[0]
		}
		best = append([]*region{r}, best...)
		if len(best) > 4 {
			best = best[:4]
		}
	}
	if len(exits) == 1 {
		snap()
	}
	absorbable := func(bi int) (bool, int) {
		if bi == ret {
			return false, 0
		}
		b := f.Blocks[bi]
		if in[bi] || b == f.Recover {
			return false, 0
		}
		for _, p := range b.Preds {
			if !in[p.Index] {
				return false, 0
			}
		}
		n := 0
		for pc := fn.blkPC[bi]; pc < fn.blkEnd[bi]; pc++ {
			ins := &fn.code[pc]
			n++
			switch ins.op {
			case OIf, OJump, OReturn:
			default:
				if !ins.pure {
					return false, 0
				}
			}
		}
		for _, s := range b.Succs {
			if in[s.Index] {
				return false, 0
			} // back edge
		}
		last := fn.code[fn.blkEnd[bi]-1].op
		if last != OIf && last != OJump && last != OReturn {
			return false, 0
		}
		return true, n
	}
	for {
		progress := false
		// deterministic order: smallest index first
		var cand []int
		for e := range exits {
			cand = append(cand, e)
		}
		for a := 0; a < len(cand); a++ {
			for b := a + 1; b < len(cand); b++ {
				if cand[b] < cand[a] {
					cand[a], cand[b] = cand[b], cand[a]
				}
			}
		}
		for _, e := range cand {
			ok, n := absorbable(e)
			if !ok || total+n > maxRegionInstrs {
				continue
			}
			total += n
			in[e] = true
			delete(exits, e)
			blocks = append(blocks, int32(e))
			b := f.Blocks[e]
			if len(b.Succs) == 0 {
				exits[ret] = true
			}
			for _, s := range b.Succs {
				exits[s.Index] = true
			}
			progress = true
			snap()
			break
		}
		if !progress || len(exits) > 12 {
			break
		}
	}
	return best
}
