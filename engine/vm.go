package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

type Frame struct {
	fn     *Fn
	regs   []Value
	pc     int32
	gen    int64
	parent *Frame
	ret    int32 // destination register in the parent (-1 none)
	// how control returns
	kind   uint8                 // fkCall, fkDefer, fkNative
	onRet  func(vm *VM, v Value) // fkNative: called with the result after the frame is popped
	defers []deferred
	pan    *panicRec
	depth  int
}

const (
	fkCall uint8 = iota
	fkDefer
	fkNative
)

type deferred struct {
	fn   Value // closure
	args []Value
	ci   *callInfo
}

type panicRec struct {
	val       Value // interface value
	recovered bool
	where     string
	prev      *panicRec
}

type trailEnt struct {
	p   *Value
	old Value
	fn  func()
}

type choice struct {
	frame   *Frame
	trail   int
	npc     int
	nknown  int
	ndom    int
	nev     int
	nlog    int
	nsym    int
	nobs    int
	steps   int64
	model   map[*Term]uint64 // model valid for the untried side (nil if none)
	cond    *Term            // condition to assert on the alternative side
	taken   uint64
	dead    bool
	nevents int
}

type domTrail struct {
	v   *Term
	old [4]uint64
	ent bool // entanglement change instead
}

type symVar struct {
	name string
	kind string // byte,int,bool,float64,rat,choice
	t    *Term
	w    Sort
	open bool
}

type obsEnt struct {
	label string
	v     Value
}

type VM struct {
	domDec     int // branches decided without a query
	tb         *TB
	sol        *Solver
	globals    []*Value
	cur        *Frame
	gen        int64
	trail      []trailEnt
	trailOn    bool
	cps        []*choice
	pc         []*Term
	known      map[*Term]bool
	knownL     []*Term
	dom        map[*Term][4]uint64
	ent        map[*Term]int
	domTr      []domTrail
	evars      []*Term
	evset      map[*Term]bool
	model      map[*Term]uint64
	modelOK    bool
	log        []uint64
	prefix     []uint64
	ppos       int
	symVars    []symVar
	obs        []obsEnt
	steps      int64
	stepLim    int64
	spec       int
	inRoot     bool // before the first symbolic input: root checkpoint not taken
	root       *choice
	rootSteps  int64
	maybeInf   int // unknown solver answers on this path
	result     Value
	done       bool
	rep        *Report
	job        *jobCtx
	rootHook   bool
	depthLim   int
	initing    bool
	nclos      int
	events     []string
	trace      bool
	opq        int
	curFnStats bool
	pending    *pendingCall
	lastPanic  *panicRec
}

type pendingCall struct {
	f    Value
	args []Value
	post func(vm *VM, v Value) Value
}

// control-flow signals thrown as Go panics
type specAbort struct{}
type pathEnd struct{ why string }
type unsupported struct{ msg string }
type goPanic struct {
	v     Value
	where string
}

func (vm *VM) unsup(format string, a ...any) {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	panic(unsupported{fmt.Sprintf(format, a...)})
}

func (vm *VM) throwRT(msg string) {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	panic(goPanic{v: mkIface(P.rtErr, Value{o: &Agg{[]Value{mkStr(msg)}}})})
}

func (vm *VM) throw(v Value) {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	panic(goPanic{v: v})
}

func newVM(tb *TB, sol *Solver) *VM {
	return &VM{tb: tb, sol: sol, known: map[*Term]bool{}, dom: map[*Term][4]uint64{}, ent: map[*Term]int{}, evset: map[*Term]bool{}, depthLim: 4000}
}

func (vm *VM) set(p *Value, v Value) {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	if vm.trailOn {
		vm.trail = append(vm.trail, trailEnt{p: p, old: *p})
	}
	*p = v
}

func (vm *VM) undo(f func()) {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	if vm.trailOn {
		vm.trail = append(vm.trail, trailEnt{fn: f})
	}
}

// store writes v to the variable at p; aggregates are copied element-wise so interior pointers stay valid.
func (vm *VM) store(p *Value, v Value) {
	if a, ok := v.o.(*Agg); ok {
		if d, ok := p.o.(*Agg); ok && len(d.e) == len(a.e) {
			for i := range a.e {
				vm.store(&d.e[i], a.e[i])
			}
			return
		}
		vm.set(p, copyVal(v))
		return
	}
	vm.set(p, v)
}

func (vm *VM) global(i int32) *Value {
	for int(i) >= len(vm.globals) {
		vm.globals = append(vm.globals, nil)
	}
	g := vm.globals[i]
	if g == nil {
		P.mu.Lock()
		sg := P.glist[i]
		P.mu.Unlock()
		g = new(Value)
		*g = zero(T(sg.Type()).elem)
		vm.globals[i] = g
	}
	return g
}

func (vm *VM) get(fr *Frame, x int32) Value {
	if x >= 0 {
		if x < globalBase {
			return fr.regs[x]
		}
		if x >= exclBase {
			x -= exclBase - globalBase
			if !vm.initing {
				P.mu.Lock()
				sg := P.glist[x-globalBase]
				P.mu.Unlock()
				vm.unsup("global of uninitialised package: %s.%s", sg.Pkg.Pkg.Path(), sg.Name())
			}
		}
		return Value{o: vm.global(x - globalBase)}
	}
	return fr.fn.consts[-x-1]
}

// globals of uninitialised packages that may still be used (their zero value is right)
var okGlobals = map[string]bool{}

func (vm *VM) own(fr *Frame) *Frame {
	if fr == nil || fr.gen >= vm.gen {
		return fr
	}
	return vm.clone(fr)
}

func (vm *VM) clone(fr *Frame) *Frame {
	n := *fr
	n.regs = append([]Value(nil), fr.regs...)
	if len(fr.defers) > 0 {
		n.defers = append([]deferred(nil), fr.defers...)
	}
	if fr.pan != nil {
		p := *fr.pan
		n.pan = &p
	}
	n.gen = vm.gen
	return &n
}

func (vm *VM) push(fn *Fn, args []Value, env []Value, ret int32, kind uint8, onRet func(*VM, Value)) {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	fn.ensure()
	if fn.code == nil {
		vm.unsup("no body: %s", fn.name)
	}
	d := 0
	if vm.cur != nil {
		d = vm.cur.depth + 1
	}
	if d > vm.depthLim {
		panic(pathEnd{"stack overflow"})
	}
	fr := &Frame{fn: fn, regs: make([]Value, fn.nregs), parent: vm.cur, ret: ret, kind: kind, onRet: onRet, gen: vm.gen, depth: d}
	copy(fr.regs, args)
	copy(fr.regs[fn.nparam:], env)
	vm.cur = fr
	if vm.curFnStats && fn.isRepo {
		vm.rep.fnSeen[fn]++
	}
}

// call runs closure value f. An engine intrinsic runs immediately (it may branch, with adv still at the
// calling instruction); then adv, if non-nil, moves past the instruction and the frame is pushed or the result delivered.
func (vm *VM) call(f Value, args []Value, ci *callInfo, adv *Frame, ret int32, kind uint8, onRet func(*VM, Value)) {
	c, ok := f.o.(*Closure)
	if !ok {
		vm.throwRT("runtime error: invalid memory address or nil pointer dereference")
	}
	if c.nat != nil {
		if c.bound != nil {
			args = append([]Value{*c.bound}, args...)
		}
		v := c.nat(vm, args)
		vm.finish(v, adv, ret, kind, onRet)
		return
	}
	if c.bound != nil {
		args = append([]Value{*c.bound}, args...)
	}
	vm.callFn(c.fn, c.env, args, ci, adv, ret, kind, onRet)
}

func (vm *VM) callFn(fn *Fn, env, args []Value, ci *callInfo, adv *Frame, ret int32, kind uint8, onRet func(*VM, Value)) {
	if fn.intr != nil {
		if ci == nil || ci.fn != fn {
			ci = &callInfo{fn: fn, resT: fn.resT}
		}
		v := fn.intr(vm, ci, args)
		vm.finish(v, adv, ret, kind, onRet)
		return
	}
	if adv != nil {
		adv.pc++
	}
	vm.push(fn, args, env, ret, kind, onRet)
}

// finish delivers the result of an intrinsic, or starts the call it asked for.
func (vm *VM) finish(v Value, adv *Frame, ret int32, kind uint8, onRet func(*VM, Value)) {
	if p := vm.pending; p != nil {
		vm.pending = nil
		vm.call(p.f, p.args, nil, adv, -1, fkNative, func(vm *VM, v Value) {
			if p.post != nil {
				v = p.post(vm, v)
			}
			vm.deliver(v, ret, kind, onRet)
		})
		return
	}
	if adv != nil {
		adv.pc++
	}
	vm.deliver(v, ret, kind, onRet)
}

func (vm *VM) deliver(v Value, ret int32, kind uint8, onRet func(*VM, Value)) {
	switch {
	case onRet != nil:
		onRet(vm, v)
	case kind == fkDefer:
		vm.afterDefer()
	case ret >= 0:
		vm.cur.regs[ret] = v
	}
}

// callLater is used by intrinsics: call f(args) and use post(result) as the intrinsic's own result.
func (vm *VM) callLater(f Value, args []Value, post func(vm *VM, v Value) Value) Value {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	vm.pending = &pendingCall{f, args, post}
	return Value{}
}

func (vm *VM) where() string {
	var sb strings.Builder
	n := 0
	for fr := vm.cur; fr != nil && n < 14; fr = fr.parent {
		pos := ""
		if int(fr.pc) < len(fr.fn.code) {
			pc := fr.pc
			for pc > 0 && fr.fn.code[pc].pos == token.NoPos {
				pc--
			}
			if p := fr.fn.code[pc].pos; p != token.NoPos {
				q := P.prog.Fset.Position(p)
				pos = fmt.Sprintf("%s:%d", q.Filename, q.Line)
			}
		}
		fmt.Fprintf(&sb, "%s(%s) < ", fr.fn.name, pos)
		n++
	}
	return sb.String()
}

func isRepoPkg(p string) bool {
	return p == "github.com/qiniu/text" || strings.HasPrefix(p, "github.com/qiniu/text/") || strings.HasPrefix(p, "qlang.io/")
}

var _ = types.Typ
