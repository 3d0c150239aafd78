package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// jobCtx is the shared state of the exploration of one entry.
type jobCtx struct {
	mu       sync.Mutex
	cond     *sync.Cond
	jobs     [][]uint64
	idle     int
	workers  int
	done     bool
	stop     atomic.Bool
	hungry   atomic.Int32
	cands    atomic.Int32
	hangs    atomic.Int64
	deadline time.Time
	left     atomic.Int64 // unexplored alternatives when stopped
}

func (j *jobCtx) noteCand() {
	if j.cands.Add(1) >= 16 {
		j.stop.Store(true)
	}
}

func (j *jobCtx) push(p []uint64) {
	j.mu.Lock()
	j.jobs = append(j.jobs, p)
	j.mu.Unlock()
	j.cond.Signal()
}

func (j *jobCtx) pop() ([]uint64, bool) {
	j.mu.Lock()
	defer j.mu.Unlock()
	j.idle++
	j.hungry.Add(1)
	defer j.hungry.Add(-1)
	for {
		if j.done {
			return nil, false
		}
		if n := len(j.jobs); n > 0 {
			p := j.jobs[0]
			j.jobs = j.jobs[1:]
			j.idle--
			return p, true
		}
		if j.idle == j.workers {
			j.done = true
			j.cond.Broadcast()
			return nil, false
		}
		j.cond.Wait()
	}
}

func (vm *VM) snapshot() *choice {
	cp := &choice{trail: len(vm.trail), npc: len(vm.pc), nknown: len(vm.knownL), ndom: len(vm.domTr), nev: len(vm.evars),
		nlog: len(vm.log), nsym: len(vm.symVars), nobs: len(vm.obs), steps: vm.steps, nevents: len(vm.events)}
	if vm.cur != nil {
		cp.frame = vm.clone(vm.cur)
	}
	vm.gen++
	if vm.cur != nil {
		vm.cur.gen = vm.gen
	}
	return cp
}

// enterRoot is called at the first symbolic input of an entry: everything before it is concrete and common to all paths.
func (vm *VM) enterRoot() {
	if !vm.inRoot {
		return
	}
	vm.inRoot = false
	vm.root = vm.snapshot()
	panic(pathEnd{"at root"})
}

const (
	defStepLim = 4_000_000
	maxTrail   = 4_000_000 // undo entries of one path
	memSteps   = 500_000   // a path longer than this ends when memory is short
)

// memHigh is set while the heap is larger than memLimit.
var memHigh atomic.Bool

const memLimit = 4 << 30

func watchMemory() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(50 * time.Millisecond)
		metrics.Read(s)
		memHigh.Store(s[0].Value.Uint64() > memLimit)
	}
}

// runEntryWorker explores entry f with shared queue j.
func (vm *VM) runEntryWorker(f *Fn, j *jobCtx, rep *Report) {
	vm.rep, vm.job = rep, j
	vm.trail, vm.pc, vm.knownL, vm.domTr, vm.evars, vm.symVars, vm.obs, vm.log, vm.events = vm.trail[:0], nil, nil, nil, nil, nil, nil, nil, nil
	vm.known, vm.dom, vm.ent, vm.evset = map[*Term]bool{}, map[*Term][4]uint64{}, map[*Term]int{}, map[*Term]bool{}
	vm.cps, vm.prefix, vm.ppos = nil, nil, 0
	vm.modelOK, vm.model = false, nil
	vm.trailOn, vm.inRoot, vm.root = true, true, nil
	vm.curFnStats = true
	vm.stepLim = vm.steps + defStepLim
	vm.cur, vm.done, vm.spec = nil, false, 0
	base := vm.snapshot()
	vm.push(f, nil, nil, -1, fkCall, nil)
	why := vm.runPath()
	if vm.root == nil {
		// no symbolic input was reached
		vm.inRoot = false
		if j.mu.Lock(); len(j.jobs) > 0 && j.jobs[0] == nil {
			j.jobs = nil
			j.mu.Unlock()
			vm.endPath(why)
		} else {
			j.mu.Unlock()
		}
		vm.restore(base)
		for {
			if _, ok := j.pop(); !ok {
				return
			}
		}
	}
	_ = why
	for {
		p, ok := j.pop()
		if !ok {
			break
		}
		vm.cps = vm.cps[:0]
		vm.restore(vm.root)
		vm.stepLim = vm.root.steps + defStepLim
		vm.cur = vm.clone(vm.root.frame)
		vm.prefix, vm.ppos = p, 0
		vm.modelOK, vm.model = false, nil
		vm.maybeInf = 0
		for {
			s0 := vm.steps
			why := vm.runPath()
			if vm.steps > s0 {
				rep.steps += vm.steps - s0
				rep.maxSteps = max(rep.maxSteps, vm.steps-vm.root.steps)
				rep.maxTrail = max(rep.maxTrail, len(vm.trail))
			}
			vm.endPath(why)
			if j.stop.Load() || time.Now().After(j.deadline) {
				j.stop.Store(true)
				n := int64(0)
				for _, c := range vm.cps {
					if !c.dead {
						n++
					}
				}
				j.left.Add(n)
				vm.cps = vm.cps[:0]
				break
			}
			if j.hungry.Load() > 0 {
				vm.donate(j)
			}
			if !vm.backtrack() {
				break
			}
		}
		if j.stop.Load() {
			j.mu.Lock()
			j.left.Add(int64(len(j.jobs)))
			j.jobs = nil
			j.mu.Unlock()
		}
	}
	vm.cps = vm.cps[:0]
	vm.restore(base)
	vm.trail = vm.trail[:0]
	vm.trailOn = false
}

func (vm *VM) donate(j *jobCtx) {
	j.mu.Lock()
	n := len(j.jobs)
	j.mu.Unlock()
	if n >= 4 {
		return
	}
	for _, c := range vm.cps {
		if !c.dead {
			c.dead = true
			p := append(append([]uint64(nil), vm.log[:c.nlog]...), 0)
			j.push(p)
			return
		}
	}
}

func (vm *VM) endPath(why string) {
	r := vm.rep
	key := why
	if strings.HasPrefix(why, "unsupported") {
		key = "unsupported"
	}
	r.paths[key]++
	switch key {
	case "done", "exit":
		vm.sample(why)
	case "panic":
		s, vals, m := vm.fullModel(nil)
		switch s {
		case SatYes:
			vm.cur = nil
			msg := vm.panicMsg(vm.result, m)
			vm.addCand("panic", msg, vals, m)
			if len(r.cands) > 0 && vm.lastPanic != nil {
				r.cands[len(r.cands)-1].Where = vm.lastPanic.where
			}
		case Unknown:
			r.undecided++
		}
	case "step limit", "stack overflow":
		s, vals, m := vm.fullModel(nil)
		if s == SatYes {
			vm.addCand("hang", key, vals, m)
			if vm.job.hangs.Add(1) >= 4 {
				vm.job.stop.Store(true)
			}
		} else if s == Unknown {
			r.undecided++
		}
	case "unsupported":
		// no verdict from the solver for this path; the concrete run of its model still backs it up
		if r.unsupSamples < 20 {
			r.unsupSamples++
			if s, vals, _ := vm.fullModel(nil); s == SatYes {
				r.samples = append(r.samples, &cand{Entry: r.entry, Kind: "unsup", Vals: vals})
			}
		}
	}
}

func (vm *VM) panicMsg(v Value, m map[*Term]uint64) string {
	i, ok := v.o.(*Iface)
	if !ok {
		return "panic(nil)"
	}
	s, ok := vm.renderT(i.v, i.t, m, 0)
	if !ok || s == "ptr" {
		s = "?"
	}
	return i.t.String() + ": " + s
}

// sample keeps some finished paths for comparison with the compiled program (reservoir with doubling stride).
func (vm *VM) sample(why string) {
	r := vm.rep
	r.nsample++
	n := r.nsample
	take := n <= 6 || n < 1000 && n%50 == 0 || n%1000 == 0
	if !take || len(r.samples) >= r.maxSample {
		return
	}
	s, vals, m := vm.fullModel(nil)
	if s != SatYes {
		return
	}
	obs, ok := vm.obsUnder(m)
	k := "done"
	if why == "exit" {
		k = "exit"
	}
	if !ok {
		k = "partial"
	}
	r.samples = append(r.samples, &cand{Entry: r.entry, Kind: k, Vals: vals, Obs: obs})
}

type workerState struct {
	vm *VM
}

func newWorker(smtBin string, timeoutMS int) *workerState {
	tb := newTB()
	sol := newSolver(tb, smtBin, timeoutMS)
	return &workerState{vm: newVM(tb, sol)}
}

// initPackages runs the initialisers of the whitelisted packages on this VM.
func (w *workerState) initPackages(order []*ssa.Package) error {
	vm := w.vm
	vm.initing = true
	vm.rep = newReport("init")
	vm.stepLim = 1 << 60
	for _, p := range order {
		f := p.Func("init")
		if f == nil {
			continue
		}
		fn := P.fnOf(f)
		vm.cur, vm.done = nil, false
		vm.push(fn, nil, nil, -1, fkCall, nil)
		why := vm.runPath()
		if why != "done" {
			msg := why
			if why == "panic" {
				msg = "panic " + vm.show(vm.result, 4)
				if vm.lastPanic != nil {
					msg += " at " + vm.lastPanic.where
				}
			}
			for u := range vm.rep.unsup {
				msg += "\n  " + u
			}
			return fmt.Errorf("init of %s: %s", p.Pkg.Path(), msg)
		}
	}
	vm.initing = false
	return nil
}

func exploreEntry(ws []*workerState, f *Fn, budget time.Duration) (*Report, *jobCtx) {
	j := &jobCtx{workers: len(ws), deadline: time.Now().Add(budget)}
	j.cond = sync.NewCond(&j.mu)
	j.jobs = [][]uint64{nil}
	total := newReport(f.f.Name())
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, w := range ws {
		wg.Add(1)
		go func(w *workerState) {
			defer wg.Done()
			rep := newReport(f.f.Name())
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintf(os.Stderr, "ENGINE PANIC in %s: %v\n%s\n%s\n", f.name, r, w.vm.where(), debug.Stack())
					os.Exit(2)
				}
			}()
			w.vm.runEntryWorker(f, j, rep)
			mu.Lock()
			total.merge(rep)
			mu.Unlock()
		}(w)
	}
	wg.Wait()
	return total, j
}
