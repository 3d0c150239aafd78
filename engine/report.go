package main

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
)

var optTier int

type cand struct {
	Entry string            `json:"entry"`
	Kind  string            `json:"kind"` // assert, panic, hang, overflow
	Msg   string            `json:"msg"`
	Vals  map[string]string `json:"vals"`
	Where string            `json:"where,omitempty"`
	Obs   []string          `json:"obs,omitempty"`
	Nat   string            `json:"native,omitempty"`
}

// Report accumulates what one worker did for one entry.
type Report struct {
	entry        string
	queries      int64
	unknown      int64
	forks        int64
	asserts      int64 // assertions evaluated on some path
	symQ         int64 // assertions decided by a solver query
	audits       int64
	auditBad     int64
	steps        int64
	maxSteps     int64
	maxTrail     int
	paths        map[string]int64
	reach        map[string]int64
	bounds       map[string]int64
	fnSeen       map[*Fn]int64
	unsup        map[string]int64
	undecided    int64
	cands        []*cand
	candN        map[string]int
	samples      []*cand
	nsample      int64
	maxSample    int
	unsupSamples int
}

func newReport(entry string) *Report {
	return &Report{entry: entry, paths: map[string]int64{}, reach: map[string]int64{}, bounds: map[string]int64{}, fnSeen: map[*Fn]int64{},
		unsup: map[string]int64{}, candN: map[string]int{}, maxSample: 40}
}

func (r *Report) addUnsup(s string) { r.unsup[s]++ }

func addm[K comparable](a, b map[K]int64) {
	for k, v := range b {
		a[k] += v
	}
}

func (r *Report) merge(x *Report) {
	r.queries += x.queries
	r.unknown += x.unknown
	r.forks += x.forks
	r.asserts += x.asserts
	r.symQ += x.symQ
	r.audits += x.audits
	r.auditBad += x.auditBad
	r.steps += x.steps
	r.maxSteps = max(r.maxSteps, x.maxSteps)
	r.maxTrail = max(r.maxTrail, x.maxTrail)
	r.undecided += x.undecided
	addm(r.paths, x.paths)
	addm(r.reach, x.reach)
	for k, v := range x.bounds {
		r.bounds[k] = v
	}
	addm(r.fnSeen, x.fnSeen)
	addm(r.unsup, x.unsup)
	r.cands = append(r.cands, x.cands...)
	r.samples = append(r.samples, x.samples...)
}

// fullModel asks the solver for values of every symbolic input on this path (with extra, if non-nil).
func (vm *VM) fullModel(extra *Term) (Sat, map[string]string, map[*Term]uint64) {
	var vars []*Term
	for _, sv := range vm.symVars {
		vars = append(vars, sv.t)
	}
	m := map[*Term]uint64{}
	rm := map[*Term]string{}
	vm.rep.queries++
	s := vm.sol.Check(vm.pc, extra, vars, m, rm)
	if s != SatYes {
		if s == Unknown {
			vm.rep.unknown++
		}
		return s, nil, nil
	}
	out := map[string]string{}
	for _, sv := range vm.symVars {
		if sv.w == SReal {
			out[sv.name] = rm[sv.t]
		} else {
			out[sv.name] = strconv.FormatUint(m[sv.t], 10)
		}
	}
	return s, out, m
}

func (vm *VM) addCand(kind, msg string, vals map[string]string, m map[*Term]uint64) {
	r := vm.rep
	if r.candN[kind+msg] >= 4 || len(r.cands) >= 40 {
		return
	}
	r.candN[kind+msg]++
	obs, _ := vm.obsUnder(m)
	r.cands = append(r.cands, &cand{Entry: r.entry, Kind: kind, Msg: msg, Vals: vals, Where: vm.where(), Obs: obs})
	if vm.job != nil {
		vm.job.noteCand()
	}
}

func (vm *VM) doAssert(c Value, msgv Value) {
	if vm.spec > 0 {
		panic(specAbort{})
	}
	vm.enterRoot()
	msg := ""
	if s, ok := strOf(msgv); ok {
		msg = s
	} else {
		msg = "(symbolic message)"
	}
	vm.rep.asserts++
	t, ok := c.o.(*Term)
	if !ok {
		if c.n != 0 {
			return
		}
		s, vals, m := vm.fullModel(nil)
		switch s {
		case SatYes:
			vm.addCand("assert", msg, vals, m)
			panic(pathEnd{"violation"})
		case Unknown:
			vm.rep.undecided++
			panic(pathEnd{"undecided"})
		}
		panic(pathEnd{"infeasible"})
	}
	st := vm.status(t)
	nt := vm.tb.Not(t)
	if st == 1 {
		// decided by the byte-domain simplifier; the solver audits a sample of these
		if vm.rep.audits < 300 || vm.rep.asserts%64 == 0 {
			vm.rep.audits++
			if s, _ := vm.query(nt); s == SatYes {
				vm.rep.auditBad++
			}
		}
		return
	}
	vm.rep.symQ++
	s, vals, m := vm.fullModel(nt)
	switch s {
	case SatNo:
		vm.setKnown(t, true)
		return
	case Unknown:
		vm.rep.undecided++
		if os.Getenv("GOSYM_DEBUG") != "" {
			_, vals, _ := vm.fullModel(nil)
			fmt.Fprintln(os.Stderr, "undecided:", msg, vals)
		}
	case SatYes:
		vm.addCand("assert", msg, vals, m)
	}
	if st == 0 {
		panic(pathEnd{"violation"})
	}
	if s, mm := vm.query(t); s == SatNo {
		panic(pathEnd{"violation"})
	} else if s == SatYes {
		vm.model, vm.modelOK = mm, true
	} else {
		vm.modelOK = false
	}
	vm.assert(t)
}

// obsUnder renders the observations of this path under model m; ok=false if some value is not determined by it.
func (vm *VM) obsUnder(m map[*Term]uint64) ([]string, bool) {
	var out []string
	good := true
	for _, o := range vm.obs {
		s, ok := vm.renderUnder(o.v, m, 0)
		if !ok {
			s, good = "?", false
		}
		out = append(out, o.label+"="+s)
	}
	return out, good
}

func (vm *VM) evalUnder(t *Term, m map[*Term]uint64) (uint64, bool) {
	return vm.tb.eval(t, m, map[*Term]uint64{})
}

// renderUnder prints a value canonically (the native side uses the same format).
func (vm *VM) renderUnder(v Value, m map[*Term]uint64, d int) (string, bool) {
	i, ok := v.o.(*Iface)
	if !ok {
		return "nil", v.o == nil
	}
	return vm.renderT(i.v, i.t, m, d)
}

func (vm *VM) renderT(v Value, t *Type, m map[*Term]uint64, d int) (string, bool) {
	if d > 8 {
		return "", false
	}
	n := v.n
	if x, ok := v.o.(*Term); ok {
		y, ok := vm.evalUnder(x, m)
		if !ok {
			return "", false
		}
		n = y
		if t.kind == KInt {
			n = norm(y, t.w, t.sgn)
		}
	}
	switch t.kind {
	case KBool:
		return fmt.Sprint(n != 0), true
	case KInt:
		if t.sgn {
			return strconv.FormatInt(int64(n), 10), true
		}
		return strconv.FormatUint(n, 10), true
	case KFloat64, KFloat32:
		f := math.Float64frombits(n)
		if f != f {
			return "NaN", true
		}
		return strconv.FormatUint(n, 16) + "f", true
	case KString:
		b := strBytes(v)
		buf := make([]byte, len(b))
		for i, x := range b {
			if xt, ok := x.o.(*Term); ok {
				y, ok := vm.evalUnder(xt, m)
				if !ok {
					return "", false
				}
				buf[i] = byte(y)
			} else {
				buf[i] = byte(x.n)
			}
		}
		return strconv.Quote(string(buf)), true
	case KComplex:
		e := v.o.(*Agg).e
		a, ok1 := vm.renderT(e[0], tFloat64, m, d+1)
		b, ok2 := vm.renderT(e[1], tFloat64, m, d+1)
		return "(" + a + "," + b + ")", ok1 && ok2
	case KSlice, KArray:
		var p []string
		for _, x := range vm.elems(v) {
			s, ok := vm.renderT(x, t.elem, m, d+1)
			if !ok {
				return "", false
			}
			p = append(p, s)
		}
		return "[" + strings.Join(p, " ") + "]", true
	case KStruct:
		var p []string
		for k, x := range v.o.(*Agg).e {
			s, ok := vm.renderT(x, t.flds[k], m, d+1)
			if !ok {
				return "", false
			}
			p = append(p, s)
		}
		return "{" + strings.Join(p, " ") + "}", true
	case KMap:
		mm, _ := v.o.(*Map)
		var p []string
		if mm != nil {
			for _, e := range mm.ents {
				if e.dead {
					continue
				}
				a, ok1 := vm.renderT(e.k, t.key, m, d+1)
				b, ok2 := vm.renderT(e.v, t.elem, m, d+1)
				if !ok1 || !ok2 {
					return "", false
				}
				p = append(p, a+":"+b)
			}
		}
		sort.Strings(p)
		return "map[" + strings.Join(p, " ") + "]", true
	case KIface:
		return vm.renderUnder(v, m, d+1)
	case KPtr, KFunc:
		if v.o == nil {
			return "nil", true
		}
		return "ptr", true
	}
	return "", false
}
