package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Sat int

const (
	Unknown Sat = iota
	SatYes
	SatNo
)

// Solver drives one z3 process with an incremental assertion stack.
type Solver struct {
	tb      *TB
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	stack   []*Term // asserted terms, one scope each
	defined map[int]string
	fns     map[string]string
	tabs    map[string]bool
	ndef    int
	timeout int // ms

	queries int64
	unknown int64
	errs    int64
	errMsg  string
	wall    time.Duration
}

var liveSolvers int64

func newSolver(tb *TB, bin string, timeoutMS int) *Solver {
	return &Solver{tb: tb, bin: bin, timeout: timeoutMS}
}

func (s *Solver) start() error {
	args := []string{"-in", "-smt2"}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	atomic.AddInt64(&liveSolvers, 1)
	var w io.Writer = in
	if f := os.Getenv("GOSYM_SMTLOG"); f != "" {
		lf, err := os.Create(fmt.Sprintf("%s.%d", f, s.cmd.Process.Pid))
		if err == nil {
			w = io.MultiWriter(in, lf)
		}
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.defined = map[int]string{}
	s.fns = map[string]string{}
	s.tabs = map[string]bool{}
	s.ndef = 0
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeout)
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		io.WriteString(s.in, "(exit)\n")
		s.in.Flush()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
		atomic.AddInt64(&liveSolvers, -1)
	}
}

func sortName(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	case SReal:
		return "Real"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

func bvLit(s Sort, v uint64) string {
	if s%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(s/4), v)
	}
	return fmt.Sprintf("(_ bv%d %d)", v, s)
}

func (s *Solver) constStr(t *Term) string {
	switch t.sort {
	case SBool:
		if t.k != 0 {
			return "true"
		}
		return "false"
	case SF64:
		return fmt.Sprintf("((_ to_fp 11 53) %s)", bvLit(64, t.k))
	case SReal:
		r, _ := new(big.Rat).SetString(t.name)
		n := r.Num().String()
		neg := false
		if n[0] == '-' {
			n, neg = n[1:], true
		}
		x := fmt.Sprintf("(/ %s.0 %s.0)", n, r.Denom().String())
		if neg {
			x = "(- " + x + ")"
		}
		return x
	}
	return bvLit(t.sort, t.k)
}

var opNames = map[TOp]string{
	TNot: "not", TAnd: "and", TOr: "or", TIte: "ite", TEq: "=", TUlt: "bvult", TUle: "bvule", TSlt: "bvslt", TSle: "bvsle",
	TAdd: "bvadd", TSub: "bvsub", TMul: "bvmul", TUdiv: "bvudiv", TSdiv: "bvsdiv", TUrem: "bvurem", TSrem: "bvsrem",
	TBAnd: "bvand", TBOr: "bvor", TBXor: "bvxor", TShl: "bvshl", TLshr: "bvlshr", TAshr: "bvashr", TNeg: "bvneg", TBNot: "bvnot",
	TFAdd: "fp.add RNE", TFSub: "fp.sub RNE", TFMul: "fp.mul RNE", TFDiv: "fp.div RNE", TFNeg: "fp.neg", TFAbs: "fp.abs", TFSqrt: "fp.sqrt RNE",
	TFEq: "fp.eq", TFLt: "fp.lt", TFLe: "fp.leq", TFIsNaN: "fp.isNaN",
	TFFromS: "(_ to_fp 11 53) RNE", TFFromU: "(_ to_fp_unsigned 11 53) RNE", TFBits: "(_ to_fp 11 53)",
	TRAdd: "+", TRSub: "-", TRMul: "*", TRDiv: "/", TRNeg: "-", TREq: "=", TRLt: "<", TRLe: "<=",
}

func smtSym(n string) string {
	return "|" + strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, n) + "|"
}

// ref returns an SMT expression naming t, emitting definitions as needed.
func (s *Solver) ref(t *Term) string {
	if t.op == TConst {
		return s.constStr(t)
	}
	if n, ok := s.defined[t.id]; ok {
		return n
	}
	if t.op == TVar {
		n := smtSym(t.name)
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", n, sortName(t.sort))
		s.defined[t.id] = n
		return n
	}
	var body string
	switch t.op {
	case TExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.sort)-1, t.k, s.ref(t.a))
	case TZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.sort-t.a.sort, s.ref(t.a))
	case TSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.sort-t.a.sort, s.ref(t.a))
	case TFToS:
		body = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.sort, s.ref(t.a))
	case TFRint:
		body = fmt.Sprintf("(fp.roundToIntegral %s %s)", []string{"RNE", "RTZ", "RTP", "RTN"}[t.k], s.ref(t.a))
	case TRFromS:
		x := s.ref(t.a)
		body = fmt.Sprintf("(to_real (ite (bvslt %s %s) (- (bv2nat %s) %s) (bv2nat %s)))", x, bvLit(t.a.sort, 0), x,
			new(big.Int).Lsh(big.NewInt(1), uint(t.a.sort)).String(), x)
	case TTab:
		x := s.ref(t.a)
		// range-compressed ite
		vals := t.tab.vals
		var sb strings.Builder
		n := 0
		lim := uint64(len(vals))
		i := 0
		is := t.a.sort
		if lim > mask(is) && is < 64 {
			lim = mask(is) + 1
		}
		for i < int(lim) {
			j := i
			for j < int(lim) && vals[j] == vals[i] {
				j++
			}
			if uint64(j) > mask(is) {
				break
			}
			fmt.Fprintf(&sb, "(ite (bvult %s %s) %s ", x, bvLit(is, uint64(j)), s.constStr(&Term{op: TConst, sort: t.sort, k: vals[i] & mask(t.sort)}))
			n++
			i = j
		}
		last := uint64(0)
		if i < int(lim) {
			last = vals[i]
		}
		sb.WriteString(s.constStr(&Term{op: TConst, sort: t.sort, k: last & mask(t.sort)}))
		sb.WriteString(strings.Repeat(")", n))
		body = sb.String()
	case TUF:
		var as, ss []string
		for _, a := range t.args {
			as = append(as, s.ref(a))
			ss = append(ss, sortName(a.sort))
		}
		fk := t.name + "/" + strings.Join(ss, ",") + "/" + sortName(t.sort)
		fn, ok := s.fns[fk]
		if !ok {
			fn = smtSym(fmt.Sprintf("uf%d!%s", len(s.fns), t.name))
			fmt.Fprintf(s.in, "(declare-fun %s (%s) %s)\n", fn, strings.Join(ss, " "), sortName(t.sort))
			s.fns[fk] = fn
		}
		if len(as) == 0 {
			body = fn
		} else {
			body = "(" + fn + " " + strings.Join(as, " ") + ")"
		}
	default:
		n, ok := opNames[t.op]
		if !ok {
			panic(fmt.Sprintf("smt op %d", t.op))
		}
		var sb strings.Builder
		sb.WriteString("(" + n)
		for _, x := range [3]*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				sb.WriteString(s.ref(x))
			}
		}
		sb.WriteByte(')')
		body = sb.String()
	}
	name := "t" + strconv.Itoa(t.id)
	fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", name, sortName(t.sort), body)
	s.defined[t.id] = name
	s.ndef++
	return name
}

func (s *Solver) sync(pc []*Term) {
	if s.cmd != nil && s.ndef > 150000 {
		s.stop()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			panic(err)
		}
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		r := s.ref(t)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) readAnswer() Sat {
	if err := s.in.Flush(); err != nil {
		s.fail("flush: " + err.Error())
		return Unknown
	}
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.fail("read: " + err.Error())
			return Unknown
		}
		line = strings.TrimSpace(line)
		switch {
		case line == "sat":
			return SatYes
		case line == "unsat":
			return SatNo
		case line == "unknown" || line == "timeout":
			s.unknown++
			return Unknown
		case strings.HasPrefix(line, "(error"):
			s.fail(line)
			// the real answer follows; it may rest on a dropped assertion: inconclusive
			s.out.ReadString('\n')
			return Unknown
		}
	}
}

func (s *Solver) fail(msg string) {
	s.errs++
	if s.errMsg == "" {
		s.errMsg = msg
	}
	if strings.HasPrefix(msg, "read") || strings.HasPrefix(msg, "flush") {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check asks whether pc (and extra, if non-nil) is satisfiable. If model is non-nil and the
// answer is sat, values of vars are stored in it.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term, model map[*Term]uint64, rmodel map[*Term]string) Sat {
	t0 := time.Now()
	defer func() { s.wall += time.Since(t0) }()
	s.queries++
	s.sync(pc)
	if extra != nil {
		r := s.ref(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", r)
	}
	for _, v := range vars {
		s.ref(v)
	}
	io.WriteString(s.in, "(check-sat)\n")
	ans := s.readAnswer()
	if s.cmd == nil {
		return Unknown
	}
	if ans == SatYes && model != nil && len(vars) > 0 {
		s.getValues(vars, model, rmodel)
		if s.cmd == nil {
			return Unknown
		}
	}
	if extra != nil {
		io.WriteString(s.in, "(pop 1)\n")
	}
	return ans
}

func (s *Solver) getValues(vars []*Term, model map[*Term]uint64, rmodel map[*Term]string) {
	io.WriteString(s.in, "(get-value (")
	for _, v := range vars {
		io.WriteString(s.in, s.ref(v)+" ")
	}
	io.WriteString(s.in, "))\n(echo \"@@end\")\n")
	s.in.Flush()
	var sb strings.Builder
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.fail("read: " + err.Error())
			return
		}
		if strings.Contains(line, "@@end") {
			break
		}
		sb.WriteString(line)
	}
	toks := sexprs(sb.String())
	// toks is a list of (name value)
	if len(toks) != 1 {
		s.fail("(error model " + sb.String())
		return
	}
	for i, e := range toks[0].list {
		if i >= len(vars) || len(e.list) != 2 {
			break
		}
		v := e.list[1]
		t := vars[i]
		switch t.sort {
		case SBool:
			if v.atom == "true" {
				model[t] = 1
			} else {
				model[t] = 0
			}
		case SReal:
			if rmodel != nil {
				rmodel[t] = v.rat()
			}
		default:
			model[t] = v.bv()
		}
	}
}

type sexpr struct {
	atom string
	list []sexpr
}

func (e sexpr) bv() uint64 {
	a := e.atom
	if strings.HasPrefix(a, "#x") {
		v, _ := strconv.ParseUint(a[2:], 16, 64)
		return v
	}
	if strings.HasPrefix(a, "#b") {
		v, _ := strconv.ParseUint(a[2:], 2, 64)
		return v
	}
	if len(e.list) == 3 && strings.HasPrefix(e.list[1].atom, "bv") {
		v, _ := strconv.ParseUint(e.list[1].atom[2:], 10, 64)
		return v
	}
	return 0
}

func (e sexpr) rat() string {
	if e.atom != "" {
		r, ok := new(big.Rat).SetString(e.atom)
		if !ok {
			return "0"
		}
		return r.RatString()
	}
	if len(e.list) == 2 && e.list[0].atom == "-" {
		r, _ := new(big.Rat).SetString(e.list[1].rat())
		return r.Neg(r).RatString()
	}
	if len(e.list) == 3 && e.list[0].atom == "/" {
		a, _ := new(big.Rat).SetString(e.list[1].rat())
		b, _ := new(big.Rat).SetString(e.list[2].rat())
		if b.Sign() != 0 {
			return a.Quo(a, b).RatString()
		}
	}
	return "0"
}

func sexprs(s string) []sexpr {
	pos := 0
	var parse func() []sexpr
	parse = func() []sexpr {
		var out []sexpr
		for pos < len(s) {
			switch c := s[pos]; {
			case c == ' ' || c == '\n' || c == '\t' || c == '\r':
				pos++
			case c == '(':
				pos++
				out = append(out, sexpr{list: parse()})
			case c == ')':
				pos++
				return out
			case c == '|':
				j := strings.IndexByte(s[pos+1:], '|')
				out = append(out, sexpr{atom: s[pos : pos+j+2]})
				pos += j + 2
			default:
				j := pos
				for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
					j++
				}
				out = append(out, sexpr{atom: s[pos:j]})
				pos = j
			}
		}
		return out
	}
	return parse()
}
