package main

import (
	"bufio"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type entryRun struct {
	rep  *Report
	left int64
	cut  bool
	d    time.Duration
}

type checkRun struct {
	id, tier, root, harness string
	nat                     *native
	t0                      time.Time
	verbose                 bool
	runs                    []*entryRun
	solverWall              time.Duration
	solverQ, solverErr      int64
	solverErrMsg            string
	load, init              time.Duration
}

func (c *checkRun) add(r *Report, j *jobCtx, d time.Duration) {
	c.runs = append(c.runs, &entryRun{rep: r, left: j.left.Load(), cut: j.stop.Load(), d: d})
}

func sortedKeys(m map[string]int64) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func (c *checkRun) print(r *Report, j *jobCtx, d time.Duration) {
	fmt.Printf("%s: %.1fs paths=%v asserts=%d sym=%d audits=%d/%d queries=%d unknown=%d forks=%d steps=%d max=%d/%d undecided=%d left=%d\n", r.entry, d.Seconds(), r.paths, r.asserts, r.symQ, r.audits, r.auditBad, r.queries, r.unknown, r.forks, r.steps, r.maxSteps, r.maxTrail, r.undecided, j.left.Load())
	fmt.Printf("   reach=%v bounds=%v\n", r.reach, r.bounds)
	for u, n := range r.unsup {
		fmt.Printf("   UNSUP %d× %s\n", n, u)
	}
	for i, x := range r.cands {
		if i < 6 {
			b, _ := json.Marshal(x)
			fmt.Printf("   CAND %s\n", b)
		}
	}
}

type known struct{ entry, msg, input, text string }

// readKnown parses "finding: property=ID entry=E msg=QUOTED [input=QUOTED] text" lines.
func (c *checkRun) readKnown() []known {
	f, err := os.Open(filepath.Join(c.root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: property="+c.id+" ") {
			continue
		}
		k := known{text: l}
		rest := strings.TrimPrefix(l, "finding: property="+c.id+" ")
		for {
			i := strings.IndexByte(rest, '=')
			if i < 0 {
				break
			}
			key := strings.TrimSpace(rest[:i])
			v := rest[i+1:]
			val := ""
			if strings.HasPrefix(v, "\"") {
				q, err := strconv.QuotedPrefix(v)
				if err != nil {
					break
				}
				val, _ = strconv.Unquote(q)
				rest = v[len(q):]
			} else if j := strings.IndexByte(v, ' '); j >= 0 {
				val, rest = v[:j], v[j:]
			} else {
				val, rest = v, ""
			}
			switch key {
			case "entry":
				k.entry = val
			case "msg":
				k.msg = val
			case "input":
				k.input = val
			default:
				i = -1
			}
			if i < 0 {
				break
			}
		}
		out = append(out, k)
	}
	return out
}

// confirm says whether the native outcome reproduces the candidate.
func confirm(x *cand, o natOut) bool {
	switch o.Status {
	case "assert", "panic", "crash", "overflow":
		return true
	case "hang":
		return true
	}
	return false
}

func (c *checkRun) finish(write bool) int {
	nviol := 0
	var known []known
	known = c.readKnown()
	knownHit := map[int]bool{}
	var mismatches []string
	validated := 0
	var samples []any
	natErr := ""
	if c.nat.err != nil {
		natErr = c.nat.err.Error()
		fmt.Fprintln(os.Stderr, natErr)
		return 2
	}
	type viol struct {
		x *cand
		o natOut
	}
	var viols []viol
	unconfirmed := 0
	for _, r := range c.runs {
		if len(r.rep.cands) > 0 {
			res := c.nat.run(r.rep.cands, optTier)
			for i, x := range r.rep.cands {
				o := res[i]
				x.Nat = o.Status + ": " + o.Msg
				if confirm(x, o) {
					viols = append(viols, viol{x, o})
				} else {
					unconfirmed++
					if len(mismatches) < 12 {
						mismatches = append(mismatches, fmt.Sprintf("%s: engine says %s %q, native says %s %q on %v", x.Entry, x.Kind, x.Msg, o.Status, o.Msg, x.Vals))
					}
				}
			}
		}
		ss := r.rep.samples
		if len(ss) > 60 {
			ss = ss[:60]
		}
		if len(ss) > 0 {
			res := c.nat.run(ss, optTier)
			for i, x := range ss {
				o := res[i]
				want := "done"
				if x.Kind == "exit" {
					want = "exit"
				}
				if o.Status == "assert" || o.Status == "panic" || o.Status == "overflow" || o.Status == "hang" {
					// the compiled code itself fails on this input
					y := *x
					y.Kind, y.Msg, y.Nat = "replay", o.Msg, o.Status+": "+o.Msg
					viols = append(viols, viol{&y, o})
					continue
				}
				if x.Kind == "unsup" {
					continue
				}
				if o.Status != want {
					mismatches = append(mismatches, fmt.Sprintf("%s: engine path %s, native %s %q on %v", x.Entry, x.Kind, o.Status, o.Msg, x.Vals))
					continue
				}
				ok := len(o.Obs) == len(x.Obs) || want == "exit"
				for k := 0; ok && k < len(o.Obs) && k < len(x.Obs); k++ {
					if o.Obs[k] != x.Obs[k] && !strings.HasSuffix(x.Obs[k], "=?") {
						ok = false
					}
				}
				if !ok {
					if len(mismatches) < 12 {
						mismatches = append(mismatches, fmt.Sprintf("%s: observations differ on %v: engine %v native %v", x.Entry, x.Vals, x.Obs, o.Obs))
					}
					continue
				}
				validated++
				if len(samples) < 8 && i%7 == 0 {
					samples = append(samples, map[string]any{"entry": x.Entry, "input": showVals(x.Vals), "observed": clip(x.Obs, 6)})
				}
			}
		}
	}
	// report violations, one line per distinct message
	seen := map[string]bool{}
	for _, v := range viols {
		kf := -1
		for i, k := range known {
			if k.entry == v.x.Entry && (k.msg == "" || strings.Contains(v.o.Msg, k.msg)) && (k.input == "" || k.input == showVals(v.x.Vals)) {
				kf = i
			}
		}
		if kf >= 0 {
			knownHit[kf] = true
			continue
		}
		nviol++
		key := v.x.Entry + v.o.Status + v.o.Msg
		if seen[key] || len(seen) > 8 {
			continue
		}
		seen[key] = true
		dir := filepath.Join(c.root, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		b, _ := json.MarshalIndent(map[string]any{"property": c.id, "entry": v.x.Entry, "vals": v.x.Vals, "tier": c.tier, "engine": v.x.Kind + ": " + v.x.Msg,
			"native": v.o.Status + ": " + v.o.Msg, "where": v.x.Where, "observed": v.o.Obs, "how": "engine -replay FILE runs this input on the compiled harness"}, "", " ")
		h := sha1.Sum(b)
		p := filepath.Join(dir, fmt.Sprintf("%s-%x.json", c.id, h[:4]))
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, p)
		fmt.Printf("  %s: %s: %s\n  input: %s\n", v.x.Entry, v.o.Status, clipS(v.o.Msg, 400), clipS(showVals(v.x.Vals), 400))
	}
	for i, k := range known {
		_ = knownHit[i]
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, strings.TrimPrefix(k.text, "finding: property="+c.id+" "))
	}
	wall := time.Since(c.t0).Seconds()
	tot := newReport("")
	complete := true
	var per []any
	var problems []string
	for _, r := range c.runs {
		tot.merge(r.rep)
		if r.cut || r.left > 0 {
			complete = false
		}
		if r.rep.paths["unsupported"] > 0 || r.rep.undecided > 0 {
			complete = false
		}
		fin := r.rep.paths["done"] + r.rep.paths["exit"]
		if fin == 0 && len(r.rep.cands) == 0 {
			problems = append(problems, r.rep.entry+": no path ran to completion")
		}
		per = append(per, map[string]any{"entry": r.rep.entry, "bounds": r.rep.bounds, "paths": r.rep.paths, "reached": r.rep.reach, "assertions_evaluated": r.rep.asserts,
			"assertions_decided_by_query": r.rep.symQ, "solver_queries": r.rep.queries, "solver_unknown": r.rep.unknown, "undecided": r.rep.undecided,
			"unexplored_alternatives": r.left, "wall_s": round1(r.d.Seconds())})
	}
	for _, u := range sortedKeys(tot.unsup) {
		if len(problems) < 20 {
			problems = append(problems, fmt.Sprintf("not encodable on %d paths: %s", tot.unsup[u], clipS(u, 300)))
		}
	}
	if tot.auditBad > 0 {
		problems = append(problems, fmt.Sprintf("%d simplifier decisions refuted by the solver audit", tot.auditBad))
	}
	if c.solverErr > 0 {
		problems = append(problems, fmt.Sprintf("%d solver errors, e.g. %s", c.solverErr, c.solverErrMsg))
	}
	states, fins := int64(0), int64(0)
	for k, n := range tot.paths {
		if k != "infeasible" {
			states += n
		}
		if k == "done" || k == "exit" {
			fins += n
		}
	}
	var fns []string
	nin := 0
	for f := range tot.fnSeen {
		fns = append(fns, strings.ReplaceAll(f.name, "github.com/qiniu/text/", ""))
		nin += f.ninstr
	}
	sort.Strings(fns)
	if write {
		cov := map[string]any{
			"states": states, "transitions": tot.forks, "traces_validated_against_impl": validated, "samples": samples,
			"states_meaning":           "symbolic paths explored (each stands for all inputs satisfying its path condition)",
			"transitions_meaning":      "two-way forks whose both sides the decision procedures found feasible",
			"exhaustive_within_bounds": complete, "entries": per,
			"functions_encoded": fns, "ssa_instructions_encoded": nin, "ssa_instructions_executed": tot.steps,
			"solver": map[string]any{"queries": c.solverQ, "wall_s": round1(c.solverWall.Seconds()), "unknown": tot.unknown, "errors": c.solverErr,
				"audited_simplifier_verdicts": tot.audits, "audit_failures": tot.auditBad},
			"counterexamples_not_reproduced": unconfirmed, "encoding_mismatches": mismatches, "problems": problems,
			"stubs": stubNames(), "timing": map[string]any{"load_s": round1(c.load.Seconds()), "init_s": round1(c.init.Seconds())},
		}
		if len(samples) == 0 {
			cov["samples"] = []any{map[string]any{"note": "no finished path was sampled on this run"}}
		}
		seed := 1
		if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
			seed = s
		}
		ev := map[string]any{"property": c.id, "tier": c.tier, "seed": seed, "level": "model_checking", "coverage": cov,
			"assumptions": assumptions, "wall_s": round1(wall), "violations": nviol}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(c.root, "evidence"), 0o755)
		os.WriteFile(filepath.Join(c.root, "evidence", c.id+".json"), append(b, '\n'), 0o644)
	}
	fmt.Printf("%s %s: %d paths (%d finished), %d assertions (%d by query), %d queries %.1fs solver, %d traces validated, complete=%v, %.1fs\n", c.id, c.tier, states, fins, tot.asserts, tot.symQ, c.solverQ, c.solverWall.Seconds(), validated, complete, wall)
	for _, p := range problems {
		fmt.Println("  NOTE", p)
	}
	for _, m := range mismatches {
		fmt.Println("  MISMATCH", clipS(m, 600))
	}
	if nviol > 0 {
		return 1
	}
	if fins == 0 {
		fmt.Println("  no path finished: nothing was decided")
		return 2
	}
	return 0
}

var assumptions = []string{
	"go/ssa (x/tools) lowers the current source of /repo faithfully; the engine's operation semantics match the Go compiler (cross-checked on sampled paths each run)",
	"library functions listed under coverage.stubs are replaced by models; package initialisers outside the whitelist are not executed and any use of their globals is reported as not encodable",
	"map iteration follows insertion order; goroutines, channels and unsafe are not encoded",
}

func stubNames() []string {
	var s []string
	for n := range P.stubs {
		s = append(s, n)
	}
	sort.Strings(s)
	return append(s, "reflect.*, math/big.Rat, math.*, math/cmplx.*, unicode predicates, strconv.ParseFloat, sync, sync/atomic: engine models")
}

func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }

func clip(s []string, n int) []string {
	if len(s) > n {
		s = s[:n]
	}
	return s
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// showVals prints inputs compactly; byte arrays are shown as quoted text.
func showVals(m map[string]string) string {
	arr := map[string][]byte{}
	var rest []string
	for k, v := range m {
		if i := strings.IndexByte(k, '['); i > 0 && strings.HasSuffix(k, "]") {
			if n, err := strconv.Atoi(k[i+1 : len(k)-1]); err == nil && n < 4096 {
				b := arr[k[:i]]
				for len(b) <= n {
					b = append(b, 0)
				}
				x, _ := strconv.Atoi(v)
				b[n] = byte(x)
				arr[k[:i]] = b
				continue
			}
		}
		rest = append(rest, k+"="+v)
	}
	for k, b := range arr {
		rest = append(rest, k+"="+strconv.Quote(string(b)))
	}
	sort.Strings(rest)
	return strings.Join(rest, " ")
}

func replayFile(nat *native, harness, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var x struct {
		Entry string            `json:"entry"`
		Vals  map[string]string `json:"vals"`
		Tier  string            `json:"tier"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	nat.build(harness)
	defer nat.close()
	if nat.err != nil {
		fmt.Fprintln(os.Stderr, nat.err)
		return 2
	}
	t := 0
	if x.Tier == "thorough" {
		t = 1
	}
	o := nat.run([]*cand{{Entry: x.Entry, Vals: x.Vals}}, t)[0]
	fmt.Printf("%s on %s\n=> %s: %s\n", x.Entry, showVals(x.Vals), o.Status, o.Msg)
	for _, s := range o.Obs {
		fmt.Println("   ", s)
	}
	if o.Status == "done" {
		return 0
	}
	return 1
}
