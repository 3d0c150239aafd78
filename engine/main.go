package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// packages whose initialisers are executed (others keep zero globals, any use of which is reported)
var initOK = map[string]bool{
	"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "strconv": true, "strings": true, "bytes": true, "go/token": true,
	"path/filepath": true, "path": true, "math": true, "math/bits": true, "sort": true, "slices": true, "math/cmplx": true, "bufio": true, "io": true,
	"internal/stringslite": true, "internal/strconv": true, "internal/filepathlite": true, "cmp": true, "iter": true, "errors": false,
	"maps": true, "regexp": true, "fmt": true, "go/parser": true, "go/scanner": true, "go/ast": true, "go/build/constraint": true, "regexp/syntax": true, "container/list": true, "container/heap": true, "container/ring": true,
}

func loadProgram(harness string) ([]*ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: harness, Tests: false, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, "./props", "./stubs", "./sym")
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr < 10 {
				fmt.Fprintln(os.Stderr, "load:", e)
			}
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d load errors", nerr)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, p := range prog.AllPackages() {
		wg.Add(1)
		sem <- true
		go func(p *ssa.Package) {
			p.Build()
			<-sem
			wg.Done()
		}(p)
	}
	wg.Wait()
	initTypes()
	P = &Prog{prog: prog, fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]int32{}, stubs: map[string]*ssa.Function{}, excl: map[string]bool{}}
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		if !(initOK[path] || isRepoPkg(path) || strings.HasPrefix(path, "verif/")) {
			P.excl[path] = true
		}
	}
	var stubsPkg *packages.Package
	for i, p := range pkgs {
		switch p.PkgPath {
		case "verif/props":
			P.harness = spkgs[i]
		case "verif/sym":
			P.symPkg = spkgs[i]
		case "verif/stubs":
			stubsPkg = p
			re := regexp.MustCompile(`(?m)^//sym:stub (\S+)\s*$`)
			for _, f := range p.Syntax {
				src, err := os.ReadFile(p.Fset.Position(f.Pos()).Filename)
				if err != nil {
					return nil, err
				}
				lines := strings.Split(string(src), "\n")
				for k, l := range lines {
					m := re.FindStringSubmatch(l)
					if m == nil {
						continue
					}
					fm := regexp.MustCompile(`^func (\w+)`).FindStringSubmatch(lines[k+1])
					if fm == nil {
						return nil, fmt.Errorf("stub line without function: %s", l)
					}
					P.stubs[m[1]] = spkgs[i].Func(fm[1])
				}
			}
		}
	}
	_ = stubsPkg
	P.rtErr = T(P.symPkg.Type("RTErr").Type())
	P.nativeErr = T(P.symPkg.Type("NatErr").Type())
	if rp := prog.ImportedPackage("reflect"); rp != nil {
		rtypeT = T(types.NewPointer(rp.Type("rtype").Type()))
	}
	for _, g := range []string{"os.Stdout", "os.Stderr", "os.Stdin", "os.Args"} {
		okGlobals[g] = true
	}
	// initialisation order: imports first
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if sp := prog.Package(p); sp != nil && !P.excl[p.Path()] {
			order = append(order, sp)
		}
	}
	visit(P.symPkg.Pkg)
	if stubsPkg != nil {
		visit(stubsPkg.Types)
	}
	visit(P.harness.Pkg)
	return order, nil
}

// ---------- native replayer ----------

type native struct {
	bin  string
	err  error
	once sync.Once
	dir  string
}

func (n *native) build(harness string) {
	n.once.Do(func() {
		d, err := os.MkdirTemp("", "gosym-native-")
		if err != nil {
			n.err = err
			return
		}
		n.dir = d
		n.bin = filepath.Join(d, "native")
		c := exec.Command("go", "build", "-o", n.bin, "./cmd/native")
		c.Dir = harness
		if out, err := c.CombinedOutput(); err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	})
}

func (n *native) close() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

type natOut struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

// run replays the inputs, in a scratch directory, restarting the process when it dies.
func (n *native) run(cs []*cand, tier int) []natOut {
	res := make([]natOut, len(cs))
	i := 0
	for i < len(cs) {
		wd, _ := os.MkdirTemp("", "gosym-run-")
		c := exec.Command("/bin/sh", "-c", "ulimit -v 8000000; exec \"$0\"", n.bin) // runaway inputs must not take all memory
		c.Dir = wd
		var in strings.Builder
		for _, x := range cs[i:] {
			b, _ := json.Marshal(map[string]any{"entry": x.Entry, "vals": x.Vals, "tier": tier})
			in.Write(b)
			in.WriteByte('\n')
		}
		c.Stdin = strings.NewReader(in.String())
		var eb strings.Builder
		c.Stderr = &limitW{w: &eb, n: 4000}
		op, _ := c.StdoutPipe()
		if err := c.Start(); err != nil {
			for ; i < len(cs); i++ {
				res[i] = natOut{Status: "nostart", Msg: err.Error()}
			}
			os.RemoveAll(wd)
			break
		}
		sc := bufio.NewScanner(op)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for i < len(cs) && sc.Scan() {
			json.Unmarshal(sc.Bytes(), &res[i])
			i++
		}
		err := c.Wait()
		os.RemoveAll(wd)
		if i < len(cs) && (i == 0 || res[i-1].Status != "hang") {
			// the process died on input i
			st := "crash"
			e := eb.String()
			if strings.Contains(e, "stack overflow") || strings.Contains(e, "stack exceeds") {
				st = "overflow"
			} else if err == nil {
				st = "exit"
			} else if x, ok := err.(*exec.ExitError); ok && x.ExitCode() != 2 && !strings.Contains(e, "goroutine") {
				st = "exit"
			}
			if len(e) > 300 {
				e = e[:300]
			}
			res[i] = natOut{Status: st, Msg: e}
			i++
		}
	}
	return res
}

type limitW struct {
	w *strings.Builder
	n int
}

func (l *limitW) Write(b []byte) (int, error) {
	if k := l.n - l.w.Len(); k > 0 {
		if len(b) < k {
			k = len(b)
		}
		l.w.Write(b[:k])
	}
	return len(b), nil
}

// ---------- main ----------

func main() {
	id := flag.String("id", "", "property id")
	entry := flag.String("entry", "", "run only this entry")
	tier := flag.String("tier", "quick", "quick or thorough")
	root := flag.String("root", "/verif", "")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	budget := flag.Float64("budget", 0, "seconds for all entries together")
	smt := flag.String("smt", "z3-new", "solver binary")
	qto := flag.Int("qt", 0, "solver timeout per query, ms")
	replay := flag.String("replay", "", "replay a counterexample file against the compiled code")
	verbose := flag.Bool("v", false, "")
	trace := flag.Bool("trace", false, "")
	flag.StringVar(&coverFile, "cover", "", "add the executed lines of /repo to this file")
	noev := flag.Bool("noev", false, "do not write evidence")
	flag.Parse()
	debug.SetMemoryLimit(10 << 30)
	go watchMemory()
	if _, err := exec.LookPath(*smt); err != nil {
		*smt = "z3"
	}
	if *tier == "thorough" {
		optTier = 1
	}
	harness := filepath.Join(*root, "harness")
	t0 := time.Now()
	nat := &native{}
	defer nat.close()
	if *replay != "" {
		os.Exit(replayFile(nat, harness, *replay))
	}
	go nat.build(harness)
	order, err := loadProgram(harness)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		nat.build(harness)
		nat.close()
		os.Exit(2)
	}
	tLoad := time.Since(t0)
	var entries []*Fn
	prefix := *id + "_"
	for n, m := range P.harness.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(n, prefix) {
			continue
		}
		if *entry != "" && n != *entry {
			continue
		}
		entries = append(entries, P.fnOf(f))
	}
	sort.Slice(entries, func(i, j int) bool { return entries[i].f.Name() < entries[j].f.Name() })
	if len(entries) == 0 {
		fmt.Fprintln(os.Stderr, "no entries for", *id)
		nat.build(harness)
		nat.close()
		os.Exit(2)
	}
	to := *qto
	if to == 0 {
		to = 4000
		if optTier == 1 {
			to = 20000
		}
	}
	ws := make([]*workerState, *workers)
	var wg sync.WaitGroup
	errs := make([]error, len(ws))
	for i := range ws {
		ws[i] = newWorker(*smt, to)
		ws[i].vm.trace = *trace
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			errs[i] = ws[i].initPackages(order)
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			fmt.Fprintln(os.Stderr, e)
			nat.build(harness)
			nat.close()
			os.Exit(2)
		}
	}
	tInit := time.Since(t0) - tLoad
	total := *budget
	if total == 0 {
		total = 150
		if optTier == 1 {
			total = 600
		}
	}
	ck := &checkRun{id: *id, tier: *tier, root: *root, nat: nat, harness: harness, t0: t0, verbose: *verbose}
	left := time.Duration(total * float64(time.Second))
	for i, f := range entries {
		share := left / time.Duration(len(entries)-i)
		s := time.Now()
		rep, j := exploreEntry(ws, f, share)
		d := time.Since(s)
		left -= d
		if left < time.Second {
			left = time.Second
		}
		ck.add(rep, j, d)
		if *verbose {
			ck.print(rep, j, d)
		}
	}
	for _, w := range ws {
		ck.solverWall += w.vm.sol.wall
		ck.solverQ += w.vm.sol.queries
		ck.solverErr += w.vm.sol.errs
		if w.vm.sol.errMsg != "" {
			ck.solverErrMsg = w.vm.sol.errMsg
		}
		w.vm.sol.stop()
	}
	ck.load, ck.init = tLoad, tInit
	writeCover()
	nat.build(harness)
	code := ck.finish(!*noev)
	nat.close()
	os.Exit(code)
}
