package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

var verifDir = "/verif"

func readTemplate(name string) ([]byte, error) {
	return os.ReadFile(filepath.Join(verifDir, "harness", "templates", name))
}

const repoMod = "github.com/batchatco/go-native-netcdf"

// load type-checks the harness module together with /repo's working tree and all
// dependencies from source, and creates (lazily built) SSA for every package.
func load() (*Program, *ssa.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: filepath.Join(verifDir, "harness"),
		Env: append(os.Environ(), "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./h")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	var fset = pkgs[0].Fset
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	seen := map[*packages.Package]bool{}
	var create func(p *packages.Package)
	create = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, k := range sortedKeys(p.Imports) {
			create(p.Imports[k])
		}
		prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
	}
	for _, p := range pkgs {
		create(p)
	}
	P := &Program{prog: prog, built: map[*ssa.Package]bool{}, modules: []string{repoMod, "github.com/batchatco/go-thrower"}}
	hp := prog.ImportedPackage(repoMod + "/vh/h")
	if hp == nil {
		for _, p := range prog.AllPackages() {
			if p.Pkg.Path() == repoMod+"/vh/h" {
				hp = p
			}
		}
	}
	// build everything that may be executed up front, so that workers only read
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, p := range prog.AllPackages() {
		if !execPkg(p.Pkg.Path()) {
			continue
		}
		wg.Add(1)
		P.built[p] = true
		sem <- true
		go func() { p.Build(); <-sem; wg.Done() }()
	}
	wg.Wait()
	return P, hp, nil
}

var initPkgs = map[string]bool{"errors": true, "io": true, "bufio": true, "bytes": true, "strings": true, "strconv": true,
	"unicode/utf8": true, "encoding/binary": true, "sort": true, "slices": true, "maps": true, "cmp": true, "iter": true,
	"math": true, "math/bits": true, "hash": true, "hash/crc32": true, "hash/adler32": true, "path": true, "unicode/utf16": true,
	"compress/zlib": true, "compress/flate": true, "internal/byteorder": true, "internal/bytealg": true, "internal/stringslite": true,
	"internal/abi": false}

func execPkg(path string) bool {
	return initPkgs[path] || strings.HasPrefix(path, "github.com/batchatco/")
}

func (in *Interp) initPkg(pkg *ssa.Package) {
	if f := pkg.Func("init"); f != nil {
		in.call(in.cfunc(f), nil, nil, nil)
	}
}

func init() {
	// package initialisers of packages outside initPkgs are skipped
	prev := lookupHook
	lookupHook = func(name string, fn *ssa.Function) (intrinsic, bool) {
		if fn.Synthetic == "package initializer" && !execPkg(fnPkg(fn)) {
			return noop, true
		}
		return prev(name, fn)
	}
}

var lookupHook = func(name string, fn *ssa.Function) (intrinsic, bool) { return nil, false }

type task struct {
	fn     *ssa.Function
	prefix *plog
}

type harnessRun struct {
	Name       string
	st         *Stats
	viols      []Violation
	stop       bool
	wall       time.Duration
	samples    []Sample
	mu         sync.Mutex
	firstSeen  time.Time
	incomplete bool
}

type Sample struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
}

// queue hands out paths, giving each harness an equal share of the time and,
// within a harness, mixing depth-first order with picks from elsewhere, so that
// a run that hits its time limit has still covered a bit of everything.
type queue struct {
	mu      sync.Mutex
	cond    *sync.Cond
	stacks  []*stack
	pending int
	rng     *rand.Rand
}

type stack struct {
	fn    *ssa.Function
	tasks []task
	cost  time.Duration
	n     int
}

func (q *queue) stack(fn *ssa.Function) *stack {
	for _, s := range q.stacks {
		if s.fn == fn {
			return s
		}
	}
	s := &stack{fn: fn}
	q.stacks = append(q.stacks, s)
	return s
}

func (q *queue) push(t task) {
	q.mu.Lock()
	s := q.stack(t.fn)
	s.tasks = append(s.tasks, t)
	q.pending++
	q.mu.Unlock()
	q.cond.Signal()
}

func (q *queue) charge(fn *ssa.Function, d time.Duration) {
	q.mu.Lock()
	q.stack(fn).cost += d
	q.mu.Unlock()
}

func (q *queue) pop() (task, bool) {
	q.mu.Lock()
	defer q.mu.Unlock()
	for {
		if q.pending == 0 {
			q.cond.Broadcast()
			return task{}, false
		}
		var best *stack
		for _, s := range q.stacks {
			if len(s.tasks) > 0 && (best == nil || s.cost < best.cost) {
				best = s
			}
		}
		if best != nil {
			n := len(best.tasks)
			i := n - 1
			switch best.n++; best.n % 4 {
			case 0:
				i = q.rng.Intn(n)
			case 2:
				// the fewest decisions so far, of a sample
				i = q.rng.Intn(n)
				for k := 0; k < min(n, 2000); k++ {
					j := k
					if n > 2000 {
						j = q.rng.Intn(n)
					}
					if best.tasks[j].prefix.len() < best.tasks[i].prefix.len() {
						i = j
					}
				}
			}
			t := best.tasks[i]
			best.tasks[i] = best.tasks[n-1]
			best.tasks = best.tasks[:n-1]
			return t, true
		}
		q.cond.Wait()
	}
}

func (q *queue) done() {
	q.mu.Lock()
	q.pending--
	if q.pending == 0 {
		q.cond.Broadcast()
	}
	q.mu.Unlock()
}

type knownFile map[string]string // id -> text

func loadKnown() knownFile {
	k := knownFile{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "known: ") {
			f := strings.SplitN(l[len("known: "):], " ", 2)
			if len(f) == 2 {
				k[f[0]] = f[1]
			}
		}
	}
	return k
}

func merge(dst, src *Stats) {
	dst.Paths += src.Paths
	dst.Completed += src.Completed
	dst.Steps += src.Steps
	dst.Branches += src.Branches
	dst.Forks += src.Forks
	dst.Concretisations += src.Concretisations
	dst.Asserts += src.Asserts
	dst.AssertConcrete += src.AssertConcrete
	dst.AssertSym += src.AssertSym
	dst.Discharged += src.Discharged
	dst.AssertUnknown += src.AssertUnknown
	dst.Infeasible += src.Infeasible
	for k, v := range src.Unsupported {
		dst.Unsupported[k] += v
	}
	for k, v := range src.Bound {
		dst.Bound[k] += v
	}
	for k, v := range src.Inconclusive {
		dst.Inconclusive[k] += v
	}
	for k, v := range src.Reached {
		dst.Reached[k] += v
	}
	for k, v := range src.Funcs {
		dst.Funcs[k] += v
	}
	for k, v := range src.Prof {
		p := dst.Prof[k]
		p[0] += v[0]
		p[1] += v[1]
		dst.Prof[k] = p
	}
	s, d := &src.Solver, &dst.Solver
	d.Queries += s.Queries
	d.SatN += s.SatN
	d.UnsatN += s.UnsatN
	d.UnknownN += s.UnknownN
	d.CrossChecked += s.CrossChecked
	d.CrossDisagree += s.CrossDisagree
	d.Time += s.Time
	if s.MaxQuery > d.MaxQuery {
		d.MaxQuery = s.MaxQuery
	}
	d.Errors = append(d.Errors, s.Errors...)
}

func main() {
	debug.SetGCPercent(400)
	prop := flag.String("p", "", "property id")
	only := flag.String("only", "", "substring of harness names to run")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	solver := flag.String("solver", "z3-new", "z3-new, z3 or cvc5")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	budget := flag.Int("t", 0, "time budget in seconds")
	cross := flag.String("cross", "", "cross-check every assertion query with this solver")
	verbose := flag.Bool("v", false, "verbose")
	noReplay := flag.Bool("noreplay", false, "do not replay")
	dir := flag.String("dir", "", "verif directory")
	flag.Parse()
	if *dir != "" {
		verifDir = *dir
	} else if exe, err := os.Executable(); err == nil {
		d := filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(d, "harness")); err == nil {
			verifDir = d
		}
	}
	if *tier == "" {
		*tier = "quick"
	}
	if *budget == 0 {
		*budget = 300
		if *tier == "thorough" {
			*budget = 780
		}
	}
	start := time.Now()
	P, hp, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	loadTime := time.Since(start)
	var fns []*ssa.Function
	for _, n := range sortedKeys(hp.Members) {
		f, ok := hp.Members[n].(*ssa.Function)
		if !ok {
			continue
		}
		isT := strings.HasPrefix(n, "HT_"+*prop+"_")
		if !(strings.HasPrefix(n, "H_"+*prop+"_") || isT && *tier == "thorough") {
			continue
		}
		if *only != "" && !strings.Contains(n, *only) {
			continue
		}
		fns = append(fns, f)
	}
	if len(fns) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		os.Exit(2)
	}
	known := loadKnown()
	r := explore(P, hp, fns, *tier, *solver, *workers, time.Duration(*budget)*time.Second, *cross, *verbose, known)
	os.Exit(report(*prop, *tier, r, fns, known, start, loadTime, *solver, *cross, *budget, *noReplay, *verbose))
}

func explore(P *Program, hp *ssa.Package, fns []*ssa.Function, tier, solver string, workers int, budget time.Duration, cross string, verbose bool, known knownFile) map[string]*harnessRun {
	runs := map[string]*harnessRun{}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	q := &queue{rng: rand.New(rand.NewSource(seed))}
	q.cond = sync.NewCond(&q.mu)
	for i := len(fns) - 1; i >= 0; i-- {
		runs[fns[i].Name()] = &harnessRun{Name: fns[i].Name(), st: newStats()}
		q.push(task{fns[i], nil})
	}
	opt := Options{MaxSteps: 80_000_000, MaxConc: 260, MaxAlloc: 1 << 20, CrossCheck: cross, Tier: tier, Deadline: time.Now().Add(budget)}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			o := opt
			in, err := NewInterp(P, &o, newStats(), solver, 20000)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			in.profile = verbose
			if os.Getenv("VERIF_WATCH") != "" { // racy; for finding out where it's slow
				go func() {
					for {
						time.Sleep(10 * time.Second)
						func() {
							defer func() { recover() }()
							fmt.Fprintln(os.Stderr, "watch:", in.steps, in.trace())
						}()
					}
				}()
			}
			defer in.sol.Close()
			func() {
				defer func() {
					if r := recover(); r != nil {
						fmt.Fprintf(os.Stderr, "init failed: %v\n%s", r, in.trace())
						if gp, ok := r.(goPanic); ok {
							in.frames = nil
							fmt.Fprintln(os.Stderr, in.errString(gp.val), gp.trace)
						}
						os.Exit(2)
					}
				}()
				in.runInit(hp)
			}()
			for {
				t, ok := q.pop()
				if !ok {
					return
				}
				hr := runs[t.fn.Name()]
				hr.mu.Lock()
				skip := hr.stop
				hr.mu.Unlock()
				if !skip && time.Now().After(opt.Deadline) {
					hr.mu.Lock()
					hr.st.Bound["time limit"]++
					hr.mu.Unlock()
					skip = true
				}
				if skip {
					q.done()
					continue
				}
				t0 := time.Now()
				in.st = newStats()
				in.sol.st = &in.st.Solver
				in.viol = nil
				in.push = func(p *plog) { q.push(task{t.fn, p}) }
				var end *pathEnd
				func() {
					defer func() {
						if r := recover(); r != nil {
							in.st.Unsupported[fmt.Sprintf("executor error: %v%s", r, in.where())]++
							if verbose {
								fmt.Fprintf(os.Stderr, "%v\n%s\n%s", r, in.trace(), debug.Stack())
							}
						}
					}()
					end = in.runPath(t.fn, t.prefix)
				}()
				var smp *Sample
				if end == nil && len(in.viol) == 0 {
					hr.mu.Lock()
					need := len(hr.samples) < 12
					hr.mu.Unlock()
					if need {
						smp = in.sample()
					}
				}
				q.charge(t.fn, time.Since(t0))
				hr.mu.Lock()
				merge(hr.st, in.st)
				hr.wall += time.Since(t0)
				if smp != nil && len(hr.samples) < 12 {
					hr.samples = append(hr.samples, *smp)
				}
				for _, v := range in.viol {
					if v.Soft {
						if !hasSite(hr.viols, v) {
							hr.viols = append(hr.viols, v)
						}
						continue
					}
					if v.Known != "" {
						if _, listed := known[v.Known]; listed {
							if countKnown(hr.viols, v.Known) < 1 {
								hr.viols = append(hr.viols, v)
							}
							continue
						}
						v.Known = ""
					}
					if len(hr.viols) < 40 {
						hr.viols = append(hr.viols, v)
					}
					if distinct(hr.viols) >= 3 || hard(hr.viols) >= 12 {
						hr.stop = true
					}
				}
				hr.mu.Unlock()
				if verbose && len(in.lines) > 0 {
					for _, l := range in.lines {
						fmt.Fprintln(os.Stderr, t.fn.Name()+": "+l)
					}
				}
				in.lines = nil
				q.done()
			}
		}()
	}
	wg.Wait()
	return runs
}

func countKnown(v []Violation, id string) int {
	n := 0
	for _, x := range v {
		if x.Known == id {
			n++
		}
	}
	return n
}

// maxSoft is the most suspicions of a harness that are replayed.
const maxSoft = 15

// hasSite tells if there's already a suspicion at the same place, or there are enough of them.
func hasSite(v []Violation, w Violation) bool {
	n := 0
	for _, x := range v {
		if x.Soft {
			n++
			if x.Msg == w.Msg && x.Site == w.Site {
				return true
			}
		}
	}
	return n >= maxSoft
}

func hard(v []Violation) int {
	n := 0
	for _, x := range v {
		if !x.Soft {
			n++
		}
	}
	return n
}

func distinct(v []Violation) int {
	m := map[string]bool{}
	for _, x := range v {
		if x.Known == "" && !x.Soft {
			m[x.Msg] = true
		}
	}
	return len(m)
}

// sample concretises the inputs of the finished path.
func (in *Interp) sample() (s *Sample) {
	defer func() {
		if recover() != nil {
			s = nil
		}
	}()
	m := in.getModel()
	s = &Sample{Harness: in.harness, Inputs: map[string]string{}}
	for _, r := range in.inputs {
		x := r.v
		if r.t != nil {
			x, _ = m.Eval(r.t)
		}
		s.Inputs[r.name] = fmt.Sprint(x)
	}
	return s
}

// ---- native replay

var replayBin [2]string

// buildReplay compiles the harnesses, with Go's race detector if wanted.
func buildReplay(fns []*ssa.Function, race bool) (string, error) {
	k := 0
	if race {
		k = 1
	}
	if replayBin[k] != "" {
		return replayBin[k], nil
	}
	dir, err := os.MkdirTemp("", "vhreplay")
	if err != nil {
		return "", err
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"os\"\n\t\"" + repoMod + "/vh\"\n\t\"" + repoMod + "/vh/h\"\n)\n\nfunc main() {\n\tm := map[string]func(){\n")
	for _, f := range fns {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", f.Name(), f.Name())
	}
	sb.WriteString("\t}\n\tvh.Main(os.Args[1], m)\n}\n")
	src := filepath.Join(dir, "main.go")
	if err := os.WriteFile(src, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	hd := filepath.Join(verifDir, "harness")
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(hd, "cmd", "replay", "main.go"): src}})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	bin := filepath.Join(dir, "replay")
	args := []string{"build", "-overlay", ovf, "-o", bin, "./cmd/replay"}
	cgo := "CGO_ENABLED=0"
	if race {
		args = append([]string{"build", "-race"}, args[1:]...)
		cgo = "CGO_ENABLED=1"
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = hd
	cmd.Env = append(os.Environ(), cgo)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	replayBin[k] = bin
	return bin, nil
}

// runNative runs one harness natively with the given inputs. status: "ok",
// "assert: msg", "panic: msg", "exit", "assume", "timeout".
func runNative(bin, harness, tier string, inputs map[string]string, race bool) (string, string) {
	f, err := os.CreateTemp("", "vhin*.json")
	if err != nil {
		return "error", err.Error()
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(inputs)
	f.Write(b)
	f.Close()
	scratch, _ := os.MkdirTemp("", "vhscratch")
	defer os.RemoveAll(scratch)
	limit := "ulimit -v 12000000; "
	if race {
		limit = "" // the race detector uses a lot of addresses
	}
	cmd := exec.Command("bash", "-c", limit+"exec timeout -k 2 20 \"$0\" \"$1\"", bin, harness)
	cmd.Env = append(os.Environ(), "VH_INPUTS="+f.Name(), "VH_SCRATCH="+scratch, "VERIF_TIER="+tier,
		"VH_TEMPLATES="+filepath.Join(verifDir, "harness", "templates"), "GOMEMLIMIT=2GiB")
	out, err := cmd.CombinedOutput()
	text := string(out)
	if len(text) > 6000 {
		text = text[:3000] + "\n...\n" + text[len(text)-3000:]
	}
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	switch {
	case strings.Contains(text, "WARNING: DATA RACE"):
		return "race", text
	case code == 0 && strings.Contains(text, "VH-DONE"):
		return "ok", text
	case strings.Contains(text, "VH-ASSERT-FAILED"):
		return "assert", text
	case strings.Contains(text, "VH-ASSUME-FALSE"):
		return "assume", text
	case code == 124 || code == 137:
		return "timeout", text
	case strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:"):
		return "panic", text
	default:
		return "exit", text
	}
}

func report(prop, tier string, runs map[string]*harnessRun, fns []*ssa.Function, known knownFile, start time.Time, loadTime time.Duration, solver, cross string, budget int, noReplay, verbose bool) int {
	tot := newStats()
	var hsum []map[string]any
	var samples []any
	exit := 0
	nviol := 0
	validated, mismatched, unconfirmed := 0, 0, 0
	var notes []string
	knownSeen := map[string]bool{}
	var allSamples []Sample
	var reportLines []string
	for _, f := range fns {
		hr := runs[f.Name()]
		merge(tot, hr.st)
		h := map[string]any{
			"harness": hr.Name, "paths": hr.st.Paths, "completed": hr.st.Completed, "infeasible": hr.st.Infeasible,
			"assertions": hr.st.Asserts, "discharged": hr.st.Discharged, "symbolic_assertions": hr.st.AssertSym,
			"solver_queries": hr.st.Solver.Queries, "solver_s": round(hr.st.Solver.Time.Seconds()),
			"cpu_s": round(hr.wall.Seconds()), "instructions": hr.st.Steps, "reached": hr.st.Reached,
		}
		if len(hr.st.Unsupported)+len(hr.st.Bound)+len(hr.st.Inconclusive) > 0 {
			h["reduced_bound"] = map[string]any{"unsupported": hr.st.Unsupported, "bound": hr.st.Bound, "inconclusive": hr.st.Inconclusive}
		}
		if len(hr.st.Reached) == 0 && len(hr.viols) == 0 {
			h["vacuous"] = true
			notes = append(notes, hr.Name+": no reachability witness reached")
		}
		hsum = append(hsum, h)
		for i, s := range hr.samples {
			if i < 1 {
				samples = append(samples, s)
			}
			if i < 4 || tier == "thorough" {
				allSamples = append(allSamples, s)
			}
		}
		if len(hr.viols) == 0 {
			continue
		}
		sort.SliceStable(hr.viols, func(i, j int) bool { return hr.viols[i].Msg < hr.viols[j].Msg })
		reported := map[string]bool{}
		for _, v := range hr.viols {
			if v.Known != "" {
				if !knownSeen[v.Known] {
					knownSeen[v.Known] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, v.Known, known[v.Known])
				}
				continue
			}
			if reported[v.Msg] {
				continue
			}
			status, text := "unreplayed", ""
			if !noReplay {
				bin, err := buildReplay(fns, v.Race)
				if err != nil {
					fmt.Fprintln(os.Stderr, "replay build:", err)
					return 2
				}
				// iteration order of Go maps is random natively: allow several attempts
				for try := 0; try < 12 && (try == 0 || !v.Soft); try++ {
					status, text = runNative(bin, v.Harness, tier, v.Inputs, v.Race)
					if status != "ok" {
						break
					}
				}
			}
			if verbose {
				b, _ := json.MarshalIndent(v, "", " ")
				fmt.Fprintf(os.Stderr, "%s\nreplay: %s\n%s\n", b, status, text)
			}
			if status == "ok" || status == "assume" || status == "error" {
				unconfirmed++
				notes = append(notes, fmt.Sprintf("counterexample of %s (%s) did not reproduce natively (%s): not reported", v.Harness, strings.TrimSpace(v.Msg+" "+v.Site), status))
				continue
			}
			reported[v.Msg] = true
			nviol++
			dir := filepath.Join(verifDir, "evidence", "replay")
			os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, v.Harness, nviol))
			b, _ := json.MarshalIndent(map[string]any{"property": prop, "violation": v, "native_status": status, "native_output": text,
				"how": "bin/engine replays natively: VH_INPUTS=<inputs json> replay " + v.Harness}, "", " ")
			os.WriteFile(path, b, 0o644)
			reportLines = append(reportLines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path))
			reportLines = append(reportLines, fmt.Sprintf("  %s: %s [native: %s]", v.Harness, v.Msg, status))
			exit = 1
		}
	}
	// validate the encoding: models of passing paths must pass natively too
	if !noReplay && exit == 0 && len(allSamples) > 0 {
		bin, err := buildReplay(fns, false)
		if err != nil {
			fmt.Fprintln(os.Stderr, "replay build:", err)
			return 2
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		lim := 40
		if tier == "thorough" {
			lim = 200
		}
		for i, s := range allSamples {
			if i >= lim {
				break
			}
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				st, text := runNative(bin, s.Harness, tier, s.Inputs, false)
				mu.Lock()
				defer mu.Unlock()
				validated++
				if st != "ok" {
					mismatched++
					notes = append(notes, fmt.Sprintf("encoding mismatch: %s passes symbolically, natively %s: %.300s", s.Harness, st, text))
					if verbose {
						fmt.Fprintln(os.Stderr, "MISMATCH", s, st, text)
					}
				}
				<-sem
			}()
		}
		wg.Wait()
	}
	for _, b := range replayBin {
		if b == "" {
			continue
		}
		os.RemoveAll(filepath.Dir(b))
	}
	var funcs []string
	for f := range tot.Funcs {
		funcs = append(funcs, strings.ReplaceAll(f, repoMod+"/", ""))
	}
	sort.Strings(funcs)
	reduced := len(tot.Unsupported)+len(tot.Bound)+len(tot.Inconclusive) > 0 || tot.AssertUnknown > 0
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        tot.Paths,
			"transitions":                   tot.Branches + tot.Concretisations,
			"traces_validated_against_impl": validated - mismatched,
			"samples":                       samples,
			"explanation":                   "states = symbolic paths of the harness through the real code (each stands for every input satisfying its path condition); transitions = branch and concretisation decisions settled by the SMT solver",
			"paths_completed":               tot.Completed,
			"obligations":                   tot.Asserts,
			"discharged":                    tot.Discharged,
			"obligations_symbolic":          tot.AssertSym,
			"obligations_concrete_on_path":  tot.AssertConcrete,
			"solver":                        solver,
			"solver_queries":                tot.Solver.Queries,
			"solver_sat":                    tot.Solver.SatN,
			"solver_unsat":                  tot.Solver.UnsatN,
			"solver_unknown":                tot.Solver.UnknownN,
			"solver_s":                      round(tot.Solver.Time.Seconds()),
			"solver_max_query_s":            round(tot.Solver.MaxQuery.Seconds()),
			"solver_errors":                 len(tot.Solver.Errors),
			"cross_checked":                 tot.Solver.CrossChecked,
			"cross_disagree":                tot.Solver.CrossDisagree,
			"instructions":                  tot.Steps,
			"functions_encoded":             funcs,
			"harnesses":                     hsum,
			"exhaustive":                    !reduced,
			"load_s":                        round(loadTime.Seconds()),
			"counterexamples_not_replayed":  unconfirmed,
			"encoding_mismatches":           mismatched,
			"notes":                         notes,
		},
		"assumptions": assumptions,
		"wall_s":      round(time.Since(start).Seconds()),
		"violations":  nviol,
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	status := "held within the stated bounds"
	if exit == 1 {
		status = "VIOLATED"
	} else if reduced {
		status = "held on everything explored (bound reduced, see evidence)"
	}
	fmt.Printf("%s [%s] %s: %d harnesses, %d paths, %d/%d obligations discharged (%d symbolic), %d solver queries, solver %.1fs, wall %.1fs\n",
		prop, tier, status, len(fns), tot.Paths, tot.Discharged, tot.Asserts, tot.AssertSym, tot.Solver.Queries, tot.Solver.Time.Seconds(), time.Since(start).Seconds())
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if reduced || verbose {
		for _, h := range hsum {
			if r, ok := h["reduced_bound"]; ok {
				b, _ := json.Marshal(r)
				if !verbose && len(b) > 300 {
					b = append(b[:300:300], " ... (the rest is in the evidence file)"...)
				}
				fmt.Printf("reduced bound: %s %s\n", h["harness"], b)
			}
		}
	}
	if verbose {
		for _, h := range hsum {
			b, _ := json.Marshal(h)
			fmt.Println(string(b))
		}
		ks := sortedKeys(tot.Prof)
		sort.SliceStable(ks, func(i, j int) bool { return tot.Prof[ks[i]][1] > tot.Prof[ks[j]][1] })
		for i, k := range ks {
			if i < 12 {
				fmt.Printf("prof: %6.0f queries %7.1fs %s\n", tot.Prof[k][0], tot.Prof[k][1]/1000, k)
			}
		}
		for _, e := range tot.Solver.Errors {
			fmt.Println("solver error:", e)
		}
	}
	for _, l := range reportLines {
		fmt.Println(l)
	}
	return exit
}

func round(f float64) float64 {
	return float64(int64(f*1000)) / 1000
}

var assumptions = []string{
	"Go semantics as implemented by the SSA executor in /verif/engine; its agreement with the compiler is checked by replaying models of passing paths natively",
	"package reflect, os files, sync, fmt/log text, regexp compilation and time are modelled (see DESIGN.md), everything else of the standard library that is reached is executed from source",
	"bounds are those written in the harnesses (sizes, counts, depths); allocations above 2^20 elements and runs above 80M instructions per path are outside",
}
