package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func fval(w uint8, n uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(n)))
	}
	return math.Float64frombits(n)
}

// ---- path control

type endKind int

const (
	endInfeasible  endKind = iota // assumption false
	endUnsupported                // construct the executor does not model
	endBound                      // step / concretisation bound
	endInconclusive
	endViolated // path cannot continue after a violation
)

type pathEnd struct {
	kind endKind
	msg  string
}

type exitPanic struct{ code int }

type goPanic struct {
	val   Value // interface value
	trace string
}

type entry struct {
	v    uint64
	flag uint8 // 1: implied (nothing to assert), 2: negative (concretisation: != v), 4: choice
}

type Violation struct {
	Soft    bool              `json:"soft,omitempty"`
	Race    bool              `json:"race,omitempty"` // of vh.Parallel
	Site    string            `json:"site,omitempty"` // of soft ones
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Known   string            `json:"known,omitempty"`
	Inputs  map[string]string `json:"inputs"`
	Order   []string          `json:"order"`
	Trace   string            `json:"trace,omitempty"`
}

type Stats struct {
	Paths, Completed                   int
	Steps                              int64
	Branches, Forks, Concretisations   int
	Asserts, AssertConcrete, AssertSym int
	Discharged, AssertUnknown          int
	Infeasible                         int
	Unsupported                        map[string]int
	Bound                              map[string]int
	Inconclusive                       map[string]int
	Reached                            map[string]int
	Prof                               map[string][2]float64
	Funcs                              map[string]int64
	Solver                             SolverStats
}

func newStats() *Stats {
	return &Stats{Unsupported: map[string]int{}, Bound: map[string]int{}, Inconclusive: map[string]int{}, Reached: map[string]int{}, Prof: map[string][2]float64{}, Funcs: map[string]int64{}}
}

type Options struct {
	MaxSteps   int64
	MaxConc    int
	MaxAlloc   int64
	CrossCheck string
	Tier       string
	Deadline   time.Time
	MapOrder   bool
}

// Program is the shared, immutable SSA program.
type Program struct {
	prog    *ssa.Program
	mu      sync.Mutex
	built   map[*ssa.Package]bool
	modules []string // import path prefixes counted as code under test
}

type Interp struct {
	P     *Program
	pool  *Pool
	sol   *Solver
	st    *Stats
	opt   *Options
	tis   map[types.Type]*tinfo
	cfs   map[*ssa.Function]*cfunc
	globs map[*ssa.Global]Value

	tByte, tString, tInt, tError, tAny *tinfo

	initPhase bool
	inited    map[*ssa.Package]bool
	journal   []func()
	nobj      int
	mcache    map[mkey]*ssa.Function
	asCache   map[askey]bool

	// per path
	prefix    []entry
	pos       int
	log       *plog
	push      func(*plog)
	model     *Model
	pc        []*Term
	steps     int64
	depth     int
	frames    []*frame
	names     map[string]int
	inputs    []inputRec
	fs        map[string]*memFile
	openFiles int
	tmpN      int
	viol      []Violation
	pins      Pins
	mapMode   int
	nextTick  int64
	profile   bool
	par       *par
	robust    int64
	decided   int // symbolic branches of the path
	symAlloc  int64
	exitOK    bool
	onceM     map[any]any
	syncMaps  map[loc]*Map
	pools     map[loc][]Value
	harness   string
	stack     []Value
	sp        int
	lines     []string
	sticky    string
	clockN    int64
}

type inputRec struct {
	name string
	t    *Term
	v    uint64 // when concrete choice
	w    uint8
}

type mkey struct {
	t  types.Type
	id string
}
type askey struct {
	t, i types.Type
}

func (in *Interp) unsupported(f string, a ...any) {
	panic(pathEnd{endUnsupported, fmt.Sprintf(f, a...) + in.where()})
}

func (in *Interp) where() string {
	var sb strings.Builder
	n := 0
	for i := len(in.frames) - 1; i >= 0 && n < 6; i-- {
		sb.WriteString(" < ")
		sb.WriteString(in.frames[i].fn.name)
		n++
	}
	return sb.String()
}

// site has the names of the innermost functions of the code under test.
func (in *Interp) site() string {
	var names []string
	for i := len(in.frames) - 1; i >= 0 && len(names) < 4; i-- {
		f := in.frames[i].fn
		if f.isRepo && (len(names) == 0 || names[len(names)-1] != f.name) {
			names = append(names, f.name)
		}
	}
	return strings.Join(names, " < ")
}

func (in *Interp) trace() string {
	var sb strings.Builder
	for i := len(in.frames) - 1; i >= 0; i-- {
		f := in.frames[i]
		sb.WriteString(f.fn.name)
		if f.cur != nil && f.cur.Pos().IsValid() {
			p := in.P.prog.Fset.Position(f.cur.Pos())
			fmt.Fprintf(&sb, " (%s:%d)", p.Filename, p.Line)
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

// rtPanic raises a Go run-time error.
func (in *Interp) rtPanic(msg string) {
	t := in.rtErrType()
	panic(goPanic{val: Value{O: &Iface{t: t, v: mkStr(msg)}}, trace: in.trace()})
}

func (in *Interp) rtErrType() types.Type {
	pk := in.P.prog.ImportedPackage("runtime")
	return pk.Type("errorString").Type()
}

func (in *Interp) goPanicStr(msg string) {
	t := in.P.prog.ImportedPackage("runtime").Type("plainError").Type()
	panic(goPanic{val: Value{O: &Iface{t: t, v: mkStr(msg)}}, trace: in.trace()})
}

// ---- solver interface

func (in *Interp) assertPC(t *Term) {
	if t.isTrue() {
		return
	}
	in.pc = append(in.pc, t)
	in.pins.learn(t)
	in.sol.Assert(t)
	if in.model != nil {
		if v, ok := in.model.Eval(t); !ok || v != 1 {
			in.model = nil
		}
	}
}

func (in *Interp) check(t *Term) (Result, *Model) {
	m := in.pool.NewModel()
	t0 := time.Now()
	r := in.sol.Check(t, in.pool.vars, m)
	if in.profile {
		loc := in.trace()
		if f := strings.SplitN(loc, "\n", 4); len(f) > 3 {
			loc = f[0] + " < " + f[1] + " < " + f[2]
		}
		p := in.st.Prof[loc]
		p[0]++
		p[1] += float64(time.Since(t0).Milliseconds())
		in.st.Prof[loc] = p
	}
	if r == Unknown {
		for _, alt := range []string{"cvc5", "z3"} {
			r = in.sol.CrossCheck(alt, t, in.sol.timeMs)
			if r == Unsat {
				return r, nil
			}
			if r == Sat {
				// need a model: give up on this one unless the main solver finds it
				return Unknown, nil
			}
		}
	}
	if r != Sat {
		return r, nil
	}
	return r, m
}

// feasible model of the current path condition
func (in *Interp) getModel() *Model {
	if in.model == nil {
		r, m := in.check(in.pool.Bool(true))
		switch r {
		case Sat:
			in.model = m
		case Unsat:
			panic(pathEnd{endInfeasible, "path condition"})
		default:
			panic(pathEnd{endInconclusive, "solver unknown on path condition" + in.where()})
		}
	}
	return in.model
}

// pathBound is raised when a worker should stop (deadline).
func (in *Interp) checkDeadline() {
	if time.Now().After(in.opt.Deadline) {
		panic(pathEnd{endBound, "time limit"})
	}
}

// plog is a list of decisions, newest first, sharing its tail with others.
type plog struct {
	up *plog
	n  int
	e  entry
}

func (l *plog) with(e entry) *plog {
	n := 1
	if l != nil {
		n = l.n + 1
	}
	return &plog{l, n, e}
}

func (l *plog) len() int {
	if l == nil {
		return 0
	}
	return l.n
}

func (l *plog) list() []entry {
	r := make([]entry, l.len())
	for ; l != nil; l = l.up {
		r[l.n-1] = l.e
	}
	return r
}

func (in *Interp) logE(e entry) { in.log = in.log.with(e) }

func (in *Interp) fork(e entry) {
	in.st.Forks++
	in.push(in.log.with(e))
}

// maxDecided is the most symbolic branches of a path that has a step bound.
const maxDecided = 600

// truth turns a boolean value into a concrete one, forking when both outcomes are feasible.
func (in *Interp) truth(v Value) bool {
	if v.T == nil {
		return v.N != 0
	}
	c := v.T
	if c.isConst() {
		return c.k == 1
	}
	if in.initPhase {
		in.unsupported("symbolic branch in init")
	}
	if x, ok := in.pins.Eval(c); ok {
		return x == 1
	}
	if in.decided++; in.robust > 0 && in.decided > maxDecided {
		panic(pathEnd{endBound, "more symbolic branches than are followed" + in.where()})
	}
	if in.pos < len(in.prefix) {
		e := in.prefix[in.pos]
		in.pos++
		in.logE(e)
		if e.flag&1 == 0 {
			if e.v == 1 {
				in.assertPC(c)
			} else {
				in.assertPC(in.pool.Not(c))
			}
		}
		return e.v == 1
	}
	in.checkDeadline()
	in.st.Branches++
	if len(in.pc) == 0 && in.model == nil {
		in.model = in.pool.NewModel()
	}
	known := -1
	if in.model != nil {
		if x, ok := in.model.Eval(c); ok {
			known = int(x)
		}
	}
	nc := in.pool.Not(c)
	var rt, rf Result
	var mt, mf *Model
	switch known {
	case 1:
		rt, mt = Sat, in.model
		rf, mf = in.check(nc)
	case 0:
		rf, mf = Sat, in.model
		rt, mt = in.check(c)
	default:
		rt, mt = in.check(c)
		rf, mf = in.check(nc)
	}
	switch {
	case rt == Unsat && rf == Unsat:
		panic(pathEnd{endInfeasible, "branch"})
	case rt == Unsat:
		in.logE(entry{0, 1})
		in.model = mf
		return false
	case rf == Unsat:
		in.logE(entry{1, 1})
		in.model = mt
		return true
	case rt == Unknown || rf == Unknown:
		panic(pathEnd{endInconclusive, "solver unknown on branch" + in.where()})
	}
	in.fork(entry{0, 0})
	in.logE(entry{1, 0})
	in.model = mt
	in.assertPC(c)
	return true
}

const concLinear = 10

// concTerm enumerates the feasible values of t by forking.
func (in *Interp) concTerm(t *Term, what string) uint64 {
	if x, ok := in.pins.Eval(t); ok {
		return x
	}
	n, split := 0, false
	for {
		if n == concLinear && !split {
			// many values: bisect the small ones instead of excluding them one by one
			split = true
			if t.w > 13 && in.truth(fromTerm(in.pool.ULt(t, in.pool.Const(t.w, 1<<13)))) {
				v := uint64(0)
				for b := 12; b >= 0; b-- {
					bit := in.pool.Eq(in.pool.Extract(t, uint8(b), uint8(b)), in.pool.Const(1, 1))
					if in.truth(fromTerm(bit)) {
						v |= 1 << uint(b)
					}
				}
				in.st.Concretisations++
				return v
			}
		}
		if in.pos < len(in.prefix) {
			e := in.prefix[in.pos]
			in.pos++
			in.logE(e)
			q := in.pool.Eq(t, in.pool.Const(t.w, e.v))
			if e.flag&2 != 0 {
				in.assertPC(in.pool.Not(q))
				n++
				continue
			}
			if e.flag&1 == 0 {
				in.assertPC(q)
			} else {
				in.pins.learn(q)
			}
			return e.v
		}
		in.checkDeadline()
		m := in.getModel()
		v, ok := m.Eval(t)
		if !ok {
			in.unsupported("concretisation of a floating point term")
		}
		q := in.pool.Eq(t, in.pool.Const(t.w, v))
		nq := in.pool.Not(q)
		r, _ := in.check(nq)
		in.st.Concretisations++
		if r == Unsat {
			in.logE(entry{v, 1})
			in.pins.learn(q)
			return v
		}
		if r == Unknown {
			panic(pathEnd{endInconclusive, "solver unknown on concretisation" + in.where()})
		}
		if n >= in.opt.MaxConc {
			// explore this value, drop the rest: incomplete
			in.st.Bound[fmt.Sprintf("more than %d values of %s%s", in.opt.MaxConc, what, in.where())]++
		} else {
			in.fork(entry{v, 2})
		}
		in.logE(entry{v, 0})
		in.assertPC(q)
		return v
	}
}

// oneOf picks one feasible value of t, recorded so that the path can be repeated.
func (in *Interp) oneOf(t *Term) uint64 {
	if in.pos < len(in.prefix) {
		e := in.prefix[in.pos]
		in.pos++
		in.logE(e)
		return e.v
	}
	v, ok := in.getModel().Eval(t)
	if !ok {
		in.unsupported("concretisation of a floating point term")
	}
	in.logE(entry{v, 4})
	return v
}

// spread enumerates the values of t up to symAlloc, and follows one value of each
// of a few ranges above.
func (in *Interp) spread(t *Term) uint64 {
	p := in.pool
	if x, ok := in.pins.Eval(t); ok {
		return x
	}
	lo := uint64(in.symAlloc)
	if in.truth(fromTerm(p.ULe(t, p.Const(t.w, lo)))) {
		return in.concTerm(t, "length")
	}
	in.st.Bound[fmt.Sprintf("symbolic length above %d, one value in each of a few ranges followed", lo)+in.where()]++
	for _, k := range []uint64{1 << 16, 1 << 33, 1 << 48} {
		if t.w > 48 || k < 1<<t.w {
			if in.truth(fromTerm(p.ULe(t, p.Const(t.w, k)))) {
				break
			}
		}
	}
	v := in.oneOf(t)
	in.assertPC(p.Eq(t, p.Const(t.w, v)))
	return v
}

// conc returns the concrete value of a scalar.
func (in *Interp) conc(v Value, w uint8, what string) uint64 {
	if v.T == nil {
		return v.N
	}
	return in.concTerm(v.T, what)
}

// choose forks over 0..n-1 without the solver.
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if in.pos < len(in.prefix) {
		e := in.prefix[in.pos]
		in.pos++
		in.logE(e)
		return int(e.v)
	}
	in.checkDeadline()
	for i := n - 1; i >= 1; i-- {
		in.fork(entry{uint64(i), 4})
	}
	in.logE(entry{0, 4})
	return 0
}

func (in *Interp) assume(v Value) {
	if v.T == nil {
		if v.N == 0 {
			panic(pathEnd{endInfeasible, "assume"})
		}
		return
	}
	if in.pos < len(in.prefix) {
		in.assertPC(v.T)
		return
	}
	in.assertPC(v.T)
	in.getModel()
}

func (in *Interp) violation(msg, known string, m *Model) {
	v := Violation{Harness: in.harness, Msg: msg, Known: known, Inputs: map[string]string{}, Trace: in.trace()}
	for _, r := range in.inputs {
		x := r.v
		if r.t != nil {
			x, _ = m.Eval(r.t)
		}
		v.Inputs[r.name] = fmt.Sprint(x)
		v.Order = append(v.Order, r.name)
	}
	in.viol = append(in.viol, v)
}

// soft ends the path with a suspected failure that only native replay can confirm.
func (in *Interp) soft(msg string) {
	w := in.where()
	in.violation(msg, in.sticky, in.getModel())
	in.viol[len(in.viol)-1].Soft = true
	in.viol[len(in.viol)-1].Site = in.site()
	panic(pathEnd{endBound, msg + w})
}

// assert decides the property c on the current path.
func (in *Interp) assert(c Value, msg, known string) {
	replay := in.pos < len(in.prefix)
	if !replay {
		in.st.Asserts++
	}
	if c.T == nil {
		if replay {
			return
		}
		in.st.AssertConcrete++
		if c.N != 0 {
			in.st.Discharged++
			return
		}
		in.violation(msg, known, in.getModel())
		if known == "" {
			panic(pathEnd{endViolated, msg})
		}
		return
	}
	if replay {
		in.assertPC(c.T)
		return
	}
	in.st.AssertSym++
	nc := in.pool.Not(c.T)
	r, m := in.check(nc)
	if in.opt.CrossCheck != "" && r != Unknown {
		in.st.Solver.CrossChecked++
		r2 := in.sol.CrossCheck(in.opt.CrossCheck, nc, in.sol.timeMs)
		if r2 != Unknown && r2 != r {
			in.st.Solver.CrossDisagree++
			r = Unknown
		}
	}
	switch r {
	case Unsat:
		in.st.Discharged++
	case Sat:
		in.violation(msg, known, m)
		if known == "" {
			panic(pathEnd{endViolated, msg})
		}
	default:
		in.st.AssertUnknown++
		in.st.Inconclusive["assertion undecided: "+msg]++
	}
	in.assertPC(c.T)
	if r == Sat {
		in.getModel()
	}
}

// ---- frames and calls

type deferred struct {
	fn   Value
	args []Value
	bi   string
}

type frame struct {
	in        *Interp
	fn        *cfunc
	regs      []Value
	defers    []deferred
	result    Value
	panicking bool
	pval      goPanic
	caller    *frame
	cur       ssa.Instruction
	recovered bool
}

type cInstr func(fr *frame)

type cblock struct {
	instrs []cInstr
	src    []ssa.Instruction
	term   func(fr *frame) int // successor index or -1
	succs  []int
	moves  [][]move // per successor
	merge  *ifmerge
}

// ifmerge describes a branch that can be joined without forking.
type ifmerge struct {
	cond   opnd
	t, f   *cblock // arms, nil if the branch goes to the join directly
	join   int
	mt, mf []move
	num    []bool
	w      []uint8
}

type move struct {
	dst int
	src opnd
}

type cfunc struct {
	fn      *ssa.Function
	name    string
	nregs   int
	blocks  []*cblock
	intr    func(in *Interp, args []Value) Value
	hasDef  bool
	recBlk  int
	isRepo  bool
	nparams int
}

const maxDepth = 3000

func (in *Interp) call(cf *cfunc, args []Value, free []Value, caller *frame) Value {
	if cf.intr != nil {
		return cf.intr(in, args)
	}
	if cf.blocks == nil {
		in.compileBody(cf)
	}
	in.depth++
	if in.depth > maxDepth {
		in.depth = 0
		in.soft("recursion without end")
	}
	if cf.isRepo {
		in.st.Funcs[cf.name]++
	}
	sp := in.sp
	if sp+cf.nregs > len(in.stack) {
		in.soft("recursion without end")
	}
	regs := in.stack[sp : sp+cf.nregs : sp+cf.nregs]
	in.sp = sp + cf.nregs
	fr := &frame{in: in, fn: cf, regs: regs, caller: caller}
	n := copy(regs, args)
	copy(regs[n:], free)
	in.frames = append(in.frames, fr)
	if cf.hasDef {
		in.runProtected(fr)
	} else {
		in.exec(fr, 0)
	}
	in.frames = in.frames[:len(in.frames)-1]
	clear(regs)
	in.sp = sp
	in.depth--
	return fr.result
}

// runProtected executes a function that has defers.
func (in *Interp) runProtected(fr *frame) {
	nf, depth, sp := len(in.frames), in.depth, in.sp
	func() {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(goPanic)
				if !ok {
					panic(r)
				}
				for _, f := range in.frames[nf:] {
					clear(f.regs)
				}
				in.frames, in.depth, in.sp = in.frames[:nf], depth, sp
				fr.panicking, fr.pval = true, gp
			}
		}()
		in.exec(fr, 0)
	}()
	if !fr.panicking {
		return
	}
	in.runDefers(fr)
	// recovered
	if fr.fn.recBlk >= 0 {
		in.exec(fr, fr.fn.recBlk)
	}
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		nf, depth, sp := len(in.frames), in.depth, in.sp
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(goPanic)
					if !ok {
						panic(r)
					}
					for _, f := range in.frames[nf:] {
						clear(f.regs)
					}
					in.frames, in.depth, in.sp = in.frames[:nf], depth, sp
					fr.panicking, fr.pval = true, gp
				}
			}()
			in.callValue(d.fn, d.args, fr)
		}()
	}
	if fr.panicking {
		panic(fr.pval)
	}
}

func (in *Interp) callValue(f Value, args []Value, caller *frame) Value {
	c, ok := f.O.(*Closure)
	if !ok {
		if f.O == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		in.unsupported("call of %T", f.O)
	}
	if c.nat != nil {
		return c.nat(in, args)
	}
	return in.call(c.fn, args, c.free, caller)
}

func (in *Interp) doRecover(fr *frame) Value {
	// fr is the deferred function; its caller must be panicking
	if fr.caller != nil && fr.caller.panicking {
		c := fr.caller
		c.panicking = false
		return c.pval.val
	}
	return Value{}
}

func (in *Interp) exec(fr *frame, bi int) {
	blocks := fr.fn.blocks
	var tmp [8]Value
	for {
		b := blocks[bi]
		in.steps += int64(len(b.instrs)) + 1
		if in.robust > 0 && in.steps > in.robust {
			in.soft("does not end within the step bound")
		}
		if in.steps > in.nextTick {
			in.nextTick = in.steps + 4_000_000
			in.checkDeadline()
		}
		if in.steps > in.opt.MaxSteps {
			in.soft("does not end within the instruction bound")
		}
		for i, f := range b.instrs {
			fr.cur = b.src[i]
			f(fr)
		}
		if b.merge != nil && fr.tryMerge(b.merge) {
			bi = b.merge.join
			continue
		}
		k := b.term(fr)
		if k < 0 {
			return
		}
		mv := b.moves[k]
		bi = b.succs[k]
		switch len(mv) {
		case 0:
		case 1:
			fr.regs[mv[0].dst] = mv[0].src.get(fr)
		default:
			t := tmp[:0]
			for i := range mv {
				t = append(t, mv[i].src.get(fr))
			}
			for i := range mv {
				fr.regs[mv[i].dst] = t[i]
			}
		}
	}
}

// ---- method lookup

func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	key := mkey{t, m.Id()}
	if f, ok := in.mcache[key]; ok {
		return f
	}
	in.P.mu.Lock()
	ms := in.P.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	var f *ssa.Function
	if sel != nil {
		f = in.P.prog.MethodValue(sel)
	}
	in.P.mu.Unlock()
	in.mcache[key] = f
	return f
}

func (in *Interp) methodByName(t types.Type, name string) *ssa.Function {
	in.P.mu.Lock()
	defer in.P.mu.Unlock()
	ms := in.P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return in.P.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (in *Interp) implements(t types.Type, i *types.Interface) bool {
	key := askey{t, i}
	if r, ok := in.asCache[key]; ok {
		return r
	}
	r := types.Implements(t, i)
	in.asCache[key] = r
	return r
}

// errString renders a panic or error value as text.
func (in *Interp) errString(v Value) string {
	i, _ := v.O.(*Iface)
	if i == nil {
		return "<nil>"
	}
	if f := in.methodByName(i.t, "Error"); f != nil {
		r := in.call(in.cfunc(f), []Value{i.v}, nil, nil)
		return in.showStr(r)
	}
	ti := in.ti(i.t)
	switch ti.kind {
	case KString:
		return in.showStr(i.v)
	case KInt:
		if i.v.T == nil {
			if ti.signed {
				return fmt.Sprint(sext(i.v.N, ti.w))
			}
			return fmt.Sprint(i.v.N)
		}
	}
	return types.TypeString(i.t, nil)
}

func (in *Interp) showStr(v Value) string {
	if s, ok := goStr(v); ok {
		return s
	}
	s := v.O.(*SymStr)
	var sb strings.Builder
	for i := range s.b {
		if s.t[i] != nil {
			sb.WriteByte('?')
		} else {
			sb.WriteByte(s.b[i])
		}
	}
	return sb.String()
}

// ---- running paths

func NewInterp(P *Program, opt *Options, st *Stats, solver string, timeMs int) (*Interp, error) {
	in := &Interp{P: P, opt: opt, st: st, pins: Pins{vals: map[uint64]uint64{}}}
	in.pool = NewPool()
	var err error
	in.sol, err = NewSolver(solver, timeMs, &st.Solver)
	if err != nil {
		return nil, err
	}
	in.tis = map[types.Type]*tinfo{}
	in.cfs = map[*ssa.Function]*cfunc{}
	in.globs = map[*ssa.Global]Value{}
	in.inited = map[*ssa.Package]bool{}
	in.mcache = map[mkey]*ssa.Function{}
	in.asCache = map[askey]bool{}
	in.stack = make([]Value, 1<<18)
	in.tByte = in.ti(types.Typ[types.Uint8])
	in.tString = in.ti(types.Typ[types.String])
	in.tInt = in.ti(types.Typ[types.Int])
	in.tError = in.ti(types.Universe.Lookup("error").Type())
	in.tAny = in.ti(types.NewInterfaceType(nil, nil))
	return in, nil
}

func (in *Interp) resetPath(pl *plog) {
	prefix := pl.list()
	for i := len(in.journal) - 1; i >= 0; i-- {
		in.journal[i]()
	}
	in.journal = in.journal[:0]
	in.prefix, in.pos = prefix, 0
	in.log = nil
	in.model = nil
	in.pc = nil
	in.pins.reset()
	in.steps, in.depth, in.nextTick = 0, 0, 0
	for _, f := range in.frames {
		clear(f.regs)
	}
	in.frames = in.frames[:0]
	in.sp = 0
	in.names = map[string]int{}
	in.inputs = nil
	in.fs, in.openFiles = map[string]*memFile{}, 0
	in.tmpN = 0
	in.mapMode = 0
	in.robust, in.symAlloc, in.decided = 0, 0, 0
	in.par = nil
	in.exitOK = false
	in.onceM = map[any]any{}
	in.syncMaps, in.pools = map[loc]*Map{}, map[loc][]Value{}
	in.sticky = ""
	in.clockN = 0
	if in.pool.n > 2_000_000 {
		// fresh pool: terms from init phase do not exist (init is concrete)
		in.pool = NewPool()
	}
	in.sol.BeginPath()
}

// runInit runs package initialisers needed by the harness package.
func (in *Interp) runInit(pkg *ssa.Package) {
	in.initPhase = true
	in.journal = nil
	in.names = map[string]int{}
	in.fs, in.openFiles = map[string]*memFile{}, 0
	in.onceM = map[any]any{}
	in.syncMaps, in.pools = map[loc]*Map{}, map[loc][]Value{}
	in.initPkg(pkg)
	in.initPhase = false
	in.steps = 0
	in.frames = in.frames[:0]
}

// runPath runs the harness along one decision prefix.
func (in *Interp) runPath(fn *ssa.Function, prefix *plog) (end *pathEnd) {
	in.resetPath(prefix)
	in.harness = fn.Name()
	in.st.Paths++
	defer func() {
		in.st.Steps += in.steps
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = &x
				switch x.kind {
				case endInfeasible:
					in.st.Infeasible++
				case endUnsupported:
					in.st.Unsupported[x.msg]++
				case endBound:
					in.st.Bound[x.msg]++
				case endInconclusive:
					in.st.Inconclusive[x.msg]++
				}
			case goPanic:
				func() {
					defer func() {
						if r := recover(); r != nil {
							in.st.Unsupported["uncaught panic, message unavailable"]++
						}
					}()
					in.frames = in.frames[:0]
					in.depth, in.sp = 0, 0
					msg := "uncaught panic: " + in.errString(x.val)
					m := in.getModel()
					in.violation(msg, in.sticky, m)
					in.viol[len(in.viol)-1].Trace = x.trace
				}()
			case exitPanic:
				func() {
					defer func() { recover() }()
					in.violation(fmt.Sprintf("process exit (code %d)", x.code), in.sticky, in.getModel())
				}()
			default:
				panic(r)
			}
		}
	}()
	in.call(in.cfunc(fn), nil, nil, nil)
	in.st.Completed++
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
