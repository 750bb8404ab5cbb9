package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	r int
	v Value
}

func (o *opnd) get(fr *frame) Value {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	return o.v
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (in *Interp) cfunc(fn *ssa.Function) *cfunc {
	if c, ok := in.cfs[fn]; ok {
		return c
	}
	c := &cfunc{fn: fn, name: fn.String(), recBlk: -1}
	in.cfs[fn] = c
	if f := lookupIntrinsic(fnName(fn), fn); f != nil {
		c.intr = f
		return c
	}
	if pk := fnPkg(fn); pk != "" {
		for _, m := range in.P.modules {
			if pk == m || strings.HasPrefix(pk, m+"/") {
				c.isRepo = !strings.Contains(pk, "/vh")
			}
		}
	}
	return c
}

func fnPkg(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	return ""
}

func (in *Interp) ensureBuilt(fn *ssa.Function) {
	if fn.Blocks != nil {
		return
	}
	in.P.mu.Lock()
	defer in.P.mu.Unlock()
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil && !in.P.built[f.Pkg] {
		in.P.built[f.Pkg] = true
		f.Pkg.Build()
	}
}

func (in *Interp) compileBody(cf *cfunc) {
	fn := cf.fn
	in.ensureBuilt(fn)
	if fn.Blocks == nil {
		in.unsupported("no body: %s", fnName(fn))
	}
	c := &compiler{in: in, cf: cf, reg: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		c.newReg(p)
	}
	for _, p := range fn.FreeVars {
		c.newReg(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				c.newReg(v)
			}
			switch i.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				cf.hasDef = true
			}
		}
	}
	cf.nparams = len(fn.Params)
	var blocks []*cblock
	for _, b := range fn.Blocks {
		cb := &cblock{}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
			var mv []move
			pi := -1
			for k, p := range s.Preds {
				if p == b {
					pi = k
					// duplicate edges carry identical phi inputs unless both arms target s
					if len(cb.succs) == 2 && b.Succs[0] == b.Succs[1] {
						continue
					}
					break
				}
			}
			for _, i := range s.Instrs {
				phi, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				mv = append(mv, move{c.reg[phi], c.op(phi.Edges[pi])})
			}
			cb.moves = append(cb.moves, mv)
		}
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If:
				cond := c.op(x.Cond)
				inst := ssa.Instruction(x)
				cb.term = func(fr *frame) int {
					fr.cur = inst
					v := cond.get(fr)
					if v.T == nil {
						if v.N != 0 {
							return 0
						}
						return 1
					}
					if fr.in.truth(v) {
						return 0
					}
					return 1
				}
			case *ssa.Jump:
				cb.term = func(fr *frame) int { return 0 }
			case *ssa.Return:
				cb.term = c.ret(x)
			case *ssa.Panic:
				v := c.op(x.X)
				cb.term = func(fr *frame) int {
					val := v.get(fr)
					if val.O == nil {
						fr.in.rtPanic("panic called with nil argument")
					}
					panic(goPanic{val: val, trace: fr.in.trace()})
				}
			default:
				if f := c.instr(i); f != nil {
					cb.instrs = append(cb.instrs, f)
					cb.src = append(cb.src, i)
				}
			}
		}
		if cb.term == nil {
			cb.term = func(fr *frame) int { fr.in.unsupported("block without terminator"); return -1 }
		}
		blocks = append(blocks, cb)
	}
	for i, b := range fn.Blocks {
		blocks[i].merge = c.ifConv(b, blocks)
	}
	if fn.Recover != nil {
		cf.recBlk = fn.Recover.Index
	}
	cf.nregs = len(c.reg)
	if n := len(fn.Params) + len(fn.FreeVars); cf.nregs < n {
		cf.nregs = n
	}
	cf.blocks = blocks
}

// ifConv recognises a branch whose arms only compute numbers and join at once. Where its
// condition is symbolic, both arms are evaluated and joined with if-then-else terms
// instead of forking.
func (c *compiler) ifConv(b *ssa.BasicBlock, blocks []*cblock) *ifmerge {
	if len(b.Instrs) == 0 {
		return nil
	}
	x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return nil
	}
	t, f := b.Succs[0], b.Succs[1]
	arm := func(a *ssa.BasicBlock) bool {
		if len(a.Preds) != 1 || len(a.Succs) != 1 || len(a.Instrs) > 9 || a.Succs[0] == a {
			return false
		}
		for _, i := range a.Instrs {
			if !c.pure(i) {
				return false
			}
		}
		return true
	}
	m := &ifmerge{cond: c.op(x.Cond)}
	bb := blocks[b.Index]
	var join *ssa.BasicBlock
	switch {
	case arm(t) && t.Succs[0] == f:
		join, m.t, m.mt, m.mf = f, blocks[t.Index], blocks[t.Index].moves[0], bb.moves[1]
	case arm(f) && f.Succs[0] == t:
		join, m.f, m.mf, m.mt = t, blocks[f.Index], blocks[f.Index].moves[0], bb.moves[0]
	case arm(t) && arm(f) && t.Succs[0] == f.Succs[0]:
		join, m.t, m.f, m.mt, m.mf = t.Succs[0], blocks[t.Index], blocks[f.Index], blocks[t.Index].moves[0], blocks[f.Index].moves[0]
	default:
		return nil
	}
	for _, i := range join.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		ti := c.in.ti(phi.Type())
		w := ti.w
		if ti.kind == KBool {
			w = 0
		}
		m.num = append(m.num, ti.kind == KInt || ti.kind == KBool)
		m.w = append(m.w, w)
	}
	if len(m.num) == 0 || len(m.num) != len(m.mt) || len(m.num) != len(m.mf) {
		return nil
	}
	m.join = join.Index
	return m
}

// pure says whether an instruction only computes a number and can't panic or fork.
func (c *compiler) pure(i ssa.Instruction) bool {
	num := func(v ssa.Value) bool {
		k := c.in.ti(v.Type()).kind
		return k == KInt || k == KBool
	}
	switch x := i.(type) {
	case *ssa.DebugRef, *ssa.Jump:
		return true
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM:
			return false
		case token.SHL, token.SHR:
			if _, ok := x.Y.(*ssa.Const); !ok {
				return false
			}
		}
		return num(x.X) && num(x.Y)
	case *ssa.UnOp:
		return (x.Op == token.SUB || x.Op == token.NOT || x.Op == token.XOR) && num(x.X)
	case *ssa.Convert:
		return num(x.X) && num(x)
	case *ssa.ChangeType:
		return num(x.X)
	}
	return false
}

// tryMerge evaluates both arms of a branch, if its condition is symbolic.
func (fr *frame) tryMerge(m *ifmerge) bool {
	v := m.cond.get(fr)
	in := fr.in
	if v.T == nil || v.T.isConst() || in.initPhase {
		return false
	}
	if _, ok := in.pins.Eval(v.T); ok {
		return false
	}
	for _, a := range []*cblock{m.t, m.f} {
		if a != nil {
			for i, f := range a.instrs {
				fr.cur = a.src[i]
				f(fr)
			}
			in.steps += int64(len(a.instrs))
		}
	}
	var tmp [8]Value
	r := tmp[:0]
	for i := range m.num {
		a, b := m.mt[i].src.get(fr), m.mf[i].src.get(fr)
		if !m.num[i] {
			if m.mt[i].src.r < 0 || m.mt[i].src.r != m.mf[i].src.r {
				return false
			}
			r = append(r, a)
			continue
		}
		if a.T == nil && b.T == nil {
			if a.N != b.N {
				return false
			}
			r = append(r, a)
			continue
		}
		r = append(r, fromTerm(in.pool.Ite(v.T, in.term(a, m.w[i]), in.term(b, m.w[i]))))
	}
	for i := range r {
		fr.regs[m.mt[i].dst] = r[i]
	}
	return true
}

type compiler struct {
	in  *Interp
	cf  *cfunc
	reg map[ssa.Value]int
}

func (c *compiler) newReg(v ssa.Value) {
	c.reg[v] = len(c.reg)
}

func (c *compiler) op(v ssa.Value) opnd {
	if r, ok := c.reg[v]; ok {
		return opnd{r: r}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{r: -1, v: c.in.constVal(x)}
	case *ssa.Global:
		return opnd{r: -1, v: c.in.global(x)}
	case *ssa.Function:
		return opnd{r: -1, v: Value{O: &Closure{fn: c.in.cfunc(x)}}}
	case *ssa.Builtin:
		return opnd{r: -1, v: Value{O: &Closure{bi: x.Name()}}}
	}
	panic(fmt.Sprintf("op %T %s", v, v))
}

func (in *Interp) global(g *ssa.Global) Value {
	if v, ok := in.globs[g]; ok {
		return v
	}
	old := in.initPhase
	in.initPhase = true
	o := in.newObj(in.ti(g.Type().Underlying().(*types.Pointer).Elem()))
	in.initPhase = old
	v := Value{O: o}
	in.globs[g] = v
	return v
}

func (in *Interp) constVal(x *ssa.Const) Value {
	ti := in.ti(x.Type())
	if x.Value == nil {
		if ti.agg() {
			return Value{O: make([]Value, ti.leaves)}
		}
		return Value{}
	}
	switch ti.kind {
	case KBool:
		return boolV(constant.BoolVal(x.Value))
	case KString:
		if x.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(x.Value))
		}
		return mkStr(string(rune(x.Int64())))
	case KInt:
		if ti.signed {
			return Value{N: uint64(x.Int64()) & mask(ti.w)}
		}
		return Value{N: x.Uint64() & mask(ti.w)}
	case KFloat:
		if ti.w == 32 {
			f, _ := constant.Float32Val(constant.ToFloat(x.Value))
			return Value{N: uint64(math.Float32bits(f))}
		}
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		return Value{N: math.Float64bits(f)}
	case KComplex:
		return Value{}
	}
	panic("constVal " + x.String())
}

func (c *compiler) ret(x *ssa.Return) func(fr *frame) int {
	switch len(x.Results) {
	case 0:
		return func(fr *frame) int { return -1 }
	case 1:
		r := c.op(x.Results[0])
		return func(fr *frame) int { fr.result = r.get(fr); return -1 }
	}
	var ops []opnd
	for _, r := range x.Results {
		ops = append(ops, c.op(r))
	}
	return func(fr *frame) int {
		a := make([]Value, len(ops))
		for i := range ops {
			a[i] = ops[i].get(fr)
		}
		fr.result = Value{O: a}
		return -1
	}
}

func (c *compiler) instr(i ssa.Instruction) cInstr {
	in := c.in
	var dst int
	if v, ok := i.(ssa.Value); ok {
		dst = c.reg[v]
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		ti := in.ti(x.Type().Underlying().(*types.Pointer).Elem())
		return func(fr *frame) { fr.regs[dst] = Value{O: in.newObj(ti)} }
	case *ssa.BinOp:
		return c.binop(x, dst)
	case *ssa.UnOp:
		return c.unop(x, dst)
	case *ssa.Call:
		f := c.callCommon(&x.Call)
		return func(fr *frame) { fr.regs[dst] = f(fr) }
	case *ssa.ChangeInterface:
		a := c.op(x.X)
		return func(fr *frame) { fr.regs[dst] = a.get(fr) }
	case *ssa.ChangeType:
		a := c.op(x.X)
		return func(fr *frame) { fr.regs[dst] = a.get(fr) }
	case *ssa.Convert:
		a := c.op(x.X)
		from, to := in.ti(x.X.Type()), in.ti(x.Type())
		return func(fr *frame) { fr.regs[dst] = in.convert(from, to, a.get(fr)) }
	case *ssa.MultiConvert:
		a := c.op(x.X)
		from, to := in.ti(x.X.Type()), in.ti(x.Type())
		return func(fr *frame) { fr.regs[dst] = in.convert(from, to, a.get(fr)) }
	case *ssa.SliceToArrayPointer:
		a := c.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s, _ := a.get(fr).O.(*Slice)
			l := 0
			if s != nil {
				l = s.len
			}
			if l < n {
				in.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", l, n))
			}
			if s == nil {
				fr.regs[dst] = Value{}
				return
			}
			fr.regs[dst] = Value{O: s.o, N: uint64(s.off)}
		}
	case *ssa.Defer:
		f := c.deferCommon(&x.Call)
		return func(fr *frame) { fr.defers = append(fr.defers, f(fr)) }
	case *ssa.RunDefers:
		return func(fr *frame) { in.runDefers(fr) }
	case *ssa.Extract:
		a := c.op(x.Tuple)
		k := x.Index
		return func(fr *frame) { fr.regs[dst] = a.get(fr).O.([]Value)[k] }
	case *ssa.Field:
		a := c.op(x.X)
		ti := in.ti(x.X.Type())
		off, f := ti.offs[x.Field], ti.fields[x.Field]
		return func(fr *frame) { fr.regs[dst] = pack(aggOf(a.get(fr), ti), off, f) }
	case *ssa.FieldAddr:
		a := c.op(x.X)
		ti := in.ti(x.X.Type().Underlying().(*types.Pointer).Elem())
		off := ti.offs[x.Field]
		return func(fr *frame) {
			p := a.get(fr)
			if sp, ok := p.O.(*SymPtr); ok {
				q := *sp
				q.field += off
				fr.regs[dst] = Value{O: &q}
				return
			}
			if p.O == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			if _, ok := p.O.(*Obj); !ok {
				in.unsupported("field of opaque pointer %T", p.O)
			}
			p.N += uint64(off)
			fr.regs[dst] = p
		}
	case *ssa.Go:
		return func(fr *frame) { in.unsupported("go statement") }
	case *ssa.Index:
		return c.index(x, dst)
	case *ssa.IndexAddr:
		return c.indexAddr(x, dst)
	case *ssa.Lookup:
		return c.lookup(x, dst)
	case *ssa.MakeChan:
		return func(fr *frame) { in.unsupported("make chan") }
	case *ssa.MakeClosure:
		fn := in.cfunc(x.Fn.(*ssa.Function))
		var ops []opnd
		for _, b := range x.Bindings {
			ops = append(ops, c.op(b))
		}
		return func(fr *frame) {
			free := make([]Value, len(ops))
			for i := range ops {
				free[i] = ops[i].get(fr)
			}
			fr.regs[dst] = Value{O: &Closure{fn: fn, free: free}}
		}
	case *ssa.MakeInterface:
		a := c.op(x.X)
		t := x.X.Type()
		return func(fr *frame) { fr.regs[dst] = Value{O: &Iface{t: t, v: a.get(fr)}} }
	case *ssa.MakeMap:
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			fr.regs[dst] = Value{O: in.newMap(kt)}
		}
	case *ssa.MakeSlice:
		l, cp := c.op(x.Len), c.op(x.Cap)
		lt, ct := in.ti(x.Len.Type()), in.ti(x.Cap.Type())
		e := in.ti(x.Type().Underlying().(*types.Slice).Elem())
		return func(fr *frame) { fr.regs[dst] = in.makeSlice(e, lt, l.get(fr), ct, cp.get(fr)) }
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		kt := in.ti(x.Map.Type().Underlying().(*types.Map).Key())
		return func(fr *frame) {
			mm, _ := m.get(fr).O.(*Map)
			in.mapSet(mm, kt, k.get(fr), v.get(fr))
		}
	case *ssa.Next:
		a := c.op(x.Iter)
		return func(fr *frame) { fr.regs[dst] = in.next(a.get(fr).O.(*mapIter)) }
	case *ssa.Range:
		a := c.op(x.X)
		_, isMap := x.X.Type().Underlying().(*types.Map)
		return func(fr *frame) {
			v := a.get(fr)
			if !isMap {
				fr.regs[dst] = Value{O: &mapIter{isStr: true, str: v}}
				return
			}
			m, _ := v.O.(*Map)
			fr.regs[dst] = Value{O: in.mapIter(m)}
		}
	case *ssa.Select:
		return func(fr *frame) { in.unsupported("select") }
	case *ssa.Send:
		return func(fr *frame) { in.unsupported("send") }
	case *ssa.Slice:
		return c.slice(x, dst)
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		ti := in.ti(x.Val.Type())
		return func(fr *frame) { in.store(a.get(fr), ti, v.get(fr)) }
	case *ssa.TypeAssert:
		return c.typeAssert(x, dst)
	}
	s := fmt.Sprintf("%T", i)
	return func(fr *frame) { in.unsupported("instruction %s", s) }
}

func (in *Interp) newMap(kt types.Type) *Map {
	m := &Map{idx: map[any]int{}, kt: kt, init: in.initPhase}
	if in.par != nil {
		m.own = in.par.who
	}
	return m
}

func (in *Interp) mapIter(m *Map) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	if in.par != nil {
		in.parMap(m, false)
	}
	for i := range m.ents {
		if m.ents[i].live {
			it.order = append(it.order, i)
		}
	}
	if (in.mapMode == 1 || in.mapMode > 2) && len(it.order) > 1 && !in.initPhase {
		// iteration order is unspecified: explore every rotation of both directions
		n := len(it.order)
		var k int
		if n == 2 {
			k = 2 * in.choose(2)
		} else if in.mapMode > 2 { // a few of them
			k = []int{0, n, n / 2}[in.choose(3)]
		} else {
			k = in.choose(2 * n)
		}
		if in.mapMode > 2 && k > 0 {
			// only so many of the iterations
			in.mapMode--
			if in.mapMode == 2 {
				in.mapMode = 0
			}
		}
		o := make([]int, n)
		for i := range o {
			if k < n {
				o[i] = it.order[(i+k)%n]
			} else {
				o[i] = it.order[(2*n-1-i+k-n)%n]
			}
		}
		it.order = o
	} else if in.mapMode == 2 {
		for i, j := 0, len(it.order)-1; i < j; i, j = i+1, j-1 {
			it.order[i], it.order[j] = it.order[j], it.order[i]
		}
	}
	return it
}

func (in *Interp) next(it *mapIter) Value {
	if it.isStr {
		n := strLen(it.str)
		if it.pos >= n {
			return Value{O: []Value{{}, {}, {}}}
		}
		r, w := in.decodeRune(it.str, it.pos)
		p := it.pos
		it.pos += w
		return Value{O: []Value{{N: 1}, {N: uint64(p)}, r}}
	}
	for it.m != nil && it.pos < len(it.order) {
		e := &it.m.ents[it.order[it.pos]]
		it.pos++
		if e.live {
			return Value{O: []Value{{N: 1}, e.k, e.v}}
		}
	}
	return Value{O: []Value{{}, {}, {}}}
}

// decodeRune decodes the rune at i, forking on symbolic bytes.
func (in *Interp) decodeRune(s Value, i int) (Value, int) {
	if g, ok := goStr(s); ok {
		r, w := utf8.DecodeRuneInString(g[i:])
		return Value{N: uint64(uint32(r))}, w
	}
	p := in.pool
	b0 := strAt(s, i)
	if b0.T != nil {
		if in.truth(fromTerm(p.ULt(b0.T, p.Const(8, 0x80)))) {
			return fromTerm(p.ZExt(b0.T, 32)), 1
		}
	} else if b0.N < 0x80 {
		return Value{N: b0.N}, 1
	}
	sym := s.O.(*SymStr)
	as := in.runeAlts(sym, i)
	for _, a := range as[:len(as)-1] {
		if in.truth(fromTerm(a.c)) {
			return fromTerm(a.r), a.n
		}
	}
	return Value{N: utf8.RuneError}, 1
}

func (in *Interp) makeSlice(e, lt *tinfo, l Value, ct *tinfo, cp Value) Value {
	max := in.opt.MaxAlloc
	hard := uint64(1 << 48) // elements for which the runtime refuses any allocation
	if in.robust > 0 {
		hard = 1 << 36 // more memory than there is
	}
	if sz := gosize(e.t); sz > 1 {
		hard /= sz
	}
	lim := func(t *tinfo, v Value) int64 {
		if v.T != nil {
			p := in.pool
			x := v.T
			if t.w < 64 {
				if t.signed {
					x = p.SExt(x, 64)
				} else {
					x = p.ZExt(x, 64)
				}
			}
			neg := p.SLt(x, p.Const(64, 0))
			if in.truth(fromTerm(neg)) {
				return -1
			}
			big := p.SLt(p.Const(64, uint64(max)), x)
			if in.truth(fromTerm(big)) {
				if in.truth(fromTerm(p.SLt(p.Const(64, hard), x))) {
					return -1
				}
				return max + 1
			}
			if in.symAlloc > 0 {
				return int64(in.spread(x))
			}
			return int64(in.concTerm(x, "make length"))
		}
		if t.signed {
			return sext(v.N, t.w)
		}
		if v.N > 1<<62 {
			return -1
		}
		return int64(v.N)
	}
	n := lim(lt, l)
	if n > int64(hard) {
		n = -1
	}
	c := n
	if cp != l {
		c = lim(ct, cp)
	}
	if n < 0 {
		in.rtPanic("makeslice: len out of range")
	}
	if c < n {
		in.rtPanic("makeslice: cap out of range")
	}
	if c > max {
		in.tooBig(c)
	}
	if c*int64(e.leaves) > 1<<24 {
		in.tooBig(c)
	}
	o := in.newArr(e, int(c))
	return Value{O: &Slice{o: o, len: int(n), cap: int(c)}}
}

// tooBig handles an allocation above the bound: natively this may be served, fail
// with "len out of range", or exhaust memory; it lies outside what is explored.
func (in *Interp) tooBig(n int64) {
	if in.opt.MaxAlloc < 0 {
		return
	}
	if n == in.opt.MaxAlloc+1 {
		panic(pathEnd{endBound, fmt.Sprintf("allocation of more than %d elements (symbolic length)", in.opt.MaxAlloc) + in.where()})
	}
	panic(pathEnd{endBound, fmt.Sprintf("allocation of %d elements", n) + in.where()})
}

// ---- calls

func (c *compiler) callCommon(cc *ssa.CallCommon) func(fr *frame) Value {
	in := c.in
	var ops []opnd
	for _, a := range cc.Args {
		ops = append(ops, c.op(a))
	}
	n := len(ops)
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(fr *frame) Value {
			r, _ := recv.get(fr).O.(*Iface)
			if r == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			args := make([]Value, n+1)
			args[0] = r.v
			for i := range ops {
				args[i+1] = ops[i].get(fr)
			}
			if rt, ok := r.v.O.(types.Type); ok {
				return in.rtypeMethod(rt, m.Name(), args[1:])
			}
			f := in.method(r.t, m)
			if f == nil {
				in.unsupported("method %s of %s not found", m.Name(), r.t)
			}
			return in.call(in.cfunc(f), args, nil, fr)
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(f, cc, ops)
	case *ssa.Function:
		cf := in.cfunc(f)
		return func(fr *frame) Value {
			var buf [6]Value
			args := buf[:0]
			if n > len(buf) {
				args = make([]Value, 0, n)
			}
			for i := range ops {
				args = append(args, ops[i].get(fr))
			}
			return in.call(cf, args, nil, fr)
		}
	}
	fv := c.op(cc.Value)
	return func(fr *frame) Value {
		args := make([]Value, n)
		for i := range ops {
			args[i] = ops[i].get(fr)
		}
		return in.callValue(fv.get(fr), args, fr)
	}
}

func (c *compiler) deferCommon(cc *ssa.CallCommon) func(fr *frame) deferred {
	in := c.in
	var ops []opnd
	for _, a := range cc.Args {
		ops = append(ops, c.op(a))
	}
	n := len(ops)
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(fr *frame) deferred {
			r, _ := recv.get(fr).O.(*Iface)
			if r == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			args := make([]Value, n+1)
			args[0] = r.v
			for i := range ops {
				args[i+1] = ops[i].get(fr)
			}
			f := in.method(r.t, m)
			if f == nil {
				in.unsupported("deferred method %s of %s not found", m.Name(), r.t)
			}
			return deferred{fn: Value{O: &Closure{fn: in.cfunc(f)}}, args: args}
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f := c.builtin(b, cc, nil)
		_ = f
		name := b.Name()
		var tis []*tinfo
		for _, a := range cc.Args {
			tis = append(tis, in.ti(a.Type()))
		}
		return func(fr *frame) deferred {
			args := make([]Value, n)
			for i := range ops {
				args[i] = ops[i].get(fr)
			}
			return deferred{fn: Value{O: &Closure{nat: func(in *Interp, a []Value) Value {
				switch name {
				case "delete":
					m, _ := a[0].O.(*Map)
					in.mapDelete(m, tis[1], a[1])
				case "print", "println":
				case "recover":
				default:
					in.unsupported("deferred builtin %s", name)
				}
				return Value{}
			}}}, args: args}
		}
	}
	fv := c.op(cc.Value)
	return func(fr *frame) deferred {
		args := make([]Value, n)
		for i := range ops {
			args[i] = ops[i].get(fr)
		}
		f := fv.get(fr)
		return deferred{fn: f, args: args}
	}
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, ops []opnd) func(fr *frame) Value {
	in := c.in
	at := func(i int) *tinfo { return in.ti(cc.Args[i].Type()) }
	switch b.Name() {
	case "len", "cap":
		if ops == nil {
			return nil
		}
		t := at(0)
		isCap := b.Name() == "cap"
		return func(fr *frame) Value {
			v := ops[0].get(fr)
			switch t.kind {
			case KString:
				return Value{N: uint64(strLen(v))}
			case KSlice:
				s, _ := v.O.(*Slice)
				if s == nil {
					return Value{}
				}
				if isCap {
					return Value{N: uint64(s.cap)}
				}
				return Value{N: uint64(s.len)}
			case KMap:
				m, _ := v.O.(*Map)
				if m == nil {
					return Value{}
				}
				return Value{N: uint64(m.live)}
			case KArray:
				return Value{N: uint64(t.n)}
			case KPtr:
				return Value{N: uint64(t.u.(*types.Pointer).Elem().Underlying().(*types.Array).Len())}
			}
			in.unsupported("len of %s", t.t)
			return Value{}
		}
	case "append":
		if ops == nil {
			return nil
		}
		t := at(0)
		if len(ops) == 1 {
			return func(fr *frame) Value { return ops[0].get(fr) }
		}
		t1 := at(1)
		return func(fr *frame) Value {
			a, b := ops[0].get(fr), ops[1].get(fr)
			var s *Slice
			if t1.kind == KString {
				if strLen(b) > 0 {
					s = in.strToSlice(b)
				}
			} else {
				s, _ = b.O.(*Slice)
			}
			return in.appendSlice(t.elem, a, s)
		}
	case "copy":
		if ops == nil {
			return nil
		}
		t0, t1 := at(0), at(1)
		return func(fr *frame) Value {
			d, _ := ops[0].get(fr).O.(*Slice)
			sv := ops[1].get(fr)
			var s *Slice
			if t1.kind == KString {
				if strLen(sv) > 0 {
					s = in.strToSlice(sv)
				}
			} else {
				s, _ = sv.O.(*Slice)
			}
			if d == nil || s == nil {
				return Value{}
			}
			n := min(d.len, s.len)
			k := t0.elem.leaves
			in.copyCells(d.o, d.off, s.o, s.off, n*k)
			return Value{N: uint64(n)}
		}
	case "delete":
		if ops == nil {
			return nil
		}
		kt := at(1)
		return func(fr *frame) Value {
			m, _ := ops[0].get(fr).O.(*Map)
			in.mapDelete(m, kt, ops[1].get(fr))
			return Value{}
		}
	case "clear":
		if ops == nil {
			return nil
		}
		t := at(0)
		return func(fr *frame) Value {
			v := ops[0].get(fr)
			switch x := v.O.(type) {
			case *Map:
				if in.par != nil {
					in.parMap(x, true)
				}
				if x.init && !x.saved && !in.initPhase {
					in.saveMap(x)
				}
				x.ents, x.idx, x.nsym, x.live = nil, map[any]int{}, 0, 0
			case *Slice:
				for i := 0; i < x.len*t.elem.leaves; i++ {
					in.set(x.o, x.off+i, Value{})
				}
			}
			return Value{}
		}
	case "panic":
		if ops == nil {
			return nil
		}
		return func(fr *frame) Value {
			panic(goPanic{val: ops[0].get(fr), trace: in.trace()})
		}
	case "recover":
		return func(fr *frame) Value { return in.doRecover(fr) }
	case "print", "println":
		return func(fr *frame) Value { return Value{} }
	case "min", "max":
		if ops == nil {
			return nil
		}
		t := at(0)
		isMin := b.Name() == "min"
		return func(fr *frame) Value {
			r := ops[0].get(fr)
			for i := 1; i < len(ops); i++ {
				y := ops[i].get(fr)
				lt := in.less(t, y, r)
				if !isMin {
					lt = in.less(t, r, y)
				}
				if lt.T != nil && t.scalar() {
					r = fromTerm(in.pool.Ite(lt.T, in.term(y, t.w), in.term(r, t.w)))
				} else if in.truth(lt) {
					r = y
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		if ops == nil {
			return nil
		}
		return func(fr *frame) Value {
			v := ops[0].get(fr)
			if v.O == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			return v
		}
	case "ssa:deferstack":
		return func(fr *frame) Value { return Value{} }
	case "String": // unsafe.String(ptr, len)
		return func(fr *frame) Value {
			p := ops[0].get(fr)
			n := int(int64(in.conc(ops[1].get(fr), 64, "unsafe.String length")))
			if n == 0 {
				return mkStr("")
			}
			o := p.O.(*Obj)
			return in.strFromObj(o, int(p.N), n)
		}
	case "StringData":
		return func(fr *frame) Value {
			v := ops[0].get(fr)
			if strLen(v) == 0 {
				return Value{}
			}
			s := in.strToSlice(v)
			return Value{O: s.o, N: uint64(s.off)}
		}
	case "SliceData":
		return func(fr *frame) Value {
			s, _ := ops[0].get(fr).O.(*Slice)
			if s == nil {
				return Value{}
			}
			return Value{O: s.o, N: uint64(s.off)}
		}
	case "Slice":
		t := in.ti(cc.Args[0].Type().Underlying().(*types.Pointer).Elem())
		return func(fr *frame) Value {
			p := ops[0].get(fr)
			n := int(int64(in.conc(ops[1].get(fr), 64, "unsafe.Slice length")))
			o, ok := p.O.(*Obj)
			if !ok {
				return Value{}
			}
			if int(p.N)+n*t.leaves > o.size() {
				in.unsupported("unsafe.Slice beyond object")
			}
			return Value{O: &Slice{o: o, off: int(p.N), len: n, cap: n}}
		}
	}
	name := b.Name()
	return func(fr *frame) Value { in.unsupported("builtin %s", name); return Value{} }
}

func (in *Interp) appendSlice(e *tinfo, av Value, s *Slice) Value {
	a, _ := av.O.(*Slice)
	if s == nil || s.len == 0 {
		return av
	}
	al, ac := 0, 0
	if a != nil {
		al, ac = a.len, a.cap
	}
	n := al + s.len
	k := e.leaves
	if n <= ac {
		in.copyCells(a.o, a.off+al*k, s.o, s.off, s.len*k)
		return Value{O: &Slice{o: a.o, off: a.off, len: n, cap: ac}}
	}
	nc := ac * 2
	if ac > 256 {
		nc = ac + (ac+768)/4
	}
	if nc < n {
		nc = n
	}
	if nc < 4 && !isByteKind(e) {
		// growth policy is unspecified; exact fit keeps aliasing visible
	}
	if isByteKind(e) && nc < 8 {
		nc = 8
	}
	if int64(nc)*int64(k) > 1<<25 {
		panic(pathEnd{endBound, "append beyond memory bound" + in.where()})
	}
	o := in.newArr(e, nc)
	if al > 0 {
		in.copyCells(o, 0, a.o, a.off, al*k)
	}
	in.copyCells(o, al*k, s.o, s.off, s.len*k)
	return Value{O: &Slice{o: o, len: n, cap: nc}}
}

// ---- indexing

// boundsIdx checks 0 <= i < n and returns a concrete index, or a term (64-bit).
func (in *Interp) boundsIdx(it *tinfo, i Value, n int) (int, *Term) {
	if i.T == nil {
		var x int64
		if it.signed {
			x = sext(i.N, it.w)
		} else {
			x = int64(i.N)
			if i.N > math.MaxInt64 {
				x = -1
			}
		}
		if x < 0 || x >= int64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return int(x), nil
	}
	p := in.pool
	t := i.T
	if it.w < 64 {
		if it.signed {
			t = p.SExt(t, 64)
		} else {
			t = p.ZExt(t, 64)
		}
	}
	if !in.truth(fromTerm(p.ULt(t, p.Const(64, uint64(n))))) {
		in.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return 0, t
}

func (c *compiler) indexAddr(x *ssa.IndexAddr, dst int) cInstr {
	in := c.in
	a, ix := c.op(x.X), c.op(x.Index)
	it := in.ti(x.Index.Type())
	xt := in.ti(x.X.Type())
	if xt.kind == KSlice {
		k := xt.elem.leaves
		return func(fr *frame) {
			s, _ := a.get(fr).O.(*Slice)
			i := ix.get(fr)
			n := 0
			if s != nil {
				n = s.len
			}
			if i.T == nil && i.N < uint64(n) {
				fr.regs[dst] = Value{O: s.o, N: uint64(s.off + int(i.N)*k)}
				return
			}
			ci, t := in.boundsIdx(it, i, n)
			if t != nil {
				fr.regs[dst] = in.symAddr(s.o, s.off, k, n, t)
				return
			}
			fr.regs[dst] = Value{O: s.o, N: uint64(s.off + ci*k)}
		}
	}
	arr := in.ti(x.X.Type().Underlying().(*types.Pointer).Elem())
	k := arr.elem.leaves
	n := arr.n
	return func(fr *frame) {
		p := a.get(fr)
		if sp, ok := p.O.(*SymPtr); ok {
			p = in.concPtr(sp)
		}
		if p.O == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		i := ix.get(fr)
		ci, t := in.boundsIdx(it, i, n)
		if t != nil {
			fr.regs[dst] = in.symAddr(p.O.(*Obj), int(p.N), k, n, t)
			return
		}
		p.N += uint64(ci * k)
		fr.regs[dst] = p
	}
}

func (in *Interp) symAddr(o *Obj, off, k, n int, t *Term) Value {
	sp := &SymPtr{o: o, off: off, stride: k, n: n, idx: t}
	if n > 512 {
		return in.concPtr(sp)
	}
	return Value{O: sp}
}

func (c *compiler) index(x *ssa.Index, dst int) cInstr {
	in := c.in
	a, ix := c.op(x.X), c.op(x.Index)
	it := in.ti(x.Index.Type())
	xt := in.ti(x.X.Type())
	if xt.kind == KString {
		return func(fr *frame) {
			s := a.get(fr)
			i, t := in.boundsIdx(it, ix.get(fr), strLen(s))
			if t != nil {
				fr.regs[dst] = in.symStrAt(s, t)
				return
			}
			fr.regs[dst] = strAt(s, i)
		}
	}
	return func(fr *frame) {
		arr := aggOf(a.get(fr), xt)
		i, t := in.boundsIdx(it, ix.get(fr), xt.n)
		if t != nil {
			if xt.elem.scalar() {
				o := &Obj{v: arr}
				r, _ := in.symLoad(&SymPtr{o: o, stride: 1, n: xt.n, idx: t}, xt.elem)
				fr.regs[dst] = r
				return
			}
			i = int(in.concTerm(t, "array index"))
		}
		fr.regs[dst] = pack(arr, i*xt.elem.leaves, xt.elem)
	}
}

func (in *Interp) symStrAt(s Value, t *Term) Value {
	ss := toSym(s)
	p := in.pool
	n := len(ss.b)
	if n > 512 {
		return strAt(s, int(in.concTerm(t, "string index")))
	}
	r := symByte(p, ss, n-1)
	for i := n - 2; i >= 0; i-- {
		r = p.Ite(p.Eq(t, p.Const(64, uint64(i))), symByte(p, ss, i), r)
	}
	return fromTerm(r)
}

func (c *compiler) lookup(x *ssa.Lookup, dst int) cInstr {
	in := c.in
	a, ix := c.op(x.X), c.op(x.Index)
	xt := in.ti(x.X.Type())
	it := in.ti(x.Index.Type())
	if xt.kind == KString {
		return func(fr *frame) {
			s := a.get(fr)
			i, t := in.boundsIdx(it, ix.get(fr), strLen(s))
			if t != nil {
				fr.regs[dst] = in.symStrAt(s, t)
				return
			}
			fr.regs[dst] = strAt(s, i)
		}
	}
	vt := in.ti(x.X.Type().Underlying().(*types.Map).Elem())
	kt := in.ti(x.X.Type().Underlying().(*types.Map).Key())
	commaOk := x.CommaOk
	return func(fr *frame) {
		m, _ := a.get(fr).O.(*Map)
		i := in.mapFind(m, kt, ix.get(fr))
		var v Value
		ok := boolV(false)
		if i >= 0 {
			v = m.ents[i].v
			ok = boolV(true)
		} else if vt.agg() {
			v = Value{O: make([]Value, vt.leaves)}
		}
		if commaOk {
			fr.regs[dst] = Value{O: []Value{v, ok}}
		} else {
			fr.regs[dst] = v
		}
	}
}

func (c *compiler) slice(x *ssa.Slice, dst int) cInstr {
	in := c.in
	a := c.op(x.X)
	var lo, hi, mx opnd
	var lt, ht, mt *tinfo
	hasLo, hasHi, hasMx := x.Low != nil, x.High != nil, x.Max != nil
	if hasLo {
		lo, lt = c.op(x.Low), in.ti(x.Low.Type())
	}
	if hasHi {
		hi, ht = c.op(x.High), in.ti(x.High.Type())
	}
	if hasMx {
		mx, mt = c.op(x.Max), in.ti(x.Max.Type())
	}
	xt := in.ti(x.X.Type())
	var arrT *tinfo
	if xt.kind == KPtr {
		arrT = in.ti(x.X.Type().Underlying().(*types.Pointer).Elem())
	}
	num := func(t *tinfo, v Value, limit int) int64 {
		if v.T != nil {
			p := in.pool
			y := v.T
			if t.w < 64 {
				if t.signed {
					y = p.SExt(y, 64)
				} else {
					y = p.ZExt(y, 64)
				}
			}
			if !in.truth(fromTerm(p.ULe(y, p.Const(64, uint64(limit))))) {
				in.rtPanic(fmt.Sprintf("slice bounds out of range [symbolic] with capacity %d", limit))
			}
			return int64(in.concTerm(y, "slice bound"))
		}
		if t.signed {
			return sext(v.N, t.w)
		}
		if v.N > math.MaxInt64 {
			return -1
		}
		return int64(v.N)
	}
	return func(fr *frame) {
		v := a.get(fr)
		var o *Obj
		off, ln, cp, k := 0, 0, 0, 1
		isStr := false
		switch xt.kind {
		case KString:
			isStr = true
			ln = strLen(v)
			cp = ln
		case KSlice:
			k = xt.elem.leaves
			if s, ok := v.O.(*Slice); ok {
				o, off, ln, cp = s.o, s.off, s.len, s.cap
			}
		default:
			if sp, ok := v.O.(*SymPtr); ok {
				v = in.concPtr(sp)
			}
			if v.O == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			o, off = v.O.(*Obj), int(v.N)
			ln, cp, k = arrT.n, arrT.n, arrT.elem.leaves
		}
		m := int64(cp)
		if hasMx {
			m = num(mt, mx.get(fr), cp)
			if m < 0 || m > int64(cp) {
				in.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, cp))
			}
		}
		h := int64(ln)
		if hasHi {
			h = num(ht, hi.get(fr), int(m))
			if h < 0 || h > m {
				in.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, m))
			}
		}
		l := int64(0)
		if hasLo {
			l = num(lt, lo.get(fr), int(h))
		}
		if l < 0 || l > h {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if isStr {
			fr.regs[dst] = strSlice(v, int(l), int(h))
			return
		}
		if o == nil {
			fr.regs[dst] = Value{}
			return
		}
		fr.regs[dst] = Value{O: &Slice{o: o, off: off + int(l)*k, len: int(h - l), cap: int(m - l)}}
	}
}

func (c *compiler) typeAssert(x *ssa.TypeAssert, dst int) cInstr {
	in := c.in
	a := c.op(x.X)
	t := x.AssertedType
	ti := in.ti(t)
	iface, isIface := t.Underlying().(*types.Interface)
	commaOk := x.CommaOk
	return func(fr *frame) {
		v := a.get(fr)
		i, _ := v.O.(*Iface)
		ok := false
		if i != nil {
			if _, isRT := i.v.O.(types.Type); isRT {
				ok = isIface
			} else if isIface {
				ok = in.implements(i.t, iface)
			} else {
				ok = i.t == t || types.Identical(i.t, t)
			}
		}
		var r Value
		if ok {
			if isIface {
				r = v
			} else {
				r = i.v
			}
		} else if ti.agg() {
			r = Value{O: make([]Value, ti.leaves)}
		}
		if commaOk {
			fr.regs[dst] = Value{O: []Value{r, boolV(ok)}}
			return
		}
		if !ok {
			d := "nil"
			if i != nil {
				d = types.TypeString(i.t, nil)
			}
			in.rtPanic("interface conversion: interface is " + d + ", not " + types.TypeString(t, nil))
		}
		fr.regs[dst] = r
	}
}

// ---- operators

func (c *compiler) unop(x *ssa.UnOp, dst int) cInstr {
	in := c.in
	a := c.op(x.X)
	ti := in.ti(x.Type())
	switch x.Op {
	case token.MUL:
		if !ti.agg() && ti.kind != KString {
			return func(fr *frame) {
				p := a.get(fr)
				if o, ok := p.O.(*Obj); ok && !o.isB && int(p.N) < len(o.v) && in.par == nil {
					fr.regs[dst] = o.v[p.N]
					return
				}
				fr.regs[dst] = in.load(p, ti)
			}
		}
		return func(fr *frame) { fr.regs[dst] = in.load(a.get(fr), ti) }
	case token.NOT:
		return func(fr *frame) { fr.regs[dst] = in.not(a.get(fr)) }
	case token.SUB:
		if ti.kind == KFloat {
			return func(fr *frame) {
				v := a.get(fr)
				s := uint64(1) << (ti.w - 1)
				if v.T != nil {
					fr.regs[dst] = fromTerm(in.pool.Bin(OpBXor, v.T, in.pool.Const(ti.w, s)))
					return
				}
				fr.regs[dst] = Value{N: v.N ^ s}
			}
		}
		return func(fr *frame) {
			v := a.get(fr)
			if v.T != nil {
				fr.regs[dst] = fromTerm(in.pool.Neg(v.T))
				return
			}
			fr.regs[dst] = Value{N: -v.N & mask(ti.w)}
		}
	case token.XOR:
		return func(fr *frame) {
			v := a.get(fr)
			if v.T != nil {
				fr.regs[dst] = fromTerm(in.pool.BNot(v.T))
				return
			}
			fr.regs[dst] = Value{N: ^v.N & mask(ti.w)}
		}
	}
	op := x.Op
	return func(fr *frame) { in.unsupported("unary %s", op) }
}

func (in *Interp) less(ti *tinfo, x, y Value) Value {
	switch ti.kind {
	case KInt:
		if x.T == nil && y.T == nil {
			if ti.signed {
				return boolV(sext(x.N, ti.w) < sext(y.N, ti.w))
			}
			return boolV(x.N < y.N)
		}
		a, b := in.term(x, ti.w), in.term(y, ti.w)
		if ti.signed {
			return fromTerm(in.pool.SLt(a, b))
		}
		return fromTerm(in.pool.ULt(a, b))
	case KFloat:
		if x.T == nil && y.T == nil {
			return boolV(fval(ti.w, x.N) < fval(ti.w, y.N))
		}
		code := FLt64
		if ti.w == 32 {
			code = FLt32
		}
		return fromTerm(in.pool.F(code, 0, in.term(x, ti.w), in.term(y, ti.w)))
	case KString:
		return in.strLess(x, y)
	}
	in.unsupported("ordering of %s", ti.t)
	return Value{}
}

func (c *compiler) binop(x *ssa.BinOp, dst int) cInstr {
	in := c.in
	a, b := c.op(x.X), c.op(x.Y)
	ti := in.ti(x.X.Type())
	w, m := ti.w, mask(ti.w)
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		ty := in.ti(x.Y.Type())
		if ti.kind == KIface && ty.kind != KIface || ti.kind != KIface && ty.kind == KIface {
			// mixed comparison: ssa converts, so this should not happen
			return func(fr *frame) { in.unsupported("mixed comparison") }
		}
		if ti.kind == KInt || ti.kind == KBool {
			return func(fr *frame) {
				u, v := a.get(fr), b.get(fr)
				if u.T == nil && v.T == nil {
					fr.regs[dst] = boolV((u.N == v.N) != neg)
					return
				}
				r := in.eqScalar(ti, u, v)
				if neg {
					r = in.not(r)
				}
				fr.regs[dst] = r
			}
		}
		return func(fr *frame) {
			r := in.eq(ti, a.get(fr), b.get(fr))
			if neg {
				r = in.not(r)
			}
			fr.regs[dst] = r
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		op := x.Op
		if ti.kind == KFloat && (op == token.LEQ || op == token.GEQ) {
			return func(fr *frame) {
				u, v := a.get(fr), b.get(fr)
				if op == token.GEQ {
					u, v = v, u
				}
				if u.T == nil && v.T == nil {
					fr.regs[dst] = boolV(fval(w, u.N) <= fval(w, v.N))
					return
				}
				code := FLe64
				if w == 32 {
					code = FLe32
				}
				fr.regs[dst] = fromTerm(in.pool.F(code, 0, in.term(u, w), in.term(v, w)))
			}
		}
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			switch op {
			case token.LSS:
				fr.regs[dst] = in.less(ti, u, v)
			case token.GTR:
				fr.regs[dst] = in.less(ti, v, u)
			case token.LEQ:
				fr.regs[dst] = in.not(in.less(ti, v, u))
			case token.GEQ:
				fr.regs[dst] = in.not(in.less(ti, u, v))
			}
		}
	}
	if ti.kind == KString {
		return func(fr *frame) { fr.regs[dst] = strConcat(a.get(fr), b.get(fr)) }
	}
	if ti.kind == KFloat {
		op := x.Op
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			un, vn := in.conc(u, w, "float operand"), in.conc(v, w, "float operand")
			if w == 32 {
				p, q := math.Float32frombits(uint32(un)), math.Float32frombits(uint32(vn))
				var r float32
				switch op {
				case token.ADD:
					r = p + q
				case token.SUB:
					r = p - q
				case token.MUL:
					r = p * q
				case token.QUO:
					r = p / q
				}
				fr.regs[dst] = Value{N: uint64(math.Float32bits(r))}
				return
			}
			p, q := math.Float64frombits(un), math.Float64frombits(vn)
			var r float64
			switch op {
			case token.ADD:
				r = p + q
			case token.SUB:
				r = p - q
			case token.MUL:
				r = p * q
			case token.QUO:
				r = p / q
			}
			fr.regs[dst] = Value{N: math.Float64bits(r)}
		}
	}
	if ti.kind == KComplex {
		return func(fr *frame) { in.unsupported("complex arithmetic") }
	}
	switch x.Op {
	case token.SHL, token.SHR:
		bt := in.ti(x.Y.Type())
		left := x.Op == token.SHL
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			if bt.signed {
				neg := in.less(bt, v, Value{})
				if in.truth(neg) {
					in.rtPanic("negative shift amount")
				}
			}
			if u.T == nil && v.T == nil {
				s := v.N
				switch {
				case left && s >= 64:
					fr.regs[dst] = Value{}
				case left:
					fr.regs[dst] = Value{N: u.N << s & m}
				case ti.signed:
					if s > 63 {
						s = 63
					}
					fr.regs[dst] = Value{N: uint64(sext(u.N, w)>>s) & m}
				case s >= 64:
					fr.regs[dst] = Value{}
				default:
					fr.regs[dst] = Value{N: u.N >> s}
				}
				return
			}
			p := in.pool
			t := in.term(u, w)
			// bring the count to width w, saturating
			var cnt *Term
			if v.T == nil {
				n := v.N
				if n > uint64(w) {
					n = uint64(w)
				}
				cnt = p.Const(w, n)
			} else if bt.w <= w {
				cnt = p.ZExt(v.T, w)
			} else {
				cnt = p.Ite(p.ULt(v.T, p.Const(bt.w, uint64(w))), p.Extract(v.T, w-1, 0), p.Const(w, uint64(w)))
			}
			op := OpShl
			if !left {
				op = OpLShr
				if ti.signed {
					op = OpAShr
				}
			}
			fr.regs[dst] = fromTerm(p.Bin(op, t, cnt))
		}
	case token.QUO, token.REM:
		quo := x.Op == token.QUO
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			z := in.eqScalar(ti, v, Value{})
			if in.truth(z) {
				in.rtPanic("integer divide by zero")
			}
			var op Op
			switch {
			case quo && ti.signed:
				op = OpSDiv
			case quo:
				op = OpUDiv
			case ti.signed:
				op = OpSRem
			default:
				op = OpURem
			}
			if u.T == nil && v.T == nil {
				fr.regs[dst] = Value{N: evalBin(op, w, u.N, v.N)}
				return
			}
			if in.symAlloc > 0 && u.T != nil {
				if v.T != nil {
					v = Value{N: in.spread(v.T)}
				}
				u = Value{N: in.spread(u.T)}
				fr.regs[dst] = Value{N: evalBin(op, w, u.N, v.N)}
				return
			}
			p, q := in.term(u, w), in.term(v, w)
			if ti.signed {
				half := uint64(1) << (w - 1)
				if ubound(p) < half && ubound(q) < half {
					if quo {
						op = OpUDiv
					} else {
						op = OpURem
					}
				}
			}
			fr.regs[dst] = fromTerm(in.pool.Bin(op, p, q))
		}
	case token.AND_NOT:
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			if u.T == nil && v.T == nil {
				fr.regs[dst] = Value{N: u.N &^ v.N}
				return
			}
			fr.regs[dst] = fromTerm(in.pool.Bin(OpBAnd, in.term(u, w), in.pool.BNot(in.term(v, w))))
		}
	}
	var op Op
	switch x.Op {
	case token.ADD:
		op = OpAdd
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			if u.T == nil && v.T == nil {
				fr.regs[dst] = Value{N: (u.N + v.N) & m}
				return
			}
			fr.regs[dst] = fromTerm(in.pool.Bin(OpAdd, in.term(u, w), in.term(v, w)))
		}
	case token.SUB:
		op = OpSub
	case token.MUL:
		op = OpMul
	case token.AND:
		op = OpBAnd
	case token.OR:
		op = OpBOr
	case token.XOR:
		op = OpBXor
	default:
		o := x.Op
		return func(fr *frame) { in.unsupported("binary %s", o) }
	}
	if ti.kind == KBool {
		return func(fr *frame) {
			u, v := in.term(a.get(fr), 0), in.term(b.get(fr), 0)
			switch op {
			case OpBAnd:
				fr.regs[dst] = fromTerm(in.pool.And(u, v))
			case OpBOr:
				fr.regs[dst] = fromTerm(in.pool.Or(u, v))
			default:
				fr.regs[dst] = fromTerm(in.pool.Not(in.pool.Eq(u, v)))
			}
		}
	}
	return func(fr *frame) {
		u, v := a.get(fr), b.get(fr)
		if u.T == nil && v.T == nil {
			fr.regs[dst] = Value{N: evalBin(op, w, u.N, v.N)}
			return
		}
		fr.regs[dst] = fromTerm(in.pool.Bin(op, in.term(u, w), in.term(v, w)))
	}
}

func (in *Interp) convert(from, to *tinfo, v Value) Value {
	switch {
	case to.kind == KInt && from.kind == KInt:
		if v.T == nil {
			if from.signed {
				return Value{N: uint64(sext(v.N, from.w)) & mask(to.w)}
			}
			return Value{N: v.N & mask(to.w)}
		}
		p := in.pool
		switch {
		case to.w == from.w:
			return v
		case to.w < from.w:
			return fromTerm(p.Extract(v.T, to.w-1, 0))
		case from.signed:
			return fromTerm(p.SExt(v.T, to.w))
		default:
			return fromTerm(p.ZExt(v.T, to.w))
		}
	case to.kind == KFloat && from.kind == KFloat:
		if to.w == from.w {
			return v
		}
		if v.T != nil {
			if to.w == 64 {
				return fromTerm(in.pool.F(F32to64, 64, v.T, nil))
			}
			if v.T.op == OpF && v.T.k == F32to64 {
				// the identity, except that signalling NaNs become quiet
				p, a := in.pool, v.T.a
				nan := p.ULt(p.Const(32, 0x7f800000), p.Bin(OpBAnd, a, p.Const(32, 0x7fffffff)))
				return fromTerm(p.Ite(nan, p.Bin(OpBOr, a, p.Const(32, 0x00400000)), a))
			}
			return fromTerm(in.pool.F(F64to32, 32, v.T, nil))
		}
		f := fval(from.w, v.N)
		if to.w == 32 {
			return Value{N: uint64(math.Float32bits(float32(f)))}
		}
		return Value{N: math.Float64bits(f)}
	case to.kind == KFloat && from.kind == KInt:
		n := in.conc(v, from.w, "int to float")
		var f float64
		if from.signed {
			f = float64(sext(n, from.w))
			if to.w == 32 {
				return Value{N: uint64(math.Float32bits(float32(sext(n, from.w))))}
			}
		} else {
			f = float64(n)
			if to.w == 32 {
				return Value{N: uint64(math.Float32bits(float32(n)))}
			}
		}
		return Value{N: math.Float64bits(f)}
	case to.kind == KInt && from.kind == KFloat:
		f := fval(from.w, in.conc(v, from.w, "float to int"))
		if to.signed {
			return Value{N: uint64(int64(f)) & mask(to.w)}
		}
		return Value{N: uint64(f) & mask(to.w)}
	case to.kind == KString && from.kind == KSlice:
		s, _ := v.O.(*Slice)
		if s == nil {
			return mkStr("")
		}
		if isByteKind(from.elem) {
			return in.strFromObj(s.o, s.off, s.len)
		}
		// runes
		r := mkStr("")
		for i := 0; i < s.len; i++ {
			r = strConcat(r, in.runeStr(s.o.get(s.off+i)))
		}
		return r
	case to.kind == KString && from.kind == KInt:
		if v.T == nil {
			var x int64
			if from.signed {
				x = sext(v.N, from.w)
			} else {
				x = int64(v.N)
			}
			if x < 0 || x > utf8.MaxRune {
				x = utf8.RuneError
			}
			return mkStr(string(rune(x)))
		}
		return in.runeStr(fromTerm(in.widen32(v.T)))
	case to.kind == KString && from.kind == KString:
		return v
	case to.kind == KSlice && from.kind == KString:
		if isByteKind(to.elem) {
			return Value{O: in.strToSlice(v)}
		}
		var rs []Value
		for i := 0; i < strLen(v); {
			r, w := in.decodeRune(v, i)
			rs = append(rs, r)
			i += w
		}
		o := in.newArr(to.elem, len(rs))
		for i, r := range rs {
			in.set(o, i, r)
		}
		return Value{O: &Slice{o: o, len: len(rs), cap: len(rs)}}
	case to.kind == KUnsafe || from.kind == KUnsafe:
		return v
	case to.kind == from.kind:
		return v
	case to.kind == KArray && from.kind == KSlice:
		s, _ := v.O.(*Slice)
		n := 0
		if s != nil {
			n = s.len
		}
		if n < to.n {
			in.rtPanic("cannot convert slice to array: too short")
		}
		a := make([]Value, to.leaves)
		for i := range a {
			a[i] = s.o.get(s.off + i)
		}
		return Value{O: a}
	}
	in.unsupported("conversion %s -> %s", from.t, to.t)
	return Value{}
}

func (in *Interp) widen32(t *Term) *Term {
	if t.w > 32 {
		return in.pool.Extract(t, 31, 0)
	}
	return in.pool.ZExt(t, 32)
}

func (in *Interp) runeStr(v Value) Value {
	if v.T == nil {
		return mkStr(string(rune(int32(v.N))))
	}
	p := in.pool
	t := v.T
	lt := func(k uint64) bool { return in.truth(fromTerm(p.ULt(t, p.Const(t.w, k)))) }
	part := func(lo uint8, n uint8, mark uint64) *Term {
		x := p.ZExt(p.Extract(t, lo+n-1, lo), 8)
		return p.Bin(OpBOr, x, p.Const(8, mark))
	}
	var ts []*Term
	switch {
	case lt(0x80):
		ts = []*Term{p.Extract(t, 7, 0)}
	case lt(0x800):
		ts = []*Term{part(6, 5, 0xc0), part(0, 6, 0x80)}
	case lt(0xd800), !lt(0xe000) && lt(0x10000):
		ts = []*Term{part(12, 4, 0xe0), part(6, 6, 0x80), part(0, 6, 0x80)}
	case !lt(0xe000) && lt(0x110000):
		ts = []*Term{part(18, 3, 0xf0), part(12, 6, 0x80), part(6, 6, 0x80), part(0, 6, 0x80)}
	default:
		return mkStr(string(utf8.RuneError))
	}
	return Value{O: &SymStr{b: make([]byte, len(ts)), t: ts}}
}
