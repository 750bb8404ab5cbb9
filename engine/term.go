package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms are hash-consed bit-vector (w = 1..64) or boolean (w = 0) expressions.
// Only constant folding and local identities are applied here: deciding is the
// solver's job.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd
	OpOr
	OpEq  // over bv or bool
	OpIte // cond, then, else
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpConcat
	OpExtract // k = hi<<8|lo
	OpZExt
	OpSExt
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpF // floating point operation, k = code; printed specially
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub",
	OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl",
	OpLShr: "bvlshr", OpAShr: "bvashr", OpConcat: "concat", OpULt: "bvult", OpULe: "bvule",
	OpSLt: "bvslt", OpSLe: "bvsle",
}

type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	id      int
	name    string
	epoch   int // solver epoch in which this term was defined
	// evaluation memo
	evGen int
	evVal uint64
	// memo of evaluation under the variables whose value the path fixes
	pinGen int
	pinVal uint64
	pinOK  bool
	ub     uint64 // upper bound, of terms of a number
	sup    *Term  // the variable, of terms of only one
	many   bool   // depends on more than one variable
	depth  int32
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int
	k       uint64
}

type Pool struct {
	tab  map[tkey]*Term
	n    int
	vars []*Term
	byNm map[string]*Term
	gen  int
	vecs map[*Term][]uint64
	flat bool // conditions aren't replaced by sets
}

func NewPool() *Pool {
	return &Pool{tab: map[tkey]*Term{}, byNm: map[string]*Term{}}
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func (p *Pool) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := tkey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := p.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k, id: p.n, epoch: -1, evGen: -1}
	p.n++
	for _, x := range [...]*Term{a, b, c} {
		if x == nil {
			continue
		}
		t.depth = max(t.depth, x.depth+1)
		if x.sup != nil && t.sup == nil {
			t.sup = x.sup
		} else if x.sup != t.sup && x.sup != nil {
			t.many = true
		}
		t.many = t.many || x.many
	}
	p.tab[key] = t
	if w == 0 && !p.flat && t.depth >= tableDepth && !t.many && t.sup != nil && t.sup.w <= 8 {
		if r := p.table(t); r != nil {
			p.tab[key] = r
			return r
		}
	}
	if w > 0 {
		t.ub = bound(t)
	}
	return t
}

// values has the values of a term of one variable for all values of that. It's nil if there's
// an operation that can't be evaluated here.
func (p *Pool) values(t *Term) []uint64 {
	if v, ok := p.vecs[t]; ok {
		return v
	}
	if t.op == OpF {
		return nil
	}
	v := make([]uint64, 1<<t.supOf().w)
	switch t.op {
	case OpVar:
		for i := range v {
			v[i] = uint64(i)
		}
	case OpIte:
		c, x, y := p.operand(t.a, len(v)), p.operand(t.b, len(v)), p.operand(t.c, len(v))
		if c == nil || x == nil || y == nil {
			return nil
		}
		for i := range v {
			if c(i) == 1 {
				v[i] = x(i)
			} else {
				v[i] = y(i)
			}
		}
	default:
		x, y := p.operand(t.a, len(v)), func(int) uint64 { return 0 }
		if t.b != nil {
			y = p.operand(t.b, len(v))
		}
		if x == nil || y == nil {
			return nil
		}
		for i := range v {
			v[i] = t.apply(x(i), y(i))
		}
	}
	if p.vecs == nil || len(p.vecs) > 20000 {
		p.vecs = map[*Term][]uint64{}
	}
	p.vecs[t] = v
	return v
}

func (t *Term) supOf() *Term {
	if t.op == OpVar {
		return t
	}
	return t.sup
}

func (p *Pool) operand(t *Term, n int) func(int) uint64 {
	if t.op == OpConst {
		return func(int) uint64 { return t.k }
	}
	v := p.values(t)
	if v == nil {
		return nil
	}
	return func(i int) uint64 { return v[i] }
}

// tableDepth is the depth from which a condition on one byte is replaced by the set of the
// byte's values for which it is true. Solvers need minutes to see through a checksum.
const tableDepth = 24

// table rewrites a condition on one byte to membership in a set. It gives nil if it can't.
func (p *Pool) table(t *Term) *Term {
	n := 1 << t.sup.w
	vals := p.values(t)
	if vals == nil {
		return nil
	}
	in := make([]bool, n)
	for v := range in {
		in[v] = vals[v] == 1
	}
	p.flat = true
	defer func() { p.flat = false }()
	r := p.Bool(false)
	for lo := 0; lo < n; {
		if !in[lo] {
			lo++
			continue
		}
		hi := lo
		for hi+1 < n && in[hi+1] {
			hi++
		}
		var c *Term
		if lo == hi {
			c = p.Eq(t.sup, p.Const(t.sup.w, uint64(lo)))
		} else {
			c = p.And(p.ULe(p.Const(t.sup.w, uint64(lo)), t.sup), p.ULe(t.sup, p.Const(t.sup.w, uint64(hi))))
		}
		r = p.Or(r, c)
		lo = hi + 1
	}
	return r
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (p *Pool) Const(w uint8, v uint64) *Term {
	if w == 0 {
		return p.mk(OpConst, 0, nil, nil, nil, v&1)
	}
	return p.mk(OpConst, w, nil, nil, nil, v&mask(w))
}

func (p *Pool) Bool(b bool) *Term {
	if b {
		return p.Const(0, 1)
	}
	return p.Const(0, 0)
}

func (p *Pool) Var(name string, w uint8) *Term {
	if t, ok := p.byNm[name]; ok {
		if t.w != w {
			panic("variable width clash " + name)
		}
		return t
	}
	t := p.mk(OpVar, w, nil, nil, nil, uint64(len(p.vars)))
	t.name = fmt.Sprintf("in%d", len(p.vars))
	t.sup = t
	p.byNm[name] = t
	p.vars = append(p.vars, t)
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.k == 0 }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (p *Pool) Not(a *Term) *Term {
	if a.isConst() {
		return p.Bool(a.k == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	return p.mk(OpNot, 0, a, nil, nil, 0)
}

func (p *Pool) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	return p.mk(OpAnd, 0, a, b, nil, 0)
}

func (p *Pool) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	return p.mk(OpOr, 0, a, b, nil, 0)
}

// RawEq builds an equality without the x = x shortcut, so that the solver sees it.
func (p *Pool) RawEq(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return p.Bool(a.k == b.k)
	}
	return p.mk(OpEq, 0, a, b, nil, 0)
}

func (p *Pool) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d vs %d", a.w, b.w))
	}
	if a == b {
		return p.Bool(true)
	}
	if a.isConst() && b.isConst() {
		return p.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 && b.isConst() {
		if b.k == 1 {
			return a
		}
		return p.Not(a)
	}
	// ite(c, k1, k2) == k
	if b.isConst() && a.op == OpIte && a.b.isConst() && a.c.isConst() {
		x, y := a.b.k == b.k, a.c.k == b.k
		switch {
		case x && y:
			return p.Bool(true)
		case x:
			return a.a
		case y:
			return p.Not(a.a)
		default:
			return p.Bool(false)
		}
	}
	if b.isConst() && a.op == OpZExt {
		if b.k > mask(a.a.w) {
			return p.Bool(false)
		}
		return p.Eq(a.a, p.Const(a.a.w, b.k))
	}
	if b.isConst() && a.op == OpConcat {
		return p.And(p.Eq(a.a, p.Const(a.a.w, b.k>>a.b.w)), p.Eq(a.b, p.Const(a.b.w, b.k)))
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return p.Eq(a.a, b.a)
	}
	return p.mk(OpEq, 0, a, b, nil, 0)
}

func (p *Pool) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return p.Not(c)
		}
		switch {
		case a.isTrue():
			return p.Or(c, b)
		case a.isFalse():
			return p.And(p.Not(c), b)
		case b.isTrue():
			return p.Or(p.Not(c), a)
		case b.isFalse():
			return p.And(c, a)
		}
	}
	return p.mk(OpIte, a.w, c, a, b, 0)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		sx := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m
	}
	panic("evalBin")
}

func (p *Pool) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s width %d vs %d", opNames[op], a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		return p.Const(w, evalBin(op, w, a.k, b.k))
	}
	if b.isConst() {
		switch op {
		case OpAdd, OpSub, OpBOr, OpBXor, OpShl, OpLShr, OpAShr:
			if b.k == 0 {
				return a
			}
			if (op == OpShl || op == OpLShr) && b.k >= uint64(w) {
				return p.Const(w, 0)
			}
		case OpMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if b.k&(b.k-1) == 0 {
				return p.Bin(OpShl, a, p.Const(w, uint64(bits.TrailingZeros64(b.k))))
			}
		case OpBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
		case OpUDiv:
			if b.k == 1 {
				return a
			}
			if ubound(a) < b.k {
				return p.Const(w, 0)
			}
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return p.Bin(OpLShr, a, p.Const(w, uint64(bits.TrailingZeros64(b.k))))
			}
		case OpURem:
			if ubound(a) < b.k {
				return a
			}
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return p.Bin(OpBAnd, a, p.Const(w, b.k-1))
			}
		}
	}
	if a.isConst() {
		switch op {
		case OpAdd, OpBOr, OpBXor, OpMul, OpBAnd:
			return p.Bin(op, b, a)
		case OpShl, OpLShr:
			if a.k == 0 {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return p.Const(w, 0)
		case OpBAnd, OpBOr:
			return a
		}
	}
	if b.isConst() {
		switch op {
		case OpShl:
			return p.join(append([]*Term{p.Const(uint8(b.k), 0)}, p.pieces(p.Extract(a, w-1-uint8(b.k), 0), nil)...))
		case OpLShr:
			return p.ZExt(p.Extract(a, w-1, uint8(b.k)), w)
		case OpBAnd:
			// a contiguous mask
			lo := uint8(bits.TrailingZeros64(b.k))
			n := uint8(bits.TrailingZeros64(^(b.k >> lo)))
			if b.k == mask(n)<<lo {
				t := p.pieces(p.Extract(a, lo+n-1, lo), nil)
				if lo > 0 {
					t = append([]*Term{p.Const(lo, 0)}, t...)
				}
				if lo+n < w {
					t = append(t, p.Const(w-lo-n, 0))
				}
				return p.join(t)
			}
		}
	}
	if op == OpBOr || op == OpBXor {
		if t := p.disjoint(a, b); t != nil {
			return t
		}
	}
	return p.mk(op, w, a, b, nil, 0)
}

// pieces appends what t is the concatenation of, lowest first.
func (p *Pool) pieces(t *Term, r []*Term) []*Term {
	switch t.op {
	case OpZExt:
		return append(p.pieces(t.a, r), p.Const(t.w-t.a.w, 0))
	case OpConcat:
		return p.pieces(t.a, p.pieces(t.b, r))
	}
	return append(r, t)
}

// join gives the concatenation of terms, lowest first, in a canonical form.
func (p *Pool) join(ts []*Term) *Term {
	var r []*Term
	for _, t := range ts {
		if n := len(r); n > 0 {
			l := r[n-1]
			if l.isConst() && t.isConst() {
				r[n-1] = p.Const(l.w+t.w, t.k<<l.w|l.k)
				continue
			}
			if l.op == OpExtract && t.op == OpExtract && l.a == t.a && t.k&0xff == l.k>>8+1 {
				r[n-1] = p.Extract(l.a, uint8(t.k>>8), uint8(l.k&0xff))
				continue
			}
		}
		r = append(r, t)
	}
	x := r[0]
	for i, t := range r[1:] {
		switch {
		case t.isConst() && t.k == 0 && i == len(r)-2:
			x = p.ZExt(x, x.w+t.w)
		default:
			x = p.mk(OpConcat, x.w+t.w, t, x, nil, 0)
		}
	}
	return x
}

// disjoint gives a|b when at every bit one of the two is known to be zero.
func (p *Pool) disjoint(a, b *Term) *Term {
	cut := func(t *Term) []*Term {
		if t.op == OpZExt || t.op == OpConcat {
			return p.pieces(t, nil)
		}
		if t.isConst() {
			return []*Term{t}
		}
		// whole bytes that are zero
		if n := uint8(bits.Len64(ubound(t))+7) &^ 7; n > 0 && n < t.w {
			return []*Term{p.Extract(t, n-1, 0), p.Const(t.w-n, 0)}
		}
		return nil
	}
	x, y := cut(a), cut(b)
	if x == nil || y == nil {
		return nil
	}
	var r []*Term
	for len(x) > 0 && len(y) > 0 {
		n := min(x[0].w, y[0].w)
		cut := func(l []*Term) (*Term, []*Term) {
			t := l[0]
			if t.w == n {
				return t, l[1:]
			}
			rest := append([]*Term{p.Extract(t, t.w-1, n)}, l[1:]...)
			return p.Extract(t, n-1, 0), rest
		}
		var s, t *Term
		s, x = cut(x)
		t, y = cut(y)
		switch {
		case s.isConst() && t.isConst():
			r = append(r, p.Const(n, s.k|t.k))
		case s.isConst() && s.k == 0:
			r = append(r, t)
		case t.isConst() && t.k == 0:
			r = append(r, s)
		default:
			return nil
		}
	}
	return p.join(r)
}

func (p *Pool) BNot(a *Term) *Term {
	if a.isConst() {
		return p.Const(a.w, ^a.k)
	}
	if a.op == OpBNot {
		return a.a
	}
	return p.mk(OpBNot, a.w, a, nil, nil, 0)
}

func (p *Pool) Neg(a *Term) *Term {
	if a.isConst() {
		return p.Const(a.w, -a.k)
	}
	return p.mk(OpNeg, a.w, a, nil, nil, 0)
}

func (p *Pool) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return p.Const(w, a.k>>lo)
	}
	if ubound(a)>>lo == 0 {
		return p.Const(w, 0)
	}
	switch a.op {
	case OpExtract:
		l0 := uint8(a.k & 0xff)
		return p.Extract(a.a, hi+l0, lo+l0)
	case OpZExt:
		if hi < a.a.w {
			return p.Extract(a.a, hi, lo)
		}
		if lo >= a.a.w {
			return p.Const(w, 0)
		}
		return p.ZExt(p.Extract(a.a, a.a.w-1, lo), w)
	case OpConcat:
		if hi < a.b.w {
			return p.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return p.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
		return p.Concat(p.Extract(a.a, hi-a.b.w, 0), p.Extract(a.b, a.b.w-1, lo))
	case OpSExt:
		if hi < a.a.w {
			return p.Extract(a.a, hi, lo)
		}
	case OpLShr:
		if a.b.isConst() {
			s := a.b.k
			if uint64(hi)+s < uint64(a.w) {
				return p.Extract(a.a, hi+uint8(s), lo+uint8(s))
			}
		}
	}
	return p.mk(OpExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo))
}

func (p *Pool) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return p.Const(w, a.k)
	}
	if a.op == OpZExt {
		return p.ZExt(a.a, w)
	}
	if a.op == OpExtract && a.k&0xff == 0 && a.a.w == w && ubound(a.a) <= mask(a.w) {
		return a.a
	}
	return p.mk(OpZExt, w, a, nil, nil, 0)
}

func (p *Pool) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return p.Const(w, uint64(sext(a.k, a.w)))
	}
	if a.op == OpZExt {
		return p.ZExt(a.a, w)
	}
	return p.mk(OpSExt, w, a, nil, nil, 0)
}

// ubound is an unsigned upper bound of a term from its shape.
func ubound(t *Term) uint64 {
	if t.op == OpConst {
		return t.k
	}
	return t.ub
}

func bound(t *Term) uint64 {
	m := mask(t.w)
	switch t.op {
	case OpConst:
		return t.k
	case OpZExt:
		return ubound(t.a)
	case OpConcat:
		return ubound(t.a)<<t.b.w | mask(t.b.w)
	case OpAdd:
		s := ubound(t.a) + ubound(t.b)
		if s >= ubound(t.a) && s <= m {
			return s
		}
	case OpMul:
		hi, lo := bits.Mul64(ubound(t.a), ubound(t.b))
		if hi == 0 && lo <= m {
			return lo
		}
	case OpUDiv:
		if t.b.isConst() && t.b.k > 0 {
			return ubound(t.a) / t.b.k
		}
	case OpBAnd:
		return min(ubound(t.a), ubound(t.b))
	case OpBOr, OpBXor:
		n := bits.Len64(ubound(t.a) | ubound(t.b))
		return min(m, uint64(1)<<n-1)
	case OpLShr:
		if t.b.isConst() && t.b.k < 64 {
			return ubound(t.a) >> t.b.k
		}
	case OpURem:
		if t.b.isConst() && t.b.k > 0 {
			return min(ubound(t.a), t.b.k-1)
		}
	case OpIte:
		return max(ubound(t.b), ubound(t.c))
	}
	return m
}

func (p *Pool) ULt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return p.Bool(a.k < b.k)
	}
	if a == b {
		return p.Bool(false)
	}
	if b.isConst() && ubound(a) < b.k {
		return p.Bool(true)
	}
	if a.isConst() && ubound(b) <= a.k {
		return p.Bool(false)
	}
	if b.isConst() && b.k == 0 {
		return p.Bool(false)
	}
	if a.op == OpUDiv && a.a.isConst() && b.isConst() {
		// c/x < k  iff  x > c/k
		return p.ULt(p.Const(a.w, a.a.k/b.k), a.b)
	}
	if b.op == OpUDiv && b.a.isConst() && a.isConst() && a.k != mask(a.w) {
		// k < c/x  iff  x <= c/(k+1)
		return p.ULe(b.b, p.Const(b.w, b.a.k/(a.k+1)))
	}
	return p.mk(OpULt, 0, a, b, nil, 0)
}

func (p *Pool) ULe(a, b *Term) *Term { return p.Not(p.ULt(b, a)) }

func (p *Pool) SLt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return p.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	if a == b {
		return p.Bool(false)
	}
	half := uint64(1) << (a.w - 1)
	ua, ub := ubound(a), ubound(b)
	if ua < half && ub < half {
		return p.ULt(a, b)
	}
	if b.isConst() && b.k == 0 && ua < half {
		return p.Bool(false)
	}
	return p.mk(OpSLt, 0, a, b, nil, 0)
}

func (p *Pool) SLe(a, b *Term) *Term { return p.Not(p.SLt(b, a)) }

func (p *Pool) Concat(hi, lo *Term) *Term {
	return p.join(p.pieces(hi, p.pieces(lo, nil)))
}

// F builds a floating point term. codes:
const (
	FEq32 = iota
	FEq64
	FLt32
	FLt64
	FLe32
	FLe64
	F32to64
	F64to32
	FAdd32
	FAdd64
	FSub32
	FSub64
	FMul32
	FMul64
	FDiv32
	FDiv64
)

func (p *Pool) F(code int, w uint8, a, b *Term) *Term {
	return p.mk(OpF, w, a, b, nil, uint64(code))
}

func bvlit(w uint8, v uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return bvlit(t.w, t.k)
	case OpVar:
		return t.name
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k>>8, t.k&0xff, t.a.ref())
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpF:
		f32 := func(x *Term) string { return "((_ to_fp 8 24) " + x.ref() + ")" }
		f64 := func(x *Term) string { return "((_ to_fp 11 53) " + x.ref() + ")" }
		switch t.k {
		case FEq32:
			return "(fp.eq " + f32(t.a) + " " + f32(t.b) + ")"
		case FEq64:
			return "(fp.eq " + f64(t.a) + " " + f64(t.b) + ")"
		case FLt32:
			return "(fp.lt " + f32(t.a) + " " + f32(t.b) + ")"
		case FLt64:
			return "(fp.lt " + f64(t.a) + " " + f64(t.b) + ")"
		case FLe32:
			return "(fp.leq " + f32(t.a) + " " + f32(t.b) + ")"
		case FLe64:
			return "(fp.leq " + f64(t.a) + " " + f64(t.b) + ")"
		case F32to64:
			return "(fp.to_ieee_bv ((_ to_fp 11 53) RNE " + f32(t.a) + "))"
		case F64to32:
			return "(fp.to_ieee_bv ((_ to_fp 8 24) RNE " + f64(t.a) + "))"
		}
		panic("fp op unsupported")
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) sort() string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

// Model maps variable index to value.
type Model struct {
	gen  int
	vals map[uint64]uint64
}

func (p *Pool) NewModel() *Model {
	p.gen++
	return &Model{gen: p.gen, vals: map[uint64]uint64{}}
}

// Eval evaluates t under m; ok is false if it contains an operation not evaluable here.
func (m *Model) Eval(t *Term) (v uint64, ok bool) {
	if t.op == OpConst {
		return t.k, true
	}
	if t.evGen == m.gen {
		return t.evVal, true
	}
	var x, y uint64
	switch t.op {
	case OpVar:
		v = m.vals[t.k]
	case OpIte:
		c, ok := m.Eval(t.a)
		if !ok {
			return 0, false
		}
		if c == 1 {
			v, ok = m.Eval(t.b)
		} else {
			v, ok = m.Eval(t.c)
		}
		if !ok {
			return 0, false
		}
	case OpF:
		return 0, false
	default:
		if x, ok = m.Eval(t.a); !ok {
			return 0, false
		}
		if t.b != nil {
			if t.op == OpAnd && x == 0 {
				v = 0
				goto done
			}
			if t.op == OpOr && x == 1 {
				v = 1
				goto done
			}
			if y, ok = m.Eval(t.b); !ok {
				return 0, false
			}
		}
		v = t.apply(x, y)
	}
done:
	t.evGen, t.evVal = m.gen, v
	return v, true
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// apply evaluates the operation of t for operand values x and y.
func (t *Term) apply(x, y uint64) (v uint64) {
	switch t.op {
	case OpNot:
		v = 1 - x
	case OpAnd:
		v = x & y
	case OpOr:
		v = x | y
	case OpEq:
		v = b2u(x == y)
	case OpBNot:
		v = ^x & mask(t.w)
	case OpNeg:
		v = -x & mask(t.w)
	case OpConcat:
		v = x<<t.b.w | y
	case OpExtract:
		v = (x >> (t.k & 0xff)) & mask(t.w)
	case OpZExt:
		v = x
	case OpSExt:
		v = uint64(sext(x, t.a.w)) & mask(t.w)
	case OpULt:
		v = b2u(x < y)
	case OpULe:
		v = b2u(x <= y)
	case OpSLt:
		v = b2u(sext(x, t.a.w) < sext(y, t.a.w))
	case OpSLe:
		v = b2u(sext(x, t.a.w) <= sext(y, t.a.w))
	default:
		v = evalBin(t.op, t.w, x, y)
	}
	return v
}

// Pins are the variables to which the path condition gives a single value.
type Pins struct {
	gen  int
	vals map[uint64]uint64
}

func (p *Pins) reset() {
	p.gen++
	clear(p.vals)
}

// learn records what a conjunct of the path condition fixes.
func (p *Pins) learn(t *Term) {
	switch t.op {
	case OpAnd:
		p.learn(t.a)
		p.learn(t.b)
	case OpVar:
		p.fix(t, 1)
	case OpNot:
		if t.a.op == OpVar {
			p.fix(t.a, 0)
		} else if t.a.op == OpOr {
			p.learnNot(t.a.a)
			p.learnNot(t.a.b)
		}
	case OpEq:
		switch {
		case t.a.isConst():
			p.fix(t.b, t.a.k)
		case t.b.isConst():
			p.fix(t.a, t.b.k)
		}
	}
}

func (p *Pins) learnNot(t *Term) {
	switch t.op {
	case OpVar:
		p.fix(t, 0)
	case OpNot:
		p.learn(t.a)
	case OpOr:
		p.learnNot(t.a)
		p.learnNot(t.b)
	}
}

func (p *Pins) fix(t *Term, k uint64) {
	switch t.op {
	case OpVar:
		if _, has := p.vals[t.k]; !has {
			p.vals[t.k] = k
			p.gen++
		}
	case OpConcat:
		p.fix(t.a, k>>t.b.w)
		p.fix(t.b, k&mask(t.b.w))
	case OpZExt, OpSExt:
		p.fix(t.a, k&mask(t.a.w))
	}
}

// Eval evaluates t if the path fixes everything it depends on.
func (p *Pins) Eval(t *Term) (v uint64, ok bool) {
	if t.op == OpConst {
		return t.k, true
	}
	if len(p.vals) == 0 {
		return 0, false
	}
	if t.pinGen == p.gen {
		return t.pinVal, t.pinOK
	}
	switch t.op {
	case OpVar:
		v, ok = p.vals[t.k]
	case OpF:
	case OpIte:
		var c uint64
		if c, ok = p.Eval(t.a); ok {
			if c == 1 {
				v, ok = p.Eval(t.b)
			} else {
				v, ok = p.Eval(t.c)
			}
		}
	default:
		var x, y uint64
		x, ok = p.Eval(t.a)
		switch {
		case t.b == nil:
			if ok {
				v = t.apply(x, 0)
			}
		case t.op == OpAnd || t.op == OpOr:
			abs := b2u(t.op == OpOr)
			var ok2 bool
			if ok && x == abs {
				v = abs
			} else if y, ok2 = p.Eval(t.b); ok2 && y == abs {
				v, ok = abs, true
			} else if ok = ok && ok2; ok {
				v = t.apply(x, y)
			}
		case ok:
			if y, ok = p.Eval(t.b); ok {
				v = t.apply(x, y)
			}
		}
	}
	t.pinGen, t.pinVal, t.pinOK = p.gen, v, ok
	return v, ok
}
