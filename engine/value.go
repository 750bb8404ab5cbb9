package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Value is one interpreter value.
//
//	scalars: N (bits, truncated to the width) or T (symbolic)
//	pointers: O=*Obj, N=cell offset; or O=*SymPtr; nil: O==nil
//	strings: O=string or *SymStr; "" may be O==nil
//	slices: O=*Slice, nil: O==nil
//	interfaces: O=*Iface, nil: O==nil
//	structs, arrays, tuples: O=[]Value (flattened leaves for struct/array, one per component for tuples)
//	maps O=*Map, funcs O=*Closure, reflect.Value O=*RVal
type Value struct {
	N uint64
	T *Term
	O any
}

type Obj struct {
	v     []Value
	b     []byte
	t     []*Term // parallel to b when any symbolic byte was ever stored
	isB   bool
	init  bool
	saved bool
	own   uint8 // which of two parallel functions allocated it
	id    int
	typ   types.Type // allocation type, informational
}

type SymPtr struct {
	o              *Obj
	off, stride, n int
	idx            *Term // 64-bit, known < n
	field          int   // extra offset within the element
}

type Slice struct {
	o             *Obj
	off, len, cap int // off in cells; len, cap in elements
}

type SymStr struct {
	b []byte
	t []*Term
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *cfunc
	free []Value
	bi   string // builtin name
	nat  func(in *Interp, args []Value) Value
}

type RVal struct {
	t   types.Type
	v   Value
	ptr Value // when addressable
	adr bool
	ro  bool
}

type ment struct {
	k, v Value
	live bool
}

type Map struct {
	ents  []ment
	idx   map[any]int
	nsym  int
	live  int
	init  bool
	saved bool
	own   uint8
	kt    types.Type
}

type mapIter struct {
	m     *Map
	order []int
	pos   int
	str   Value
	isStr bool
}

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KString
	KPtr
	KSlice
	KIface
	KMap
	KFunc
	KChan
	KStruct
	KArray
	KTuple
	KUnsafe
	KOpaque
	KComplex
)

type tinfo struct {
	t      types.Type
	u      types.Type
	kind   Kind
	w      uint8
	signed bool
	leaves int
	offs   []int
	fields []*tinfo
	elem   *tinfo
	n      int
}

func (ti *tinfo) agg() bool { return ti.kind == KStruct || ti.kind == KArray }
func (ti *tinfo) scalar() bool {
	return ti.kind == KBool || ti.kind == KInt || ti.kind == KFloat
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Value" && o.Pkg() != nil && (o.Pkg().Path() == "reflect" || o.Pkg().Path() == "internal/reflectlite")
}

func (in *Interp) ti(t types.Type) *tinfo {
	if x, ok := in.tis[t]; ok {
		return x
	}
	x := &tinfo{t: t, leaves: 1}
	in.tis[t] = x
	if a, ok := t.(*types.Alias); ok {
		y := in.ti(types.Unalias(a))
		*x = *y
		return x
	}
	if isReflectValue(t) {
		x.kind = KOpaque
		x.u = t.Underlying()
		return x
	}
	x.u = t.Underlying()
	switch u := x.u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			x.kind, x.w = KBool, 0
		case types.Int8:
			x.kind, x.w, x.signed = KInt, 8, true
		case types.Int16:
			x.kind, x.w, x.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			x.kind, x.w, x.signed = KInt, 32, true
		case types.Int, types.Int64, types.UntypedInt:
			x.kind, x.w, x.signed = KInt, 64, true
		case types.Uint8:
			x.kind, x.w = KInt, 8
		case types.Uint16:
			x.kind, x.w = KInt, 16
		case types.Uint32:
			x.kind, x.w = KInt, 32
		case types.Uint, types.Uint64, types.Uintptr:
			x.kind, x.w = KInt, 64
		case types.Float32:
			x.kind, x.w = KFloat, 32
		case types.Float64, types.UntypedFloat:
			x.kind, x.w = KFloat, 64
		case types.String, types.UntypedString:
			x.kind = KString
		case types.UnsafePointer:
			x.kind = KUnsafe
		case types.UntypedNil:
			x.kind = KPtr
		case types.Complex64, types.Complex128, types.UntypedComplex:
			x.kind = KComplex
		default:
			panic("ti: basic " + u.String())
		}
	case *types.Pointer:
		x.kind = KPtr
	case *types.Slice:
		x.kind = KSlice
		x.elem = in.ti(u.Elem())
	case *types.Interface:
		x.kind = KIface
	case *types.Map:
		x.kind = KMap
	case *types.Signature:
		x.kind = KFunc
	case *types.Chan:
		x.kind = KChan
	case *types.Struct:
		x.kind = KStruct
		x.leaves = 0
		for i := 0; i < u.NumFields(); i++ {
			f := in.ti(u.Field(i).Type())
			x.fields = append(x.fields, f)
			x.offs = append(x.offs, x.leaves)
			x.leaves += f.leaves
		}
	case *types.Array:
		x.kind = KArray
		x.elem = in.ti(u.Elem())
		x.n = int(u.Len())
		x.leaves = x.n * x.elem.leaves
	case *types.Tuple:
		x.kind = KTuple
	case *types.TypeParam:
		panic("ti: type parameter " + t.String())
	default:
		panic(fmt.Sprintf("ti: %T", u))
	}
	return x
}

func isByteKind(e *tinfo) bool { return e.kind == KInt && e.w == 8 && !e.signed }

func (in *Interp) newObj(ti *tinfo) *Obj {
	in.nobj++
	o := &Obj{id: in.nobj, init: in.initPhase, typ: ti.t}
	if in.par != nil {
		o.own = in.par.who
	}
	if ti.kind == KArray && isByteKind(ti.elem) {
		o.isB = true
		o.b = make([]byte, ti.n)
		return o
	}
	o.v = make([]Value, ti.leaves)
	return o
}

func (in *Interp) newArr(e *tinfo, n int) *Obj {
	in.nobj++
	o := &Obj{id: in.nobj, init: in.initPhase, typ: e.t}
	if in.par != nil {
		o.own = in.par.who
	}
	if isByteKind(e) {
		o.isB = true
		o.b = make([]byte, n)
		return o
	}
	o.v = make([]Value, n*e.leaves)
	return o
}

func (o *Obj) size() int {
	if o.isB {
		return len(o.b)
	}
	return len(o.v)
}

func (o *Obj) get(i int) Value {
	if o.isB {
		if o.t != nil && o.t[i] != nil {
			return Value{T: o.t[i]}
		}
		return Value{N: uint64(o.b[i])}
	}
	return o.v[i]
}

func (in *Interp) save(o *Obj) {
	o.saved = true
	c := &Obj{isB: o.isB}
	if o.isB {
		c.b = append([]byte(nil), o.b...)
		if o.t != nil {
			c.t = append([]*Term(nil), o.t...)
		}
	} else {
		c.v = append([]Value(nil), o.v...)
	}
	in.journal = append(in.journal, func() {
		o.b, o.t, o.v, o.saved = c.b, c.t, c.v, false
	})
}

func (in *Interp) saveMap(m *Map) {
	m.saved = true
	c := &Map{ents: append([]ment(nil), m.ents...), nsym: m.nsym, live: m.live, idx: map[any]int{}}
	for k, v := range m.idx {
		c.idx[k] = v
	}
	in.journal = append(in.journal, func() {
		m.ents, m.idx, m.nsym, m.live, m.saved = c.ents, c.idx, c.nsym, c.live, false
	})
}

func (in *Interp) set(o *Obj, i int, v Value) {
	if in.par != nil {
		in.parObj(o, i, 1, true)
	}
	if o.init && !o.saved && !in.initPhase {
		in.save(o)
	}
	if o.isB {
		if v.T != nil {
			if o.t == nil {
				o.t = make([]*Term, len(o.b))
			}
			o.t[i] = v.T
			return
		}
		if o.t != nil {
			o.t[i] = nil
		}
		o.b[i] = byte(v.N)
		return
	}
	o.v[i] = v
}

// copyCells copies n cells, handling overlap.
func (in *Interp) copyCells(d *Obj, doff int, s *Obj, soff, n int) {
	if n == 0 {
		return
	}
	if in.par != nil {
		in.parObj(s, soff, n, false)
		in.parObj(d, doff, n, true)
	}
	if d.init && !d.saved && !in.initPhase {
		in.save(d)
	}
	if d.isB && s.isB {
		copy(d.b[doff:doff+n], s.b[soff:soff+n])
		if s.t != nil {
			if d.t == nil {
				d.t = make([]*Term, len(d.b))
			}
			copy(d.t[doff:doff+n], s.t[soff:soff+n])
		} else if d.t != nil {
			clear(d.t[doff : doff+n])
		}
		return
	}
	if !d.isB && !s.isB {
		copy(d.v[doff:doff+n], s.v[soff:soff+n])
		return
	}
	for i := 0; i < n; i++ {
		in.set(d, doff+i, s.get(soff+i))
	}
}

func (in *Interp) load(p Value, ti *tinfo) Value {
	if sp, ok := p.O.(*SymPtr); ok {
		if ti.scalar() {
			if r, ok := in.symLoad(sp, ti); ok {
				return r
			}
		}
		p = in.concPtr(sp)
	}
	o, ok := p.O.(*Obj)
	if !ok {
		if p.O == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		in.unsupported("load through %T", p.O)
	}
	if !ti.agg() {
		if int(p.N) >= o.size() {
			in.unsupported("load outside object")
		}
		v := o.get(int(p.N))
		if in.par != nil {
			in.parObj(o, int(p.N), 1, false)
		}
		if ti.kind == KString {
			if s, ok := v.O.(*Slice); ok { // *(*string)(unsafe.Pointer(&b))
				return in.strFromObj(s.o, s.off, s.len)
			}
		}
		return v
	}
	a := make([]Value, ti.leaves)
	if int(p.N)+ti.leaves > o.size() {
		in.unsupported("aggregate load outside object")
	}
	if in.par != nil {
		in.parObj(o, int(p.N), ti.leaves, false)
	}
	if !o.isB {
		copy(a, o.v[p.N:int(p.N)+ti.leaves])
	} else {
		for i := range a {
			a[i] = o.get(int(p.N) + i)
		}
	}
	return Value{O: a}
}

func (in *Interp) symLoad(sp *SymPtr, ti *tinfo) (Value, bool) {
	if in.par != nil {
		for i := 0; i < sp.n; i++ {
			in.parObj(sp.o, sp.off+i*sp.stride+sp.field, 1, false)
		}
	}
	p := in.pool
	w := ti.w
	var r *Term
	for i := sp.n - 1; i >= 0; i-- {
		v := sp.o.get(sp.off + i*sp.stride + sp.field)
		if v.O != nil {
			return Value{}, false
		}
		t := v.T
		if t == nil {
			t = p.Const(w, v.N)
		}
		if r == nil {
			r = t
		} else {
			r = p.Ite(p.Eq(sp.idx, p.Const(64, uint64(i))), t, r)
		}
	}
	return fromTerm(r), true
}

func fromTerm(t *Term) Value {
	if t.isConst() {
		return Value{N: t.k}
	}
	return Value{T: t}
}

func (in *Interp) concPtr(sp *SymPtr) Value {
	i := in.concTerm(sp.idx, "index")
	return Value{O: sp.o, N: uint64(sp.off + int(i)*sp.stride + sp.field)}
}

func (in *Interp) store(p Value, ti *tinfo, v Value) {
	if sp, ok := p.O.(*SymPtr); ok {
		if ti.scalar() && sp.n <= 64 {
			for i := 0; i < sp.n; i++ {
				at := sp.off + i*sp.stride + sp.field
				old := in.term(sp.o.get(at), ti.w)
				in.set(sp.o, at, fromTerm(in.pool.Ite(in.pool.Eq(sp.idx, in.pool.Const(64, uint64(i))), in.term(v, ti.w), old)))
			}
			return
		}
		p = in.concPtr(sp)
	}
	o, ok := p.O.(*Obj)
	if !ok {
		if p.O == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		in.unsupported("store through %T", p.O)
	}
	if !ti.agg() {
		in.set(o, int(p.N), v)
		return
	}
	a, _ := v.O.([]Value)
	if a == nil {
		for i := 0; i < ti.leaves; i++ {
			in.set(o, int(p.N)+i, Value{})
		}
		return
	}
	if in.par != nil && !o.isB {
		in.parObj(o, int(p.N), ti.leaves, true)
	}
	if o.init && !o.saved && !in.initPhase {
		in.save(o)
	}
	if !o.isB {
		copy(o.v[p.N:int(p.N)+ti.leaves], a)
		return
	}
	for i := range a {
		in.set(o, int(p.N)+i, a[i])
	}
}

// aggOf returns the leaves of an aggregate value (zero if none).
func aggOf(v Value, ti *tinfo) []Value {
	if a, ok := v.O.([]Value); ok {
		return a
	}
	return make([]Value, ti.leaves)
}

// pack extracts a component of type f at offset off from leaves.
func pack(a []Value, off int, f *tinfo) Value {
	if f.agg() {
		c := make([]Value, f.leaves)
		copy(c, a[off:off+f.leaves])
		return Value{O: c}
	}
	return a[off]
}

// unpack stores v of type f at offset off.
func unpack(a []Value, off int, f *tinfo, v Value) {
	if f.agg() {
		copy(a[off:off+f.leaves], aggOf(v, f))
		return
	}
	a[off] = v
}

// ---- strings

func strLen(v Value) int {
	switch s := v.O.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v.O))
}

func strAt(v Value, i int) Value {
	switch s := v.O.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SymStr:
		if s.t[i] != nil {
			return Value{T: s.t[i]}
		}
		return Value{N: uint64(s.b[i])}
	}
	panic("strAt")
}

func mkStr(s string) Value { return Value{O: s} }

// normStr turns a symbolic string without symbolic bytes into a plain one.
func normStr(s *SymStr) Value {
	for _, t := range s.t {
		if t != nil {
			return Value{O: s}
		}
	}
	return Value{O: string(s.b)}
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.O.(type) {
	case nil:
		return Value{O: ""}
	case string:
		return Value{O: s[lo:hi]}
	case *SymStr:
		return normStr(&SymStr{b: s.b[lo:hi], t: s.t[lo:hi]})
	}
	panic("strSlice")
}

func toSym(v Value) *SymStr {
	switch s := v.O.(type) {
	case nil:
		return &SymStr{}
	case string:
		return &SymStr{b: []byte(s), t: make([]*Term, len(s))}
	case *SymStr:
		return s
	}
	panic("toSym")
}

func goStr(v Value) (string, bool) {
	switch s := v.O.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strConcat(a, b Value) Value {
	x, ok1 := goStr(a)
	y, ok2 := goStr(b)
	if ok1 && ok2 {
		return Value{O: x + y}
	}
	s, t := toSym(a), toSym(b)
	r := &SymStr{b: append(append([]byte(nil), s.b...), t.b...), t: append(append([]*Term(nil), s.t...), t.t...)}
	return Value{O: r}
}

func (in *Interp) strFromObj(o *Obj, off, n int) Value {
	if n == 0 {
		return Value{O: ""}
	}
	if !o.isB {
		s := &SymStr{b: make([]byte, n), t: make([]*Term, n)}
		for i := 0; i < n; i++ {
			v := o.v[off+i]
			s.b[i], s.t[i] = byte(v.N), v.T
		}
		return normStr(s)
	}
	if o.t == nil {
		return Value{O: string(o.b[off : off+n])}
	}
	return normStr(&SymStr{b: append([]byte(nil), o.b[off:off+n]...), t: append([]*Term(nil), o.t[off:off+n]...)})
}

func (in *Interp) strToSlice(v Value) *Slice {
	n := strLen(v)
	o := in.newArr(in.tByte, n)
	switch s := v.O.(type) {
	case string:
		copy(o.b, s)
	case *SymStr:
		copy(o.b, s.b)
		o.t = append([]*Term(nil), s.t...)
	}
	return &Slice{o: o, len: n, cap: n}
}

// strEq returns concrete result or a term.
func (in *Interp) strEq(a, b Value) Value {
	x, ok1 := goStr(a)
	y, ok2 := goStr(b)
	if ok1 && ok2 {
		return boolV(x == y)
	}
	s, t := toSym(a), toSym(b)
	if len(s.b) != len(t.b) {
		return boolV(false)
	}
	p := in.pool
	r := p.Bool(true)
	for i := range s.b {
		r = p.And(r, p.Eq(symByte(p, s, i), symByte(p, t, i)))
	}
	return fromTerm(r)
}

func symByte(p *Pool, s *SymStr, i int) *Term {
	if s.t[i] != nil {
		return s.t[i]
	}
	return p.Const(8, uint64(s.b[i]))
}

func (in *Interp) strLess(a, b Value) Value {
	x, ok1 := goStr(a)
	y, ok2 := goStr(b)
	if ok1 && ok2 {
		return boolV(x < y)
	}
	s, t := toSym(a), toSym(b)
	p := in.pool
	// lexicographic from the end
	r := p.Bool(len(s.b) < len(t.b))
	n := min(len(s.b), len(t.b))
	for i := n - 1; i >= 0; i-- {
		u, v := symByte(p, s, i), symByte(p, t, i)
		r = p.Or(p.ULt(u, v), p.And(p.Eq(u, v), r))
	}
	return fromTerm(r)
}

func boolV(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}

func (in *Interp) term(v Value, w uint8) *Term {
	if v.T != nil {
		return v.T
	}
	return in.pool.Const(w, v.N)
}

// ---- equality

func (in *Interp) and(a, b Value) Value {
	if a.T == nil {
		if a.N == 0 {
			return a
		}
		return b
	}
	if b.T == nil {
		if b.N == 0 {
			return b
		}
		return a
	}
	return fromTerm(in.pool.And(a.T, b.T))
}

func (in *Interp) not(a Value) Value {
	if a.T == nil {
		return boolV(a.N == 0)
	}
	return fromTerm(in.pool.Not(a.T))
}

func (in *Interp) eqScalar(ti *tinfo, x, y Value) Value {
	if ti.kind == KFloat {
		if x.T == nil && y.T == nil {
			return boolV(fval(ti.w, x.N) == fval(ti.w, y.N))
		}
		// bit-level IEEE equality
		p := in.pool
		a, b := in.term(x, ti.w), in.term(y, ti.w)
		nan := func(t *Term) *Term {
			if ti.w == 32 {
				return p.ULt(p.Const(32, 0x7f800000), p.Bin(OpBAnd, t, p.Const(32, 0x7fffffff)))
			}
			return p.ULt(p.Const(64, 0x7ff0000000000000), p.Bin(OpBAnd, t, p.Const(64, 0x7fffffffffffffff)))
		}
		zero := func(t *Term) *Term {
			return p.Eq(p.Bin(OpShl, t, p.Const(ti.w, 1)), p.Const(ti.w, 0))
		}
		e := p.Or(p.Eq(a, b), p.And(zero(a), zero(b)))
		return fromTerm(p.And(e, p.And(p.Not(nan(a)), p.Not(nan(b)))))
	}
	if x.T == nil && y.T == nil {
		return boolV(x.N == y.N)
	}
	return fromTerm(in.pool.Eq(in.term(x, ti.w), in.term(y, ti.w)))
}

// eq compares two values of the same static type.
func (in *Interp) eq(ti *tinfo, x, y Value) Value {
	switch ti.kind {
	case KBool, KInt, KFloat:
		return in.eqScalar(ti, x, y)
	case KString:
		return in.strEq(x, y)
	case KPtr, KUnsafe, KChan:
		if sp, ok := x.O.(*SymPtr); ok {
			x = in.concPtr(sp)
		}
		if sp, ok := y.O.(*SymPtr); ok {
			y = in.concPtr(sp)
		}
		return boolV(x.O == y.O && x.N == y.N)
	case KIface:
		a, _ := x.O.(*Iface)
		b, _ := y.O.(*Iface)
		if a == nil || b == nil {
			return boolV(a == nil && b == nil)
		}
		return in.eqIface(a, b)
	case KStruct:
		a, b := aggOf(x, ti), aggOf(y, ti)
		r := boolV(true)
		for i, f := range ti.fields {
			r = in.and(r, in.eq(f, pack(a, ti.offs[i], f), pack(b, ti.offs[i], f)))
		}
		return r
	case KArray:
		a, b := aggOf(x, ti), aggOf(y, ti)
		r := boolV(true)
		for i := 0; i < ti.n; i++ {
			r = in.and(r, in.eq(ti.elem, pack(a, i*ti.elem.leaves, ti.elem), pack(b, i*ti.elem.leaves, ti.elem)))
		}
		return r
	case KSlice, KMap, KFunc:
		// only comparable with nil
		return boolV((x.O == nil) == (y.O == nil) && (x.O == nil || x.O == y.O))
	case KOpaque:
		return boolV(x.O == y.O)
	}
	in.unsupported("comparison of %s", ti.t)
	return Value{}
}

func (in *Interp) eqIface(a, b *Iface) Value {
	if rt, ok := a.v.O.(types.Type); ok {
		rt2, ok2 := b.v.O.(types.Type)
		return boolV(ok2 && types.Identical(rt, rt2))
	}
	if !types.Identical(a.t, b.t) {
		return boolV(false)
	}
	ti := in.ti(a.t)
	switch ti.kind {
	case KSlice, KMap, KFunc:
		in.rtPanic("comparing uncomparable type " + types.TypeString(a.t, nil))
	}
	return in.eq(ti, a.v, b.v)
}

// ---- map keys

type structKey string
type ptrKey struct {
	o any
	n uint64
}
type ifaceKey struct {
	t string
	k any
}

// keyOf maps a concrete value to a Go comparable; ok is false if symbolic.
func (in *Interp) keyOf(ti *tinfo, v Value) (any, bool) {
	switch ti.kind {
	case KBool, KInt:
		if v.T != nil {
			return nil, false
		}
		return v.N, true
	case KFloat:
		if v.T != nil {
			return nil, false
		}
		return fval(ti.w, v.N), true
	case KString:
		s, ok := goStr(v)
		return s, ok
	case KPtr, KUnsafe, KChan:
		if sp, ok := v.O.(*SymPtr); ok {
			v = in.concPtr(sp)
		}
		return ptrKey{v.O, v.N}, true
	case KIface:
		i, _ := v.O.(*Iface)
		if i == nil {
			return nil, true
		}
		if rt, ok := i.v.O.(types.Type); ok {
			return ifaceKey{"rtype", types.TypeString(rt, nil)}, true
		}
		kt := in.ti(i.t)
		switch kt.kind {
		case KSlice, KMap, KFunc:
			in.rtPanic("hash of unhashable type " + types.TypeString(i.t, nil))
		}
		k, ok := in.keyOf(kt, i.v)
		return ifaceKey{types.TypeString(i.t, nil), k}, ok
	case KStruct:
		a := aggOf(v, ti)
		var sb strings.Builder
		for i, f := range ti.fields {
			k, ok := in.keyOf(f, pack(a, ti.offs[i], f))
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return structKey(sb.String()), true
	case KArray:
		a := aggOf(v, ti)
		var sb strings.Builder
		for i := 0; i < ti.n; i++ {
			k, ok := in.keyOf(ti.elem, pack(a, i*ti.elem.leaves, ti.elem))
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return structKey(sb.String()), true
	}
	in.unsupported("map key of type %s", ti.t)
	return nil, false
}

// find returns the entry index or -1; may fork on symbolic keys.
func (in *Interp) mapFind(m *Map, kt *tinfo, k Value) int {
	if m == nil {
		return -1
	}
	if in.par != nil {
		in.parMap(m, false)
	}
	key, ok := in.keyOf(kt, k)
	if ok {
		if i, ok := m.idx[key]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if !e.live {
			continue
		}
		c := in.eq(kt, e.k, k)
		if in.truth(c) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapSet(m *Map, kt *tinfo, k, v Value) {
	if m == nil {
		in.goPanicStr("assignment to entry in nil map")
	}
	if in.par != nil {
		in.parMap(m, true)
	}
	if m.init && !m.saved && !in.initPhase {
		in.saveMap(m)
	}
	if i := in.mapFind(m, kt, k); i >= 0 {
		m.ents[i].v = v
		return
	}
	key, ok := in.keyOf(kt, k)
	if ok {
		m.idx[key] = len(m.ents)
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, ment{k, v, true})
	m.live++
}

func (in *Interp) mapDelete(m *Map, kt *tinfo, k Value) {
	if m == nil {
		return
	}
	if in.par != nil {
		in.parMap(m, true)
	}
	if m.init && !m.saved && !in.initPhase {
		in.saveMap(m)
	}
	i := in.mapFind(m, kt, k)
	if i < 0 {
		return
	}
	key, ok := in.keyOf(kt, m.ents[i].k)
	if ok {
		delete(m.idx, key)
	} else {
		m.nsym--
	}
	m.ents[i] = ment{}
	m.live--
}
