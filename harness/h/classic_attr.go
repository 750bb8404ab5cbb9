package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/vh"
)

// wattr is an attribute to be written and what must be read back.
type wattr struct {
	name string
	ty   int
	n    int // number of elements
	val  any
	exp  any
	raw  []byte // big-endian
}

// mkattr makes an attribute of n elements; n<0 is a scalar.
func mkattr(name string, ty, n int) wattr {
	if ty == tChar {
		if n < 0 {
			n = 1
		}
		raw := vh.Bytes(name, n)
		return wattr{name, ty, n, string(raw), string(raw), raw}
	}
	if n < 0 {
		raw := rawFor(name, ty, nil)
		v := decode(ty, raw, nil, false)
		return wattr{name, ty, 1, v, v, raw}
	}
	raw := rawFor(name, ty, []int{n})
	v := decode(ty, raw, []int{n}, false)
	e := v
	if n == 1 {
		e = decode(ty, raw, nil, false)
	}
	return wattr{name, ty, n, v, e, raw}
}

func attrMap(as []wattr) api.AttributeMap {
	if len(as) == 0 {
		return nil
	}
	var keys []string
	m := map[string]interface{}{}
	for _, a := range as {
		keys = append(keys, a.name)
		m[a.name] = a.val
	}
	return amap(keys, m)
}

func checkAttrs(m api.AttributeMap, as []wattr) {
	keys := m.Keys()
	vh.Assert(len(keys) == len(as), "number of attributes differs")
	for i := range as {
		vh.Assert(keys[i] == as[i].name, "attribute order differs")
		got, ok := m.Get(as[i].name)
		vh.Assert(ok, "attribute missing")
		vh.Assert(vh.Eq(got, as[i].exp), "attribute value differs")
	}
}

// where the attributes go
type aplace struct {
	global []wattr
	first  []wattr
	second []wattr
}

func (p aplace) vars() []wvar {
	v1 := mkvar("one", tShort, []int{3}, []string{"d"})
	v2 := mkvar("two", tDouble, nil, nil)
	v1.attrs, v2.attrs = attrMap(p.first), attrMap(p.second)
	return []wvar{v1, v2}
}

func (p aplace) checkRead(fn string, vars []wvar) {
	g, err := cdf.Open(fn)
	must(err, "Open")
	checkAttrs(g.Attributes(), p.global)
	for i, as := range [][]wattr{p.first, p.second} {
		v, err := g.GetVariable(vars[i].name)
		must(err, "GetVariable")
		checkAttrs(v.Attributes, as)
		vh.Assert(vh.Eq(v.Values, vars[i].exp), "values differ")
	}
	g.Close()
	vh.Reach("checked")
}

var attrLens = []int{-1, 0, 1, 2, 3, 4, 5}

func placeOne() aplace {
	ty := 1 + vh.Choose("type", 11)
	n := attrLens[vh.Choose("len", len(attrLens))]
	name := []string{"a", "ab", "abc", "abcd", "abcde"}[vh.Choose("namelen", 5)]
	as := []wattr{mkattr(name, ty, n)}
	switch vh.Choose("where", 3) {
	case 0:
		return aplace{global: as}
	case 1:
		return aplace{first: as}
	}
	return aplace{second: as}
}

func placeTwo() aplace {
	lens := []int{-1, 3}
	a := mkattr("zz", 1+vh.Choose("type", 11), lens[vh.Choose("len", 2)])
	b := mkattr("aaa", 1+vh.Choose("type", 11), lens[vh.Choose("len", 2)])
	switch vh.Choose("where", 4) {
	case 0:
		return aplace{global: []wattr{a, b}}
	case 1:
		return aplace{first: []wattr{a, b}}
	case 2:
		return aplace{second: []wattr{b, a}}
	}
	return aplace{first: []wattr{a}, second: []wattr{b}}
}

func placeOrder(n int) aplace {
	names := []string{"m", "b", "z", "a", "Q", "_x"[1:], "k9"}[:n]
	var as []wattr
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		k := vh.Choose("perm", n)
		vh.Assume(!used[k])
		used[k] = true
		as = append(as, mkattr(names[k], 1+(k*3)%11, attrLens[k]))
	}
	return aplace{global: as, first: as[1:], second: as[:n-1]}
}

func runPlace(p aplace) {
	v := p.vars()
	p.checkRead(writeClassic(v, attrMap(p.global)), v)
}

func H_C02_one()    { runPlace(placeOne()) }
func H_C02_two()    { runPlace(placeTwo()) }
func H_C02_order()  { runPlace(placeOrder(4)) }
func HT_C02_order() { runPlace(placeOrder(6)) }

// H_C02_novars has global attributes only.
func H_C02_novars() {
	a := mkattr("g1", 1+vh.Choose("type", 11), attrLens[vh.Choose("len", len(attrLens))])
	b := mkattr("g2", 1+vh.Choose("type", 11), -1)
	as := []wattr{a, b}
	fn := writeClassic(nil, attrMap(as))
	g, err := cdf.Open(fn)
	must(err, "Open")
	checkAttrs(g.Attributes(), as)
	vh.Assert(len(g.ListVariables()) == 0, "unexpected variables")
	g.Close()
	vh.Reach("checked")
}

// H_C02_long has long names and values.
func H_C02_long() {
	name, n := "", 60+vh.Choose("namelen", 4)
	for i := 0; i < n; i++ {
		name += "n"
	}
	a := mkattr(name, 1+vh.Choose("type", 11), 33+vh.Choose("len", 4))
	runPlace(aplace{global: []wattr{a}, first: []wattr{a}, second: []wattr{mkattr("t", tUByte, 2)}})
}

// independent reading of the classic format

type cattr struct {
	name string
	ty   int
	n    int
	raw  []byte
}
type cdim struct {
	name string
	n    uint64
}
type cvarT struct {
	name  string
	dims  []int
	attrs []cattr
	ty    int
	vsize uint64
	begin uint64
}
type cfile struct {
	version int
	numrecs uint64
	dims    []cdim
	gattrs  []cattr
	vars    []cvarT
	hdrEnd  int
}

type cparser struct {
	b   []byte
	pos int
	v   int
}

func (p *cparser) take(n int) []byte {
	vh.Assert(n >= 0 && p.pos+n <= len(p.b), "header runs past the end of the file")
	r := p.b[p.pos : p.pos+n]
	p.pos += n
	return r
}
func (p *cparser) u32() uint32 { return b32(p.take(4), false) }
func (p *cparser) num() int {
	var x uint64
	if p.v == 5 {
		x = b64(p.take(8), false)
	} else {
		x = uint64(p.u32())
	}
	vh.Assert(x < 1<<20, "absurd count in header")
	return int(x)
}
func (p *cparser) zeros() {
	for p.pos%4 != 0 {
		vh.Assert(p.take(1)[0] == 0, "padding is not zero")
	}
}
func (p *cparser) name() string {
	n := p.num()
	s := string(p.take(n))
	p.zeros()
	return s
}
func (p *cparser) list(tag uint32) int {
	t := p.u32()
	n := p.num()
	vh.Assert(vh.Or(t == tag, vh.And(t == 0, n == 0)), "wrong list tag")
	return n
}
func (p *cparser) attrs() []cattr {
	n := p.list(0x0c)
	var r []cattr
	for i := 0; i < n; i++ {
		var a cattr
		a.name = p.name()
		a.ty = int(p.u32())
		vh.Assert(a.ty >= 1 && a.ty <= 11, "bad attribute type")
		vh.Assert(a.ty <= 6 || p.v == 5, "version 5 type in an older file")
		a.n = p.num()
		a.raw = p.take(a.n * tSize[a.ty])
		p.zeros()
		r = append(r, a)
	}
	return r
}

func parseClassic(b []byte) *cfile {
	p := &cparser{b: b, v: 1}
	vh.Assert(string(p.take(3)) == "CDF", "bad magic")
	v := int(p.take(1)[0])
	vh.Assert(v == 1 || v == 2 || v == 5, "bad version")
	p.v = v
	f := &cfile{version: v}
	f.numrecs = uint64(p.num())
	n := p.list(0x0a)
	for i := 0; i < n; i++ {
		nm := p.name()
		f.dims = append(f.dims, cdim{nm, uint64(p.num())})
	}
	f.gattrs = p.attrs()
	n = p.list(0x0b)
	for i := 0; i < n; i++ {
		var x cvarT
		x.name = p.name()
		nd := p.num()
		for j := 0; j < nd; j++ {
			d := p.num()
			vh.Assert(d < len(f.dims), "dimension id out of range")
			x.dims = append(x.dims, d)
		}
		x.attrs = p.attrs()
		x.ty = int(p.u32())
		vh.Assert(x.ty >= 1 && x.ty <= 11, "bad variable type")
		vh.Assert(x.ty <= 6 || v == 5, "version 5 type in an older file")
		x.vsize = uint64(p.num())
		if v == 1 {
			x.begin = uint64(p.u32())
		} else {
			x.begin = b64(p.take(8), false)
		}
		f.vars = append(f.vars, x)
	}
	f.hdrEnd = p.pos
	return f
}

func checkCAttrs(got []cattr, as []wattr) {
	vh.Assert(len(got) == len(as), "number of attributes in the file differs")
	for i, a := range as {
		vh.Assert(got[i].name == a.name, "attribute name in the file differs")
		vh.Assert(got[i].ty == a.ty, "attribute type in the file differs")
		vh.Assert(got[i].n == a.n, "attribute length in the file differs")
		vh.Assert(eqBytes(got[i].raw, a.raw), "attribute data in the file differs")
	}
}

// checkConforms compares the bytes of the file with what was written.
func checkConforms(fn string, vars []wvar, global []wattr, vattrs [][]wattr) {
	b := readFile(fn)
	f := parseClassic(b)
	v5 := false
	for _, v := range vars {
		v5 = v5 || isV5(v.ty)
	}
	for _, as := range append([][]wattr{global}, vattrs...) {
		for _, a := range as {
			v5 = v5 || isV5(a.ty)
		}
	}
	vh.Assert(v5 == (f.version == 5), "version does not match the types used")
	vh.Assert(f.numrecs == 0, "number of records is not zero")
	for i, d := range f.dims {
		for _, e := range f.dims[:i] {
			vh.Assert(d.name != e.name, "dimension listed twice")
		}
	}
	checkCAttrs(f.gattrs, global)
	vh.Assert(len(f.vars) == len(vars), "number of variables in the file differs")
	type span struct{ a, b uint64 }
	spans := []span{{0, uint64(f.hdrEnd)}}
	for i, w := range vars {
		x := f.vars[i]
		vh.Assert(x.name == w.name, "variable name in the file differs")
		vh.Assert(x.ty == w.ty, "variable type in the file differs")
		vh.Assert(len(x.dims) == len(w.shape), "rank in the file differs")
		if vattrs != nil {
			checkCAttrs(x.attrs, vattrs[i])
		}
		rec := false
		n := uint64(tSize[w.ty])
		for j, d := range x.dims {
			vh.Assert(f.dims[d].n == uint64(w.shape[j]), "dimension length in the file differs")
			if len(w.dims) == len(w.shape) {
				vh.Assert(f.dims[d].name == w.dims[j], "dimension name in the file differs")
			}
			if f.dims[d].n == 0 {
				vh.Assert(j == 0, "unlimited dimension is not first")
				rec = true
			} else {
				n *= f.dims[d].n
			}
		}
		padded := (n + 3) &^ 3
		vh.Assert(x.vsize == padded, "vsize is wrong")
		vh.Assert(x.begin%4 == 0, "data is not aligned")
		if rec {
			continue
		}
		vh.Assert(x.begin <= uint64(len(b)) && x.begin+padded <= uint64(len(b)), "data is outside the file")
		vh.Assert(eqBytes(b[x.begin:x.begin+n], w.raw), "data bytes in the file differ")
		for k := x.begin + n; k < x.begin+padded; k++ {
			vh.Assert(b[k] == 0, "data padding is not zero")
		}
		for _, s := range spans {
			vh.Assert(x.begin >= s.b || x.begin+padded <= s.a, "data overlaps other data or the header")
		}
		spans = append(spans, span{x.begin, x.begin + padded})
	}
	// record variables come after all others
	end := uint64(0)
	for _, s := range spans {
		if s.b > end {
			end = s.b
		}
	}
	var prev uint64
	for i, w := range vars {
		if len(w.shape) > 0 && w.shape[0] == 0 {
			vh.Assert(f.vars[i].begin >= end && f.vars[i].begin >= prev, "record variable before the record section")
			prev = f.vars[i].begin + f.vars[i].vsize
		}
	}
	vh.Reach("conforms")
}

func conform(v []wvar) { checkConforms(writeClassic(v, nil), v, nil, nil) }

func H_C03_single()  { conform(classicSingle()) }
func H_C03_pair()    { conform(classicPair(pairShapes)) }
func HT_C03_pair()   { conform(classicPair(pairShapesT)) }
func H_C03_shared()  { conform(classicShared()) }
func H_C03_strings() { conform(classicStrings()) }
func H_C03_empty()   { conform(classicEmpty()) }
func H_C03_many()    { conform(classicMany(9)) }
func HT_C03_many()   { conform(classicMany(40)) }

func conformPlace(p aplace) {
	v := p.vars()
	checkConforms(writeClassic(v, attrMap(p.global)), v, p.global, [][]wattr{p.first, p.second})
}

func H_C03_attr1()     { conformPlace(placeOne()) }
func H_C03_attr2()     { conformPlace(placeTwo()) }
func H_C03_attrorder() { conformPlace(placeOrder(4)) }

// H_C03_none is the file with nothing in it, or attributes only.
func H_C03_none() {
	var as []wattr
	if vh.Choose("attrs", 2) == 1 {
		as = []wattr{mkattr("g", 1+vh.Choose("type", 11), attrLens[vh.Choose("len", len(attrLens))])}
	}
	checkConforms(writeClassic(nil, attrMap(as)), nil, as, nil)
}
