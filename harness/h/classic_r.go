package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/vh"
)

// independent encoder of the classic format

type evar struct {
	name  string
	ty    int
	inner []int // shape without the record dimension
	rec   bool
	dims  []int // dimension ids
	attrs []wattr
	raw   []byte // data, unpadded: all records one after the other
}

type enc struct {
	version int
	numrecs int
	dims    []cdim
	gattrs  []wattr
	vars    []evar
	order   []int // order of the fixed-size data in the file, nil: as listed
	gap     int   // bytes between data
	absent  bool  // write lists of no elements as a tag instead of absent
	unpad   bool  // vsize of a lone small record variable unpadded

	b     []byte
	begin []int // offset of each variable's data
}

func (e *enc) u32(x uint32) { e.b = append(e.b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x)) }
func (e *enc) u64(x uint64) { e.u32(uint32(x >> 32)); e.u32(uint32(x)) }
func (e *enc) num(n int) {
	if e.version == 5 {
		e.u64(uint64(n))
	} else {
		e.u32(uint32(n))
	}
}
func (e *enc) bytes(b []byte) {
	e.b = append(e.b, b...)
	for len(e.b)%4 != 0 {
		e.b = append(e.b, 0)
	}
}
func (e *enc) name(s string) {
	e.num(len(s))
	e.bytes([]byte(s))
}
func (e *enc) list(tag uint32, n int) {
	if n == 0 && !e.absent {
		tag = 0
	}
	e.u32(tag)
	e.num(n)
}
func (e *enc) attrs(as []wattr) {
	e.list(0x0c, len(as))
	for _, a := range as {
		e.name(a.name)
		e.u32(uint32(a.ty))
		e.num(a.n)
		e.bytes(a.raw)
	}
}
func pad4(n int) int { return (n + 3) &^ 3 }

func (v *evar) slot() int { return prod(v.inner) * tSize[v.ty] }

// lone is the index of the only record variable if it is of a small type.
func (e *enc) lone() int {
	n, k := 0, -1
	for i := range e.vars {
		if e.vars[i].rec {
			n++
			k = i
		}
	}
	if n == 1 && tSize[e.vars[k].ty] < 4 {
		return k
	}
	return -1
}

func (e *enc) recsize() int {
	if k := e.lone(); k >= 0 {
		return e.vars[k].slot()
	}
	n := 0
	for i := range e.vars {
		if e.vars[i].rec {
			n += pad4(e.vars[i].slot())
		}
	}
	return n
}

func (e *enc) header() {
	e.b = append([]byte("CDF"), byte(e.version))
	e.num(e.numrecs)
	e.list(0x0a, len(e.dims))
	for _, d := range e.dims {
		e.name(d.name)
		e.num(int(d.n))
	}
	e.attrs(e.gattrs)
	e.list(0x0b, len(e.vars))
	for i := range e.vars {
		v := &e.vars[i]
		e.name(v.name)
		e.num(len(v.dims))
		for _, d := range v.dims {
			e.num(d)
		}
		e.attrs(v.attrs)
		e.u32(uint32(v.ty))
		if e.unpad && i == e.lone() {
			e.num(v.slot())
		} else {
			e.num(pad4(v.slot()))
		}
		if e.version == 1 {
			e.u32(uint32(e.begin[i]))
		} else {
			e.u64(uint64(e.begin[i]))
		}
	}
}

func (e *enc) encode() []byte {
	e.begin = make([]int, len(e.vars))
	e.header()
	at := len(e.b)
	order := e.order
	if order == nil {
		for i := range e.vars {
			order = append(order, i)
		}
	}
	for _, i := range order {
		if !e.vars[i].rec {
			at += e.gap
			e.begin[i] = at
			at += pad4(e.vars[i].slot())
		}
	}
	at += e.gap
	recs := at
	for i := range e.vars {
		if e.vars[i].rec {
			e.begin[i] = at
			at += pad4(e.vars[i].slot())
		}
	}
	size := recs + e.numrecs*e.recsize()
	e.header()
	hdr := len(e.b)
	b := make([]byte, size)
	copy(b, e.b)
	for k := hdr; k < size; k++ {
		b[k] = 0xAA // what is between the data is of no consequence
	}
	for i := range e.vars {
		v := &e.vars[i]
		if !v.rec {
			copy(b[e.begin[i]:], v.raw)
			continue
		}
		s := v.slot()
		for r := 0; r < e.numrecs; r++ {
			copy(b[e.begin[i]+r*e.recsize():], v.raw[r*s:(r+1)*s])
		}
	}
	e.b = b
	return b
}

func (e *enc) shape(v *evar) []int {
	if v.rec {
		return append([]int{e.numrecs}, v.inner...)
	}
	return v.inner
}

func (e *enc) expect(i int) any {
	v := &e.vars[i]
	return decode(v.ty, v.raw, e.shape(v), false)
}

// add adds a variable with arbitrary data over new dimensions.
func (e *enc) add(name string, ty int, inner []int, rec bool) {
	v := evar{name: name, ty: ty, inner: inner, rec: rec}
	n := prod(inner)
	if rec {
		v.dims = append(v.dims, e.dim("time", 0))
		n *= e.numrecs
	}
	for i, d := range inner {
		v.dims = append(v.dims, e.dim(name+string(rune('a'+i)), d))
	}
	v.raw = vh.Bytes(name, n*tSize[ty])
	e.vars = append(e.vars, v)
}

func (e *enc) dim(name string, n int) int {
	for i := range e.dims {
		if e.dims[i].name == name {
			return i
		}
	}
	e.dims = append(e.dims, cdim{name, uint64(n)})
	return len(e.dims) - 1
}

func openClassic(b []byte) api.Group {
	g, err := cdf.New(&memReader{b: b})
	must(err, "Open")
	return g
}

func (e *enc) check(g api.Group) {
	names := g.ListVariables()
	vh.Assert(len(names) == len(e.vars), "number of variables differs")
	for i := range e.vars {
		vh.Assert(names[i] == e.vars[i].name, "variable names differ")
	}
	ds := g.ListDimensions()
	vh.Assert(len(ds) == len(e.dims), "number of dimensions differs")
	for i := range e.dims {
		vh.Assert(ds[i] == e.dims[i].name, "dimension names differ")
		n, ok := g.GetDimension(ds[i])
		vh.Assert(ok && n == e.dims[i].n, "dimension length differs")
	}
	checkAttrs(g.Attributes(), e.gattrs)
	for i := range e.vars {
		v := &e.vars[i]
		got, err := g.GetVariable(v.name)
		must(err, "GetVariable")
		vh.Assert(vh.Eq(got.Values, e.expect(i)), "values differ from what the file encodes")
		vh.Assert(len(got.Dimensions) == len(v.dims), "rank differs")
		for j, d := range v.dims {
			vh.Assert(got.Dimensions[j] == e.dims[d].name, "dimension name differs")
		}
		checkAttrs(got.Attributes, v.attrs)
	}
	vh.Reach("checked")
}

var versions = []int{1, 2, 5}

func pickVersion() int { return versions[vh.Choose("version", 3)] }

func pickType(version int) int {
	if version == 5 {
		return 1 + vh.Choose("type", 11)
	}
	return 1 + vh.Choose("type", 6)
}

func H_C04_single() {
	e := &enc{version: pickVersion()}
	e.gap = 4 * vh.Choose("gap", 2)
	e.absent = vh.Choose("absent", 2) == 1
	e.add("x", pickType(e.version), shapes1[vh.Choose("shape", len(shapes1))], false)
	g := openClassic(e.encode())
	e.check(g)
}

func h04order(shapes [][]int) {
	e := &enc{version: pickVersion()}
	e.gap = 4 * vh.Choose("gap", 2)
	n := len(shapes)
	e.add("a", pickType(e.version), shapes[vh.Choose("shape", n)], false)
	e.add("b", pickType(e.version), shapes[vh.Choose("shape", n)], false)
	e.add("c", tShort, []int{3}, false)
	e.order = [][]int{{2, 1, 0}, {1, 0, 2}, {0, 2, 1}}[vh.Choose("order", 3)]
	g := openClassic(e.encode())
	e.check(g)
}

func H_C04_order()  { h04order([][]int{{}, {3}, {2, 3}}) }
func HT_C04_order() { h04order([][]int{{}, {1}, {5}, {2, 3}, {1, 2, 3}}) }

func h04attrs(maxLen int) {
	e := &enc{version: pickVersion()}
	at := func(name string) wattr {
		return mkattr(name, pickType(e.version), 1+vh.Choose("len", maxLen))
	}
	e.gattrs = []wattr{at("title")}
	e.add("a", tInt, nil, false)
	e.add("b", tByte, []int{2}, false)
	switch vh.Choose("where", 4) {
	case 0:
		e.gattrs = append(e.gattrs, at("abcde"))
	case 1:
		e.vars[0].attrs = []wattr{at("u")}
	case 2:
		e.vars[1].attrs = []wattr{at("un")}
	case 3:
		e.vars[0].attrs = []wattr{mkattr("zero", pickType(e.version), 0)}
	}
	g := openClassic(e.encode())
	e.check(g)
}

func H_C04_attrs()  { h04attrs(4) }
func HT_C04_attrs() { h04attrs(9) }

// H_C04_names has arbitrary names.
func H_C04_names() {
	e := &enc{version: pickVersion()}
	nm := func(what string) string {
		s := vh.Str(what, 1+vh.Choose("len", 3))
		for i := 0; i < len(s); i++ {
			vh.Assume(s[i] != 0)
		}
		return s
	}
	v, d, a := nm("var"), nm("dim"), nm("att")
	e.dims = []cdim{{d, 3}}
	e.vars = []evar{{name: v, ty: tShort, inner: []int{3}, dims: []int{0}, raw: vh.Bytes("data", 6),
		attrs: []wattr{renamed(mkattr("att", tInt, -1), a)}}}
	e.gattrs = []wattr{renamed(mkattr("gatt", tChar, 2), a)}
	g := openClassic(e.encode())
	e.check(g)
}

func renamed(a wattr, name string) wattr {
	a.name = name
	return a
}

// H_C04_shared has several variables over the same dimensions, in any order.
func H_C04_shared() {
	e := &enc{version: pickVersion()}
	x, y, z := e.dim("x", 2), e.dim("y", 3), e.dim("z", 1)
	_ = z
	ty := pickType(e.version)
	mk := func(name string, ty int, ids ...int) {
		var inner []int
		for _, d := range ids {
			inner = append(inner, int(e.dims[d].n))
		}
		e.vars = append(e.vars, evar{name: name, ty: ty, inner: inner, dims: ids,
			raw: vh.Bytes(name, prod(inner)*tSize[ty])})
	}
	mk("p", ty, x, y)
	mk("q", tShort, y, x)
	mk("r", ty, y)
	mk("s", tByte, x, x)
	mk("t", ty, z, y, x)
	g := openClassic(e.encode())
	e.check(g)
}

// H_C04_badnames: names of variables that are not in the file are not found.
func H_C04_absent() {
	e := &enc{version: pickVersion()}
	e.add("xy", tInt, []int{2}, false)
	e.add("xz", tByte, []int{2}, false)
	g := openClassic(e.encode())
	s := vh.Str("name", vh.Choose("len", 4))
	v, err := g.GetVariable(s)
	switch s {
	case "xy":
		must(err, "GetVariable")
		vh.Assert(vh.Eq(v.Values, e.expect(0)), "wrong variable")
	case "xz":
		must(err, "GetVariable")
		vh.Assert(vh.Eq(v.Values, e.expect(1)), "wrong variable")
	default:
		vh.Assert(err == cdf.ErrNotFound, "absent variable found")
	}
	_, err = g.GetVarGetter(s)
	vh.Assert((err == nil) == (s == "xy" || s == "xz"), "GetVarGetter disagrees")
	vh.Reach("checked")
}

// record variables

func recEnc() *enc {
	e := &enc{version: pickVersion(), numrecs: vh.Choose("recs", 4)}
	return e
}

func (e *enc) checkRanges(g api.Group) {
	for i := range e.vars {
		v := &e.vars[i]
		if !v.rec {
			continue
		}
		vg, err := g.GetVarGetter(v.name)
		must(err, "GetVarGetter")
		vh.Assert(vg.Len() == int64(e.numrecs), "Len is not the number of records")
		for b := 0; b <= e.numrecs; b++ {
			for n := b; n <= e.numrecs; n++ {
				got, err := vg.GetSlice(int64(b), int64(n))
				must(err, "GetSlice")
				sh := append([]int{n - b}, v.inner...)
				vh.Assert(vh.Eq(got, decode(v.ty, v.raw[b*v.slot():n*v.slot()], sh, false)),
					"range of records differs from what the file encodes")
			}
		}
	}
}

var inners = [][]int{{}, {3}, {2, 1}}

func H_C05_one() {
	e := recEnc()
	e.unpad = vh.Choose("unpad", 2) == 1
	e.gap = 4 * vh.Choose("gap", 2)
	e.add("r", pickType(e.version), inners[vh.Choose("inner", 3)], true)
	g := openClassic(e.encode())
	e.check(g)
	e.checkRanges(g)
}

func h05two(shapes [][]int) {
	e := recEnc()
	vh.Assume(e.numrecs != 1)
	fixed := vh.Choose("fixed", 2)
	e.add("p", pickType(e.version), shapes[vh.Choose("inner", len(shapes))], true)
	if fixed == 1 {
		e.add("f", tShort, []int{3}, false)
	}
	e.add("q", pickType(e.version), shapes[vh.Choose("inner", len(shapes))], true)
	g := openClassic(e.encode())
	e.check(g)
	e.checkRanges(g)
}

func H_C05_two()  { h05two([][]int{{}, {3}}) }
func HT_C05_two() { h05two([][]int{{}, {1}, {3}, {2, 3}}) }

func H_C05_three() {
	e := recEnc()
	ts := []int{tByte, tChar, tShort, tFloat, tDouble}
	in := func() []int { return inners[vh.Choose("inner", 3)] }
	e.add("f0", tByte, []int{5}, false)
	e.add("p", ts[vh.Choose("type", 5)], in(), true)
	e.add("q", ts[vh.Choose("type", 5)], []int{3}, true)
	e.add("f", tChar, []int{2}, false)
	e.add("r", ts[vh.Choose("type", 5)], nil, true)
	g := openClassic(e.encode())
	e.check(g)
	e.checkRanges(g)
}
