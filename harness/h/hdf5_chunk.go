package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/vh"
)

// checkSet compares a variable that is read with the dataset that was encoded.
func checkSet(g api.Group, name string, d *hset) {
	v, err := g.GetVariable(name)
	must(err, "GetVariable")
	vh.Assert(vh.Eq(v.Values, decode(d.ty, d.expected(), d.shape, !d.be)), "value read differs from the encoded one")
}

func pickMissing(n int, always bool) []bool {
	if !always && vh.Choose("all", 2) == 0 {
		return nil
	}
	m := vh.Choose("missing", 1<<n)
	r := make([]bool, n)
	for i := range r {
		r[i] = m>>i&1 == 1
	}
	return r
}

type chunking struct{ shape, chunk []int }

func (c chunking) set(name string, ty int) *hset {
	return &hset{ty: ty, shape: c.shape, chunk: c.chunk, raw: rawFor(name, ty, c.shape)}
}

var chunkings = []chunking{
	{[]int{1}, []int{1}},
	{[]int{3}, []int{1}},
	{[]int{4}, []int{2}},
	{[]int{5}, []int{2}},
	{[]int{2}, []int{3}},
	{[]int{2, 2}, []int{1, 2}},
	{[]int{2, 3}, []int{2, 2}},
	{[]int{3, 2}, []int{2, 1}},
	{[]int{3, 3}, []int{2, 2}},
	{[]int{2, 2}, []int{3, 1}},
	{[]int{2, 2, 2}, []int{1, 2, 1}},
	{[]int{2, 3, 2}, []int{2, 2, 1}},
	{[]int{3, 2, 3}, []int{2, 1, 2}},
}

var chunkings2 = []chunking{
	{[]int{7}, []int{3}},
	{[]int{9}, []int{4}},
	{[]int{5, 4}, []int{2, 3}},
	{[]int{4, 5}, []int{3, 2}},
	{[]int{3, 3, 3}, []int{2, 2, 2}},
	{[]int{2, 2, 2, 2}, []int{1, 2, 1, 2}},
	{[]int{3, 2, 2, 3}, []int{2, 1, 2, 2}},
	{[]int{2, 1, 3, 1, 2}, []int{1, 1, 2, 1, 2}},
}

// few element types for harnesses that vary much else
var fewTypes = []int{tByte, tUShort, tFloat, tInt64}

func h16shape(cs []chunking) {
	c := cs[vh.Choose("shape", len(cs))]
	d := c.set("x", fewTypes[vh.Choose("type", len(fewTypes))])
	d.fill = rawFor("fill", d.ty, nil)
	n := prod(d.grid())
	if n <= 4 {
		d.missing = pickMissing(n, true)
	} else if k := vh.Choose("missing", n+1); k < n {
		d.missing = make([]bool, n)
		d.missing[k] = true
	}
	checkSet(openHBytes(newHfile(false).root([]string{"x"}, []*hset{d})), "x", d)
	vh.Reach("checked")
}

func H_C16_shape()  { h16shape(chunkings) }
func HT_C16_shape() { h16shape(chunkings2) }

// H_C16_types has all types, big and little endian, and both kinds of object headers.
func H_C16_types() {
	d := (&chunking{[]int{3, 3}, []int{2, 2}}).set("x", pickNum())
	d.be = vh.Choose("be", 2) == 1
	d.fill = rawFor("fill", d.ty, nil)
	d.missing = []bool{false, vh.Choose("missing", 2) == 1, false, false}
	f := newHfile(vh.Choose("v1", 2) == 1)
	checkSet(openHBytes(f.root([]string{"x"}, []*hset{d})), "x", d)
	vh.Reach("checked")
}

// H_C16_order stores the chunks in any order.
func H_C16_order() {
	cs := []chunking{{[]int{4}, []int{1}}, {[]int{3, 3}, []int{2, 2}}, {[]int{2, 3}, []int{1, 3}}}
	c := cs[vh.Choose("shape", len(cs))]
	d := c.set("x", tShort)
	d.order = permuted(prod(d.grid()))
	checkSet(openHBytes(newHfile(false).root([]string{"x"}, []*hset{d})), "x", d)
	vh.Reach("checked")
}

// H_C16_tree has B-trees of several levels.
func H_C16_tree() {
	cs := []chunking{{[]int{5}, []int{1}}, {[]int{9}, []int{2}}, {[]int{3, 3}, []int{1, 2}}, {[]int{2, 2, 2}, []int{1, 1, 1}}}
	c := cs[vh.Choose("shape", tierInt(3, 4))]
	d := c.set("x", []int{tByte, tInt}[vh.Choose("type", 2)])
	d.leaf = 2 + vh.Choose("leaf", 2)
	if n := prod(d.grid()); vh.Choose("missing", 2) == 1 {
		d.missing = make([]bool, n)
		d.missing[vh.Choose("which", n)] = true
		d.fill = rawFor("fill", d.ty, nil)
	}
	checkSet(openHBytes(newHfile(vh.Choose("v1", 2) == 1).root([]string{"x"}, []*hset{d})), "x", d)
	vh.Reach("checked")
}

// H_C16_fill has the fill values of every version of the messages, or none,
// for data that is contiguous or chunked, and partly or wholly absent.
func H_C16_fill() {
	d := &hset{ty: fewTypes[vh.Choose("type", len(fewTypes))], shape: []int{3}}
	d.be = vh.Choose("be", 2) == 1
	d.raw = rawFor("x", d.ty, d.shape)
	d.fillV = 1 + vh.Choose("version", 4)
	if vh.Choose("fill", 2) == 1 {
		d.fill = rawFor("fill", d.ty, nil)
	}
	d.ds1 = vh.Choose("ds1", 2) == 1
	switch vh.Choose("kind", 4) {
	case 0:
		d.absent = true
	case 1:
		d.chunk, d.absent = []int{2}, true
	case 2:
		d.chunk, d.missing = []int{2}, []bool{true, false}
	case 3:
		d.chunk, d.missing = []int{2}, []bool{false, true}
	}
	f := newHfile(vh.Choose("v1", 2) == 1)
	checkSet(openHBytes(f.root([]string{"x"}, []*hset{d})), "x", d)
	vh.Reach("checked")
}

// H_C16_several has several datasets, of which some have dimensions of length zero.
func H_C16_several() {
	a := (&chunking{[]int{3, 2}, []int{2, 2}}).set("a", tInt)
	b := (&chunking{[]int{2, 3}, []int{2, 2}}).set("b", tDouble)
	c := &hset{ty: tShort, shape: []int{3}, raw: rawFor("c", tShort, []int{3}), compact: true}
	e := &hset{ty: tShort, shape: []int{0}, chunk: []int{2}}
	z := &hset{ty: tByte, shape: nil, raw: rawFor("z", tByte, nil)}
	all := []*hset{a, b, c, e, z}
	g := openHBytes(newHfile(vh.Choose("v1", 2) == 1).root([]string{"a", "b", "c", "e", "z"}, all))
	for n := 0; n < 2; n++ {
		for _, i := range []int{3, 1, 0, 2, 4} {
			checkSet(g, []string{"a", "b", "c", "e", "z"}[i], all[i])
		}
	}
	vh.Reach("checked")
}

// ---- C15: slices

var sliceChunkings = []chunking{
	{nil, nil},
	{[]int{3}, nil},
	{[]int{2, 3}, nil},
	{[]int{2, 2, 2}, nil},
	{[]int{4}, []int{2}},
	{[]int{5}, []int{2}},
	{[]int{3}, []int{4}},
	{[]int{3, 2}, []int{2, 1}},
	{[]int{3, 3}, []int{2, 2}},
	{[]int{2, 3}, []int{1, 2}},
	{[]int{3, 2, 2}, []int{2, 1, 2}},
}

var sliceChunkings2 = []chunking{
	{[]int{6}, nil},
	{[]int{3, 2, 2}, nil},
	{[]int{2, 2, 1, 2}, nil},
	{[]int{7}, []int{2}},
	{[]int{7}, []int{3}},
	{[]int{5, 3}, []int{2, 2}},
	{[]int{4, 2, 3}, []int{3, 2, 2}},
	{[]int{2, 2, 2, 2}, []int{2, 1, 2, 1}},
}

// sliceSet makes a dataset to be sliced.
func sliceSet(cs []chunking, types []int) *hset {
	c := cs[vh.Choose("shape", len(cs))]
	d := c.set("x", types[vh.Choose("type", len(types))])
	switch vh.Choose("kind", 3) {
	case 1: // another layout, or a missing chunk
		if c.chunk == nil {
			d.compact = true
		} else {
			d.fill = rawFor("fill", d.ty, nil)
			n := prod(d.grid())
			d.missing = make([]bool, n)
			d.missing[vh.Choose("missing", n)] = true
		}
	case 2: // absent, or filtered
		if c.chunk == nil {
			d.absent = true
			d.fill = rawFor("fill", d.ty, nil)
		} else {
			d.filters = []hfilter{shuffled(tSize[d.ty])}
		}
	}
	return d
}

func sliceGetter(d *hset) (api.Group, api.VarGetter) {
	other := &hset{ty: tShort, shape: []int{2}, raw: []byte{1, 2, 3, 4}}
	g := openHBytes(newHfile(false).root([]string{"other", "x"}, []*hset{other, d}))
	vg, err := g.GetVarGetter("x")
	must(err, "GetVarGetter")
	return g, vg
}

func h15slice(cs []chunking) {
	d := sliceSet(cs, []int{tByte, tUShort, tDouble})
	g, vg := sliceGetter(d)
	checkSlice1(vg, d.ty, d.expected(), d.shape, true)
	x, err := vg.Values()
	must(err, "Values after GetSlice")
	vh.Assert(vh.Eq(x, decode(d.ty, d.expected(), d.shape, true)), "a slice changed what Values returns")
	checkSet(g, "x", d)
}

func H_C15_slice()  { h15slice(sliceChunkings) }
func HT_C15_slice() { h15slice(sliceChunkings2) }

// H_C15_twice takes one slice after another.
func H_C15_twice() {
	cs := []chunking{{[]int{3}, nil}, {[]int{2, 2}, nil}, {[]int{5}, []int{2}}, {[]int{3, 2}, []int{2, 1}}}
	d := sliceSet(cs, []int{tShort})
	_, vg := sliceGetter(d)
	checkSlice1(vg, d.ty, d.expected(), d.shape, true)
	checkSlice1(vg, d.ty, d.expected(), d.shape, true)
}

func h15md(cs []chunking) {
	d := sliceSet(cs, []int{tShort})
	_, vg := sliceGetter(d)
	checkSliceMD(vg, d.ty, d.expected(), d.shape, true, len(d.shape))
	x, err := vg.Values()
	must(err, "Values after GetSliceMD")
	vh.Assert(vh.Eq(x, decode(d.ty, d.expected(), d.shape, true)), "a slice changed what Values returns")
}

func H_C15_md() {
	h15md([]chunking{{nil, nil}, {[]int{3}, nil}, {[]int{2, 3}, nil}, {[]int{5}, []int{2}}, {[]int{3, 2}, []int{2, 2}}})
}

func HT_C15_md() {
	h15md([]chunking{{[]int{2, 2, 2}, nil}, {[]int{3, 2, 2}, []int{2, 1, 2}}, {[]int{3, 3}, []int{2, 2}}})
}

// H_C15_md3 slices three dimensions.
func H_C15_md3() {
	c := []chunking{{[]int{2, 1, 2}, nil}, {[]int{2, 2, 1}, []int{1, 2, 1}}}[vh.Choose("shape", 2)]
	d := c.set("x", tUInt)
	_, vg := sliceGetter(d)
	checkSliceMD(vg, d.ty, d.expected(), d.shape, true, 3)
}

// H_C15_rank uses bounds of the wrong rank.
func H_C15_rank() {
	cs := []chunking{{nil, nil}, {[]int{3}, nil}, {[]int{2, 3}, nil}, {[]int{2, 2}, []int{1, 2}}}
	c := cs[vh.Choose("shape", len(cs))]
	d := c.set("x", tShort)
	_, vg := sliceGetter(d)
	rank := vh.Choose("rank", 4)
	vh.Assume(rank != len(d.shape))
	checkSliceMD(vg, d.ty, d.raw, d.shape, true, rank)
	b := make([]int64, rank)
	_, err := vg.GetSliceMD(b, make([]int64, len(d.shape)))
	vh.Assert(err != nil, "bounds of different ranks are not an error")
	_, err = vg.GetSliceMD(make([]int64, len(d.shape)), b)
	vh.Assert(err != nil, "bounds of different ranks are not an error")
	vh.Reach("checked")
}

// H_C15_written slices what the writer wrote.
func H_C15_written() {
	shape := [][]int{{}, {3}, {2, 2}, {2, 1, 2}}[vh.Choose("shape", 4)]
	ty := pickNum()
	raw := rawFor("x", ty, shape)
	val := decode(ty, raw, shape, true)
	v := wvar{name: "x", val: val, exp: val, dims: dimNames("d", len(shape))}
	g := openHdf5(writeHdf5(hvars([]wvar{mkvar("a", tShort, []int{3}, []string{"three"}), v})))
	vg, err := g.GetVarGetter("x")
	must(err, "GetVarGetter")
	if vh.Choose("md", 2) == 0 || len(shape) == 3 {
		checkSlice1(vg, ty, raw, shape, true)
	} else {
		checkSliceMD(vg, ty, raw, shape, true, len(shape))
	}
	g.Close()
}

// H_C15_strings slices lists of strings.
func H_C15_strings() {
	val := [][]string{{text("s", 1), text("s", 2)}, {"", text("s", 1)}, {text("s", 3), "x"}}
	g := openHdf5(writeHdf5(hvars([]wvar{tvar("s", val, "d", "e")})))
	vg, err := g.GetVarGetter("s")
	must(err, "GetVarGetter")
	vh.Assert(vg.Len() == 3, "Len is wrong")
	if vh.Choose("md", 2) == 0 {
		b, e := vh.I64("b"), vh.I64("e")
		got, err := vg.GetSlice(b, e)
		if !(b >= 0 && b <= e && e <= 3) {
			vh.Assert(err != nil, "slice with invalid bounds is not an error")
			return
		}
		must(err, "GetSlice")
		vh.Assert(vh.Eq(got, val[vh.Concrete(int(b)):vh.Concrete(int(e))]), "slice differs from the same range of the whole")
	} else {
		b, e := []int64{vh.I64("b"), vh.I64("b")}, []int64{vh.I64("e"), vh.I64("e")}
		got, err := vg.GetSliceMD(b, e)
		if !(b[0] >= 0 && b[0] <= e[0] && e[0] <= 3 && b[1] >= 0 && b[1] <= e[1] && e[1] <= 2) {
			vh.Assert(err != nil, "slice with invalid bounds is not an error")
			return
		}
		must(err, "GetSliceMD")
		exp := [][]string{}
		for i := vh.Concrete(int(b[0])); i < vh.Concrete(int(e[0])); i++ {
			exp = append(exp, val[i][vh.Concrete(int(b[1])):vh.Concrete(int(e[1]))])
		}
		vh.Assert(vh.Eq(got, exp), "slice differs from the same part of the whole")
	}
	vh.Reach("valid")
	g.Close()
}
