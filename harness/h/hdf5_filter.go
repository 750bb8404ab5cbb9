package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/vh"
)

// ---- C17: Fletcher-32

func getterOf(g api.Group, name string) api.VarGetter {
	vg, err := g.GetVarGetter(name)
	must(err, "GetVarGetter")
	return vg
}

// H_C17_accept: one chunk of data with an arbitrary stored checksum is read exactly
// if it's the checksum of the data, in whole or in part.
func H_C17_accept() {
	n := 1 + vh.Choose("n", tierInt(8, 24))
	h17(n, rawFor("x", tUByte, []int{n}))
}

// HT_C17_long has more data than the HDF5 library sums at once, of which a few bytes are arbitrary.
func HT_C17_long() {
	n := []int{719, 720, 721, 722, 1442}[vh.Choose("n", 5)]
	raw := make([]byte, n)
	for i := range raw {
		raw[i] = byte(i*i*7 + i*3 + 1)
	}
	for _, i := range []int{0, n / 2, n - 2, n - 1} {
		raw[i] = vh.U8("x")
	}
	h17(n, raw)
}

// H_C17_high has sums that are likely to overflow.
func H_C17_high() {
	n := []int{300, 721}[vh.Choose("n", tierInt(1, 2))]
	raw := make([]byte, n)
	for i := range raw {
		raw[i] = 0xff
	}
	raw[n-1] = vh.U8("x")
	raw[n-2] = vh.U8("y")
	h17(n, raw)
}

func h17(n int, raw []byte) {
	stored := vh.U32("stored")
	d := &hset{ty: tUByte, shape: []int{n}, chunk: []int{n}, raw: raw}
	ok := false
	d.filters = []hfilter{{id: fFletcher, hook: func(b []byte) []byte {
		ok = stored == le32(b, n)
		return (&lb{}).bytes(b[:n]).u32(stored).b
	}}}
	g := openHBytes(newHfile(false).root([]string{"x"}, []*hset{d}))
	vg := getterOf(g, "x")
	var got any
	var err error
	exp := raw
	switch vh.Choose("read", 3) {
	case 0:
		v, e := g.GetVariable("x")
		if err = e; err == nil {
			got = v.Values
		}
	case 1:
		got, err = vg.GetSlice(0, 1)
		exp = raw[:1]
	case 2:
		got, err = vg.GetSlice(int64(n)-1, int64(n))
		exp = raw[n-1:]
	}
	if ok {
		must(err, "reading intact data")
		vh.Assert(vh.Eq(got, exp), "intact data is read as something else")
		vh.Reach("intact")
	} else {
		vh.Assert(err != nil, "data with another checksum is not an error")
		vh.Reach("damaged")
	}
}

// H_C17_library: the checksum as defined here is the one computed the way the HDF5 library does.
func H_C17_library() {
	n := 1 + vh.Choose("n", 4)
	b := rawFor("x", tUByte, []int{n})
	vh.Assert(fletcherSum(b) == fletcherLib(b), "checksum is not the HDF5 library's")
	long := make([]byte, 1500+n)
	for i := range long {
		long[i] = byte(i*i*7 + i*3 + 1)
	}
	vh.Assert(fletcherSum(long) == fletcherLib(long), "checksum is not the HDF5 library's")
	vh.Reach("checked")
}

// someBytes is data of which few bytes are arbitrary.
func someBytes(n int, at ...int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*i*7 + i*31 + 1)
	}
	for _, i := range at {
		b[i%n] = vh.U8("x")
	}
	return b
}

// H_C17_byte changes one byte of a chunk of several, anywhere.
func H_C17_byte() {
	ty := []int{tByte, tShort, tInt}[vh.Choose("type", 3)]
	c := []chunking{{[]int{5}, []int{2}}, {[]int{2, 3}, []int{2, 2}}}[vh.Choose("shape", 2)]
	d := c.set("x", ty)
	size := prod(c.chunk) * tSize[ty]
	pos := vh.Choose("pos", size+4)
	d.raw = someBytes(len(d.raw), pos, pos+size)
	change := vh.U8("change")
	vh.Assume(change != 0)
	which := vh.Choose("chunk", prod(d.grid()))
	k := 0
	d.filters = []hfilter{{id: fFletcher, hook: func(b []byte) []byte {
		if k == which {
			b[pos] ^= change
		}
		k++
		return b
	}}}
	g := openHBytes(newHfile(false).root([]string{"x"}, []*hset{d}))
	_, err := g.GetVariable("x")
	vh.Assert(err != nil, "damaged data is not an error")
	vg := getterOf(g, "x")
	row := int64(which)
	if len(c.shape) == 1 {
		row = 2 * int64(which)
	} else {
		row = 0
	}
	_, err = vg.GetSlice(row, row+1)
	vh.Assert(err != nil, "damaged data is not an error when a slice is read")
	if len(c.shape) == 1 && which == 0 { // the other chunks are still fine
		got, err := vg.GetSlice(2, 5)
		must(err, "reading a slice of intact chunks")
		vh.Assert(vh.Eq(got, decode(ty, d.raw[2*tSize[ty]:], []int{3}, true)), "intact chunks are read as something else")
	}
	vh.Reach("checked")
}

// H_C17_combined has other filters before and after the checksum.
func H_C17_combined() {
	ty := []int{tByte, tShort, tInt}[vh.Choose("type", 3)]
	d := (&chunking{[]int{3}, []int{3}}).set("x", ty)
	size := 3 * tSize[ty]
	before := vh.Choose("shuffle", 2) == 1
	change := vh.U8("change")
	pos := vh.Choose("pos", size+4)
	d.raw = someBytes(size, pos)
	sum := hfilter{id: fFletcher, hook: func(b []byte) []byte {
		b[pos] ^= change
		return b
	}}
	if before {
		d.filters = []hfilter{shuffled(tSize[ty]), sum}
	} else {
		d.filters = []hfilter{sum, shuffled(1)}
	}
	g := openHBytes(newHfile(false).root([]string{"x"}, []*hset{d}))
	v, err := g.GetVariable("x")
	if change == 0 {
		must(err, "GetVariable")
		vh.Assert(vh.Eq(v.Values, decode(ty, d.raw, d.shape, true)), "intact data is read as something else")
		vh.Reach("intact")
	} else {
		vh.Assert(err != nil, "damaged data is not an error")
		vh.Reach("damaged")
	}
}

// H_C17_mask: the checksum isn't looked for in chunks the filter was not applied to.
func H_C17_mask() {
	d := (&chunking{[]int{4}, []int{2}}).set("x", tShort)
	d.filters = []hfilter{summed()}
	d.masks = []int{vh.Choose("mask", 2), vh.Choose("mask", 2)}
	checkSet(openHBytes(newHfile(false).root([]string{"x"}, []*hset{d})), "x", d)
	vh.Reach("checked")
}

// ---- C18: shuffle

// H_C18_sizes has all element sizes and many chunk lengths.
func H_C18_sizes() {
	ty := pickNum()
	n := 1 + vh.Choose("n", tierInt(5, 12))
	d := &hset{ty: ty, shape: []int{n}, chunk: []int{n}, raw: rawFor("x", ty, []int{n}), be: vh.Choose("be", 2) == 1}
	d.filters = []hfilter{shuffled(tSize[ty])}
	d.filterV1 = vh.Choose("version", 2) == 1
	checkSet(openHBytes(newHfile(d.filterV1).root([]string{"x"}, []*hset{d})), "x", d)
	vh.Reach("checked")
}

// H_C18_odd has a shuffle of elements that don't divide the chunk.
func H_C18_odd() {
	n := 1 + vh.Choose("n", tierInt(9, 20))
	size := 1 + vh.Choose("size", tierInt(9, 17))
	d := &hset{ty: tUByte, shape: []int{n}, chunk: []int{n}, raw: rawFor("x", tUByte, []int{n})}
	d.filters = []hfilter{shuffled(size)}
	checkSet(openHBytes(newHfile(false).root([]string{"x"}, []*hset{d})), "x", d)
	vh.Reach("checked")
}

// pipelines are combinations of filters, for an element size.
func pipelines(size int) [][]hfilter {
	s, d, f := shuffled(size), deflated(), summed()
	return [][]hfilter{{s}, {s, d}, {s, f}, {s, d, f}, {f, s, d}, {s, f, d}, {d}, {d, f}, {f}, {f, d}, {s, s}, {f, s}}
}

func h18combined(types []int, cs []chunking) {
	ty := types[vh.Choose("type", len(types))]
	c := cs[vh.Choose("shape", len(cs))]
	d := c.set("x", ty)
	d.fill = rawFor("fill", ty, nil)
	ps := pipelines(tSize[ty])
	d.filters = ps[vh.Choose("filters", len(ps))]
	n := prod(d.grid())
	if k := vh.Choose("missing", n+1); k < n {
		d.missing = make([]bool, n)
		d.missing[k] = true
	}
	g := openHBytes(newHfile(false).root([]string{"x"}, []*hset{d}))
	checkSet(g, "x", d)
	vg := getterOf(g, "x")
	for b := 0; b <= c.shape[0]; b++ {
		for e := b; e <= c.shape[0]; e++ {
			got, err := vg.GetSlice(int64(b), int64(e))
			must(err, "GetSlice")
			step := len(d.raw) / c.shape[0]
			exp := decode(ty, d.expected()[b*step:e*step], append([]int{e - b}, c.shape[1:]...), true)
			vh.Assert(vh.Eq(got, exp), "slice differs from the same range of the whole")
		}
	}
	vh.Reach("checked")
}

func H_C18_combined() {
	h18combined([]int{tShort, tInt}, []chunking{{[]int{2}, []int{2}}, {[]int{3}, []int{2}}, {[]int{2, 3}, []int{1, 2}}})
}

func HT_C18_combined() {
	h18combined([]int{tByte, tUShort, tFloat, tInt64}, []chunking{{[]int{5}, []int{2}}, {[]int{3, 3}, []int{2, 2}}, {[]int{2, 2, 2}, []int{1, 2, 1}}})
}

// H_C18_masks applies filters to some chunks only.
func H_C18_masks() {
	ty := []int{tShort, tInt}[vh.Choose("type", 2)]
	d := (&chunking{[]int{5}, []int{2}}).set("x", ty)
	d.filters = []hfilter{shuffled(tSize[ty]), summed()}
	d.masks = []int{vh.Choose("mask", 4), vh.Choose("mask", 4), vh.Choose("mask", 4)}
	g := openHBytes(newHfile(vh.Choose("v1", 2) == 1).root([]string{"x"}, []*hset{d}))
	checkSet(g, "x", d)
	got, err := getterOf(g, "x").GetSlice(1, 3)
	must(err, "GetSlice")
	vh.Assert(vh.Eq(got, decode(ty, d.raw[tSize[ty]:3*tSize[ty]], []int{2}, true)), "slice differs")
	vh.Reach("checked")
}

// H_C18_pipes has every order of two or three filters, each skipped for some of the chunks.
func H_C18_pipes() {
	d := (&chunking{[]int{4}, []int{2}}).set("x", tShort)
	all := []hfilter{shuffled(2), summed(), deflated()}
	for _, k := range permuted(3) {
		d.filters = append(d.filters, all[k])
	}
	d.filters = d.filters[:2+vh.Choose("filters", 2)]
	n := 1 << len(d.filters)
	d.masks = []int{vh.Choose("mask", n), n - 1 - vh.Choose("mask", tierInt(2, n))}
	g := openHBytes(newHfile(false).root([]string{"x"}, []*hset{d}))
	checkSet(g, "x", d)
	vg := getterOf(g, "x")
	for b := 0; b < 4; b++ {
		got, err := vg.GetSlice(int64(b), int64(b)+1)
		must(err, "GetSlice")
		vh.Assert(vh.Eq(got, decode(tShort, d.raw[2*b:2*b+2], []int{1}, true)), "slice differs")
	}
	vh.Reach("checked")
}
