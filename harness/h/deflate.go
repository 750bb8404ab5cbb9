package h

import (
	"bytes"
	"compress/zlib"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/vh"
)

// ---- C32: compressed data that is damaged

// adler is the checksum at the end of a zlib stream.
func adler(b []byte) uint32 {
	a1, a2 := uint32(1), uint32(0)
	for _, x := range b {
		a1 = (a1 + uint32(x)) % 65521
		a2 = (a2 + a1) % 65521
	}
	return a2<<16 | a1
}

// deflatedFile has a variable of one chunk, of which the filters give what is said.
func deflatedFile(ty int, shape, chunk []int, filters []hfilter, stream []byte) api.Group {
	d := &hset{ty: ty, shape: shape, chunk: chunk, raw: make([]byte, tSize[ty]*prod(shape))}
	last := filters[len(filters)-1]
	last.hook = func([]byte) []byte { return append([]byte(nil), stream...) }
	d.filters = append(append([]hfilter{}, filters[:len(filters)-1]...), last)
	return openHBytes(newHfile(false).root([]string{"x"}, []*hset{d}))
}

// someRead reads a variable in one of several ways. The expected value is that of the same part.
func someRead(g api.Group, ty int, n int, raw []byte) (got, exp any, err error) {
	s := tSize[ty]
	vg := getterOf(g, "x")
	switch vh.Choose("read", 4) {
	case 0:
		v, e := g.GetVariable("x")
		if err = e; err == nil {
			got = v.Values
		}
	case 1:
		got, err = vg.Values()
	case 2:
		got, err = vg.GetSlice(0, 1)
		n, raw = 1, raw[:s]
	case 3:
		got, err = vg.GetSlice(int64(n)-1, int64(n))
		n, raw = 1, raw[(n-1)*s:]
	}
	return got, decode(ty, raw, []int{n}, true), err
}

// H_C32_sum: a chunk with an arbitrary checksum is read exactly if it's the one of the data.
func H_C32_sum() {
	n := 1 + vh.Choose("n", tierInt(4, 8))
	raw := rawFor("x", tUByte, []int{n})
	z := zstored(raw)
	stored := vh.U32("stored")
	for i := 0; i < 4; i++ {
		z[len(z)-4+i] = byte(stored >> (8 * (3 - i)))
	}
	filters := []hfilter{deflated()}
	if vh.Choose("shuffled", 2) == 1 {
		filters = []hfilter{shuffled(1), deflated()}
	}
	got, exp, err := someRead(deflatedFile(tUByte, []int{n}, []int{n}, filters, z), tUByte, n, raw)
	if stored == adler(raw) {
		must(err, "reading intact data")
		vh.Assert(vh.Eq(got, exp), "intact data is read as something else")
		vh.Reach("intact")
	} else {
		vh.Assert(err != nil, "data with another checksum is not an error")
		vh.Reach("damaged")
	}
}

// zreal is a stream that data was really compressed to.
func zreal(b []byte) []byte {
	var w bytes.Buffer
	z, _ := zlib.NewWriterLevel(&w, 9)
	z.Write(b)
	z.Close()
	return w.Bytes()
}

// someStream is data for n shorts, and what it's compressed to.
func someStream(n int) (raw, z []byte) {
	raw = someBytes(2 * n)
	if vh.Choose("stored", 2) == 1 {
		raw[1] = vh.U8("x")
		return raw, zstored(raw)
	}
	for i := range raw {
		raw[i] = byte(i / 3 % 2)
	}
	return raw, zreal(raw)
}

// H_C32_byte: with any one byte changed, there is an error or the data is the same.
func H_C32_byte() {
	n := 4
	raw, z := someStream(n)
	damage(z, vh.Choose("at", len(z)), "change")
	g := deflatedFile(tShort, []int{n}, []int{n}, []hfilter{deflated()}, z)
	got, exp, err := someRead(g, tShort, n, raw)
	if err == nil {
		vh.Assert(vh.Eq(got, exp), "damaged data is read as something else")
		vh.Reach("same")
		return
	}
	vh.Reach("detected")
}

// H_C32_short: a stream that is cut off is an error.
func H_C32_short() {
	n := 4
	raw, z := someStream(n)
	z = z[:vh.Choose("length", len(z))]
	filters := [][]hfilter{{deflated()}, {shuffled(2), deflated()}}[vh.Choose("shuffled", 2)]
	_, _, err := someRead(deflatedFile(tShort, []int{n}, []int{n}, filters, z), tShort, n, raw)
	vh.Assert(err != nil, "a truncated stream is not an error")
	vh.Reach("detected")
}

// H_C32_length: a stream of less data than the chunk has is an error. Of more, it is an
// error or the data is what the stream begins with.
func H_C32_length() {
	n := 3
	raw := someBytes(2*n, 1)
	m := vh.Choose("bytes", 2*n+3)
	vh.Assume(m != 2*n)
	z := zstored(append(append([]byte{}, raw...), 1, 2)[:m])
	filters := [][]hfilter{{deflated()}, {shuffled(2), deflated()}}[vh.Choose("shuffled", 2)]
	if m > 2*n {
		filters = filters[len(filters)-1:]
	}
	got, exp, err := someRead(deflatedFile(tShort, []int{n}, []int{n}, filters, z), tShort, n, raw)
	vh.Assert(err != nil || m > 2*n && vh.Eq(got, exp), "a chunk of another size is not an error")
	vh.Reach("detected")
}

// H_C32_chunks: of several chunks, one is damaged. Slices of others are still read.
func H_C32_chunks() {
	d := (&chunking{[]int{5}, []int{2}}).set("x", tShort)
	d.raw = someBytes(len(d.raw), 0, 5)
	which := vh.Choose("chunk", 3)
	at := 7 + vh.Choose("at", 8) // data and checksum
	change := vh.U8("change")
	vh.Assume(change != 0)
	k := 0
	d.filters = []hfilter{{id: fDeflate, cdv: []uint32{1}, hook: func(b []byte) []byte {
		if k == which {
			b[at] ^= change
		}
		k++
		return b
	}}}
	g := openHBytes(newHfile(vh.Choose("v1", 2) == 1).root([]string{"x"}, []*hset{d}))
	_, err := g.GetVariable("x")
	vh.Assert(err != nil, "damaged data is not an error")
	for c := 0; c < 3; c++ {
		b, e := 2*c, min(2*c+1+vh.Choose("both", 2), 5)
		got, err := getterOf(g, "x").GetSlice(int64(b), int64(e))
		if c == which {
			vh.Assert(err != nil, "damaged data is not an error when a slice is read")
			continue
		}
		must(err, "reading a slice of intact chunks")
		vh.Assert(vh.Eq(got, decode(tShort, d.raw[2*b:2*e], []int{e - b}, true)), "intact chunks are read as something else")
	}
	vh.Reach("checked")
}
