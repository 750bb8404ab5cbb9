package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/vh"
)

// touch uses everything there is in a group. Nothing it finds matters, only that it returns.
func touch(g api.Group, depth int) {
	g.ListTypes()
	for _, d := range g.ListDimensions() {
		g.GetDimension(d)
	}
	touchAttrs(g.Attributes())
	for _, v := range g.ListVariables() {
		touchVar(g, v)
	}
	if depth > 0 {
		for _, s := range g.ListSubgroups() {
			sg, err := g.GetGroup(s)
			if err == nil {
				touch(sg, depth-1)
				sg.Close()
			}
		}
	}
}

func touchAttrs(a api.AttributeMap) {
	if a == nil {
		return
	}
	for _, k := range a.Keys() {
		a.Get(k)
		a.GetType(k)
		a.GetGoType(k)
	}
}

func touchVar(g api.Group, name string) {
	v, err := g.GetVariable(name)
	if err == nil {
		vh.Assert(v != nil, "neither a variable nor an error")
		touchAttrs(v.Attributes)
	}
	vg, err := g.GetVarGetter(name)
	if err != nil {
		return
	}
	n := vg.Len()
	vg.Dimensions()
	vg.Type()
	vg.GoType()
	touchAttrs(vg.Attributes())
	vg.Values()
	if n > 0 {
		vg.GetSlice(n-1, n)
	}
	sh := vg.Shape()
	b, e := make([]int64, len(sh)), make([]int64, len(sh))
	for i := range sh {
		if sh[i] > 0 {
			b[i], e[i] = sh[i]-1, sh[i]
		}
	}
	vg.GetSliceMD(b, e)
}

const robustSteps = 6_000_000

func fixedBytes(n int, from byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = from + byte(i)
	}
	return b
}

// the files whose headers are damaged
func badBase(k int, version int) []byte {
	e := &enc{version: version}
	add := func(name string, ty int, inner []int, rec bool) {
		v := evar{name: name, ty: ty, inner: inner, rec: rec}
		n := prod(inner)
		if rec {
			v.dims = append(v.dims, e.dim("t", 0))
			n *= e.numrecs
		}
		for i, d := range inner {
			v.dims = append(v.dims, e.dim(name+string(rune('a'+i)), d))
		}
		v.raw = fixedBytes(n*tSize[ty], 1)
		e.vars = append(e.vars, v)
	}
	att := func(name string, ty, n int) wattr {
		return wattr{name: name, ty: ty, n: n, raw: fixedBytes(n*tSize[ty], 0x41)}
	}
	switch k {
	case 0: // one small variable
		add("x", tShort, []int{3}, false)
	case 1: // records
		e.numrecs = 2
		add("r", tByte, []int{3}, true)
		add("s", tInt, nil, true)
	case 2: // a lone record variable with a fill value
		e.numrecs = 2
		add("r", tShort, []int{1}, true)
		e.vars[0].attrs = []wattr{att("_FillValue", tShort, 1)}
	case 3: // attributes
		e.gattrs = []wattr{att("a", tChar, 3), att("b", tInt, 2)}
		add("x", tDouble, nil, false)
		e.vars[0].attrs = []wattr{att("_FillValue", tDouble, 1), att("u", tByte, 1)}
	case 4: // text in three dimensions
		add("c", tChar, []int{2, 1, 3}, false)
	}
	return e.encode()
}

const nBase = 5

func readBad(b []byte) {
	vh.Robust(robustSteps, 40)
	g, err := cdf.New(&memReader{b: b})
	if err != nil {
		vh.Assert(g == nil, "both a group and an error")
		vh.Reach("refused")
		return
	}
	touch(g, 0)
	g.Close()
	vh.Reach("read")
}

func window(b []byte, size, step int) []byte {
	n := (len(b)-4)/step + 1
	at := 4 + step*vh.Choose("at", n)
	w := vh.Bytes("bytes", size)
	for i := range w {
		if at+i < len(b) {
			b[at+i] = w[i]
		}
	}
	return b
}

// H_C08_word4: any value of any aligned word.
func H_C08_word() {
	k := vh.Choose("base", nBase)
	readBad(window(badBase(k, 1+vh.Choose("version", 2)), 4, 4))
}

// H_C08_word5: any value of any 8 bytes of a version 5 file.
func H_C08_word5() {
	k := vh.Choose("base", nBase)
	readBad(window(badBase(k, 5), 8, 4))
}

// H_C08_magic: any first four bytes.
func H_C08_magic() {
	b := badBase(vh.Choose("base", nBase), versions[vh.Choose("version", 3)])
	copy(b, vh.Bytes("magic", 4))
	readBad(b)
}

// H_C08_short: any truncation of a file, with any value in one word of it.
func H_C08_short() {
	k := vh.Choose("base", nBase)
	b := badBase(k, versions[vh.Choose("version", 3)])
	readBad(b[:vh.Choose("keep", len(b))])
}

// H_C08_any: any short sequence of bytes.
func H_C08_any() {
	readBad(append([]byte("CDF"), vh.Bytes("bytes", vh.Choose("len", 16))...))
}

// HT_C08_two: any values of two words next to each other.
func HT_C08_two() {
	k := vh.Choose("base", nBase)
	readBad(window(badBase(k, 1+vh.Choose("version", 2)), 8, 4))
}

// HT_C08_apart: any values of any two words.
func HT_C08_apart() {
	k := vh.Choose("base", nBase)
	b := badBase(k, 1)
	readBad(window(window(b, 4, 4), 4, 4))
}
