package h

import (
	"bytes"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/vh"
)

// the most elements of a variable that are read, and the number of bytes that must be refused
const (
	fewElements = 200
	absurdBytes = uint64(1) << 41
)

// readBadH uses everything in a damaged file. Nothing it finds matters, only that it returns.
func readBadH(b []byte) {
	vh.Robust(4_000_000, 40)
	g, err := hdf5.New(&memReader{b: b})
	if err != nil {
		vh.Assert(g == nil, "both a group and an error")
		vh.Reach("refused")
		return
	}
	touchH(g, 2)
	g.Close()
	vh.Reach("read")
}

func touchH(g api.Group, depth int) {
	for _, t := range g.ListTypes() {
		g.GetType(t)
		g.GetGoType(t)
	}
	for _, d := range g.ListDimensions() {
		g.GetDimension(d)
	}
	touchAttrs(g.Attributes())
	for _, v := range g.ListVariables() {
		touchVarH(g, v)
	}
	if depth > 0 {
		for _, s := range g.ListSubgroups() {
			sg, err := g.GetGroup(s)
			if err == nil {
				touchH(sg, depth-1)
				sg.Close()
			}
		}
	}
}

// touchVarH reads a variable if it claims to have few elements. If it claims to have absurdly
// many it must be refused.
func touchVarH(g api.Group, name string) {
	vg, err := g.GetVarGetter(name)
	if err != nil {
		vh.Assert(vg == nil, "both a variable and an error")
		g.GetVariable(name)
		return
	}
	vg.Dimensions()
	vg.Type()
	vg.GoType()
	touchAttrs(vg.Attributes())
	sh := vg.Shape()
	n, absurd := uint64(1), false
	for _, d := range sh {
		vh.Assert(d >= 0, "a negative length")
		if d == 0 {
			n = 0
		}
	}
	for _, d := range sh {
		if n != 0 && uint64(d) > absurdBytes/n {
			absurd = true
			break
		}
		n *= uint64(d)
	}
	if absurd {
		_, err := vg.Values()
		vh.Assert(err != nil, "more data than there can be were read")
		_, err = g.GetVariable(name)
		vh.Assert(err != nil, "more data than there can be were read")
		vh.Reach("absurd")
		return
	}
	if n > fewElements {
		vh.Reach("many")
		return
	}
	b, e := make([]int64, len(sh)), make([]int64, len(sh))
	for i := range sh {
		if sh[i] > 0 {
			b[i], e[i] = sh[i]-1, sh[i]
		}
	}
	v, err := g.GetVariable(name)
	if err == nil {
		vh.Assert(v != nil, "neither a variable nor an error")
		touchAttrs(v.Attributes)
	}
	vg.Values()
	if n := vg.Len(); n > 0 {
		vg.GetSlice(n-1, n)
	}
	vg.GetSliceMD(b, e)
}

// the files that are damaged; no checksums, but in the last ones
const nHBase = 12

func badHBase(k int) []byte {
	attr := func(v int, name string, shape ...int) hmsg {
		return hmsg{ty: 12, body: attrMsg(v, name, dtFixed(2, true, false), dspace(shape...), fixedBytes(2*prod(shape), 5))}
	}
	one := func(v1 bool, d *hset) []byte {
		f := newHfile(v1)
		return f.root([]string{"x"}, []*hset{d})
	}
	switch k {
	case 0: // contiguous, with a fill value and an attribute
		return one(true, &hset{ty: tShort, shape: []int{2}, raw: fixedBytes(4, 1), fill: fixedBytes(2, 7), attrs: []hmsg{attr(1, "a", 2)}})
	case 1: // chunked
		return one(true, &hset{ty: tShort, shape: []int{3}, raw: fixedBytes(6, 1), chunk: []int{2}, ds1: true})
	case 2: // chunked and filtered
		return one(true, &hset{ty: tShort, shape: []int{2, 2}, raw: fixedBytes(8, 1), chunk: []int{2, 1}, filters: []hfilter{shuffled(2), summed()}})
	case 3: // compact, old fill value
		return one(true, &hset{ty: tInt, shape: []int{1, 2}, raw: fixedBytes(8, 1), compact: true, fill: fixedBytes(4, 7), fillV: 4})
	case 4, 5, 6, 7: // user types
		t := []*utype{utypes(7, 1), utypes(3, 1), utypes(9, 3), utypes(5, 2)}[k-4]
		u := newUfile(true)
		u.h.same = true
		v := t.fixed(u.h)
		m := hmsg{ty: 12, body: attrMsg(1, "a", t.encode(), dspace(1), v.raw)}
		at := u.f.dataset(&hset{dt: t.encode(), shape: []int{1}, raw: v.raw, attrs: []hmsg{m}})
		b := u.encode([]hlink{{"x", at}, {"y_t", u.committed(t)}})
		return b
	case 8: // dimensions
		f := newHfile(true)
		x := f.dataset(&hset{ty: tInt, shape: []int{2}, raw: fixedBytes(8, 1), attrs: []hmsg{strAttr("CLASS", "DIMENSION_SCALE"), strAttr("NAME", "x")}})
		return f.finish(f.oldGroup([]hlink{{"x", x}}, 8, 32))
	case 9: // groups
		f := newHfile(true)
		a := f.oldGroup(nil, 8, 32, attr(1, "a"))
		b := f.oldGroup([]hlink{{"a", a}}, 1, 2)
		return f.finish(f.oldGroup([]hlink{{"b", b}, {"c", f.dataset(&hset{ty: tByte, shape: nil, raw: []byte{1}})}}, 1, 2))
	case 10:
		_, b := smallFile(0, false)
		return b
	}
	_, b := denseFile(dense{smallHeap(32), 2, 2}, 4)
	return b
}

func strAttr(name, val string) hmsg {
	return hmsg{ty: 12, body: attrMsg(1, name, dtStr(len(val)+1), dspace(), append([]byte(val), 0))}
}

func badByte(k int) {
	b := badHBase(k)
	at := vh.Choose("at", len(b))
	if len(b) > 4096 && at >= 96+96 && at < 96+4096 {
		vh.Assume(false) // the free part of the global heap
	}
	if k > 0 && k < 9 && !vh.Thorough() {
		// The superblock and the root group are as in the first file.
		end := len(b)
		for _, s := range []string{"SNOD", "HEAP", "TREE"} {
			// The last of each; the first tree may be of chunks.
			if i := bytes.LastIndex(b, []byte(s)); i >= 0 {
				end = min(end, i)
			}
		}
		vh.Assume(at >= 96 && at < end)
	}
	x := vh.U8("byte")
	if !vh.Thorough() {
		old := b[at]
		vh.Assume(vh.Or(x <= 4, x == 8, x == 0x7f, x == 0x80, x >= 0xfe, x == old-1, x == old+1, x == old^16))
	}
	b[at] = x
	readBadH(b)
}

func H_C20_b00() { badByte(0) }
func H_C20_b01() { badByte(1) }
func H_C20_b02() { badByte(2) }
func H_C20_b03() { badByte(3) }
func H_C20_b04() { badByte(4) }
func H_C20_b05() { badByte(5) }
func H_C20_b06() { badByte(6) }
func H_C20_b07() { badByte(7) }
func H_C20_b08() { badByte(8) }
func H_C20_b09() { badByte(9) }
func H_C20_b10() { badByte(10) }
func H_C20_b11() { badByte(11) }

// H_C20_short: files that end early.
func H_C20_short() {
	b := badHBase(vh.Choose("base", nHBase))
	n := vh.Choose("length", len(b))
	vh.Assume(len(b) < 4096 || n < 96+96 || n >= 96+4096)
	vh.Assume(vh.Thorough() || n%8 == 3)
	b = b[:n]
	if n > 0 && vh.Choose("last", 2) == 1 {
		b[n-1] = vh.U8("byte")
		vh.Assume(vh.Thorough() || n%16 == 3)
	}
	readBadH(b)
}

// badWindow: the first and the last of several aligned bytes have any values, and what is between
// has all bits zero or one, as lengths and addresses have that are more than a byte long.
func badWindow(k, n int) {
	vh.Assume(k == 3 || vh.Thorough())
	b := badHBase(k)
	at := vh.Choose("at", (len(b)-n)/n) * n
	if len(b) > 4096 && at >= 96+96 && at < 96+4096 {
		vh.Assume(false)
	}
	vh.Assume(vh.Thorough() || at%64 == 40)
	b[at] = vh.U8("first")
	if n > 2 {
		x := byte(vh.Choose("ones", 2) * 255)
		for i := 1; i < n-1; i++ {
			b[at+i] = x
		}
	}
	b[at+n-1] = vh.U8("last")
	readBadH(b)
}

// H_C20_two, H_C20_four, H_C20_eight: aligned bytes of several files without checksums.
func H_C20_two()   { badWindow(vh.Choose("base", 10), 2) }
func H_C20_four()  { badWindow(vh.Choose("base", 10), 4) }
func H_C20_eight() { badWindow(vh.Choose("base", 10), 8) }
