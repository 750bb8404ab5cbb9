package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/vh"
)

// C35: the HDF5 format has many ways to encode the same content. Whichever is used,
// what is read is the same.

// leAttr makes a numeric attribute of n elements, or a scalar for n < 0, as a message and as it is to be read.
func leAttr(ver int, name string, ty, n int) (hmsg, wattr) {
	a := mkattr(name, ty, n)
	ds := dspace()
	if n >= 0 {
		ds = dspace(n)
	}
	if n < 0 || n == 1 {
		a.exp = decode(ty, a.raw, nil, true)
	} else {
		a.exp = decode(ty, a.raw, []int{n}, true)
	}
	return hmsg{ty: 12, body: attrMsg(ver, name, dtOf(ty, false), ds, a.raw)}, a
}

// vcontent is a small file: datasets x and y, attributes of x and of the root group.
type vcontent struct {
	x, y   *hset
	as, gs []wattr
	gm     []hmsg
}

func newContent(ver int) *vcontent {
	c := &vcontent{
		x: &hset{ty: tInt, shape: []int{3}, raw: rawFor("x", tInt, []int{3})},
		y: &hset{ty: tShort, shape: []int{2, 2}, chunk: []int{1, 2}, raw: rawFor("y", tShort, []int{2, 2})},
	}
	m1, a1 := leAttr(ver, "a", tShort, 2)
	m2, a2 := leAttr(ver, "bb", tDouble, -1)
	m2.co = 1
	c.x.attrs, c.as = []hmsg{m1, m2}, []wattr{a1, a2}
	m3, a3 := leAttr(ver, "g", tByte, 3)
	c.gm, c.gs = []hmsg{m3}, []wattr{a3}
	return c
}

// encode makes the file, with the object header of the dataset x (0) or of the root (1) as given.
func (c *vcontent) encode(f *hfile, who int, oh hhead) []byte {
	if who == 0 {
		f.oh = oh
	}
	x := f.dataset(c.x)
	f.oh = hhead{}
	y := f.dataset(c.y)
	if who == 1 {
		f.oh = oh
	}
	links := []hlink{{"x", x}, {"y", y}}
	if f.v1 {
		return f.finish(f.oldGroup(links, 8, 32, c.gm...))
	}
	return f.finish(f.group(links, c.gm...))
}

func (c *vcontent) check(b []byte) {
	g := openHBytes(b)
	vh.Assert(sameStrings(g.ListVariables(), []string{"x", "y"}), "list of variables differs")
	vh.Assert(len(g.ListSubgroups()) == 0, "list of groups differs")
	checkAttrs(g.Attributes(), c.gs)
	v, err := g.GetVariable("x")
	must(err, "GetVariable")
	checkAttrs(v.Attributes, c.as)
	checkSet(g, "x", c.x)
	checkSet(g, "y", c.y)
	g.Close()
	vh.Reach("checked")
}

func attrVersion(v1 bool) int {
	if v1 {
		return 1
	}
	return 3
}

// H_C35_super has superblocks of all versions.
func H_C35_super() {
	v1 := vh.Choose("v1", 2) == 1
	f := withSuper(v1, vh.Choose("version", 4))
	f.super.flags = [][]byte{{0, 0, 0, 0}, {1, 0, 0, 0}, {5, 0, 0, 0}, {255, 255, 255, 255}}[vh.Choose("flags", 4)]
	f.super.k = [][]byte{{1, 0, 1, 0}, {16, 0, 32, 0}, {0, 1, 0, 2}, {255, 127, 255, 255}}[vh.Choose("k", 4)]
	if f.super.version < 2 {
		if vh.Choose("cache", 2) == 1 {
			f.super.cache = vh.Bytes("scratch", 16)
		}
	} else {
		switch vh.Choose("extension", 3) {
		case 1:
			f.super.ext = f.header(hmsg{ty: 0, body: vh.Bytes("nil", 8)})
		case 2:
			f.super.ext = f.header(hmsg{ty: 15, body: (&lb{}).u8(0).u64(undef).u8(1).b}, hmsg{ty: 0})
		}
	}
	f.super.junk = []int{0, 1, 9}[vh.Choose("junk", 3)]
	c := newContent(attrVersion(v1))
	c.check(c.encode(f, -1, hhead{}))
}

// H_C35_header has version 2 object headers with all their flags.
func H_C35_header() {
	f := newHfile(false)
	f.tracked = vh.Choose("tracked", 2) == 1
	oh := hhead{set: true, flagAt: -1}
	oh.width = vh.Choose("width", 4)
	oh.flags = []int{0, 0x10, 0x20, 0x30}[vh.Choose("flags", 4)]
	if f.tracked && vh.Choose("indexed", 2) == 1 {
		oh.flags |= 8
	}
	oh.times, oh.phase = vh.Bytes("times", 16), vh.Bytes("phase", 4)
	oh.gap = vh.Choose("gap", 4)
	if f.tracked {
		oh.gap = vh.Choose("gap", 6)
	}
	c := newContent(3)
	c.check(c.encode(f, vh.Choose("who", 2), oh))
}

// H_C35_split has headers in two chunks, the further one with unused bytes at its end, or not.
func H_C35_split() {
	v1 := vh.Choose("v1", 2) == 1
	f := newHfile(v1)
	f.split = 1 + vh.Choose("split", 5)
	f.tracked = !v1 && vh.Choose("tracked", 2) == 1
	c := newContent(attrVersion(v1))
	c.check(c.encode(f, -1, hhead{}))
}

// H_C35_flags has messages with any flags but the one of shared messages.
func H_C35_flags() {
	v1 := vh.Choose("v1", 2) == 1
	f := newHfile(v1)
	f.tracked = !v1 && vh.Choose("tracked", 2) == 1
	oh := hhead{set: true, width: 2, flagAt: vh.Choose("message", 6)}
	if vh.Thorough() {
		oh.flag = vh.U8("flag")
		vh.Assume(oh.flag&2 == 0)
	} else {
		oh.flag = []byte{1, 4, 8, 16, 32, 64, 128, 253}[vh.Choose("flag", 8)]
	}
	c := newContent(attrVersion(v1))
	c.check(c.encode(f, vh.Choose("who", 2), oh))
}

// harmless makes a message that says nothing about the content.
func harmless(v1 bool) hmsg {
	digits := func(n int) []byte {
		b := vh.Bytes("digits", n)
		for _, c := range b {
			vh.Assume(c >= '0' && c <= '9')
		}
		return b
	}
	switch vh.Choose("kind", 7) {
	case 0:
		return hmsg{ty: 0}
	case 1:
		return hmsg{ty: 0, body: vh.Bytes("nil", 8)}
	case 2:
		if v1 {
			return hmsg{ty: 0, body: vh.Bytes("nil", 48)}
		}
		return hmsg{ty: 0, body: vh.Bytes("nil", 1+vh.Choose("len", 4))}
	case 3:
		return hmsg{ty: 13, body: (&lb{}).name(text("comment", vh.Choose("len", 9))).b}
	case 4:
		return hmsg{ty: 14, body: (&lb{}).bytes(digits(14)).u8(0, 0).b}
	case 5:
		return hmsg{ty: 18, body: (&lb{}).u8(1, 0, 0, 0).bytes(vh.Bytes("time", 4)).b}
	}
	return hmsg{ty: 22, body: (&lb{}).u8(0).bytes(vh.Bytes("count", 4)).b}
}

// H_C35_extra has further messages, that do not change the content.
func H_C35_extra() {
	v1 := vh.Choose("v1", 2) == 1
	f := newHfile(v1)
	f.tracked = !v1 && vh.Choose("tracked", 2) == 1
	oh := hhead{set: true, width: 2, flagAt: -1, at: vh.Choose("at", 7), msgs: []hmsg{harmless(v1)}}
	c := newContent(attrVersion(v1))
	c.check(c.encode(f, vh.Choose("who", 2), oh))
}

// H_C35_order has the messages of a dataset in any order.
func H_C35_order() {
	v1 := vh.Choose("v1", 2) == 1
	c := newContent(attrVersion(v1))
	n := 4
	switch vh.Choose("layout", 4) {
	case 1:
		c.x.compact = true
	case 2:
		c.x.chunk = []int{2}
		c.x.missing = []bool{false, true}
	case 3:
		c.x.chunk = []int{2}
		c.x.filters = []hfilter{shuffled(4)}
		n = 5
	}
	c.x.fill = rawFor("fill", tInt, nil)
	oh := hhead{set: true, width: 2, flagAt: -1, perm: permuted(n)}
	if vh.Choose("attribute", 2) == 1 { // before all of the others
		oh.perm = append([]int{n}, oh.perm...)
	}
	c.check(c.encode(newHfile(v1), 0, oh))
}

// H_C35_links has links in all their encodings, in messages and in heaps.
func H_C35_links() {
	f := newHfile(false)
	v := &vlink{width: vh.Choose("width", 4), charset: -1}
	name := "a"
	if vh.Choose("long", 2) == 0 {
		v.typed, v.charset = vh.Choose("typed", 2) == 1, vh.Choose("charset", 3)-1
	} else {
		n := []int{255, 256, 300, 1000}[v.width]
		for len(name) < n {
			name += "b"
		}
	}
	if vh.Choose("info", 2) == 1 {
		f.info = []int{0, vh.Choose("groupinfo", 4)}
	}
	if vh.Choose("ordered", 2) == 1 {
		v.ordered, v.co = true, vh.Bytes("co", 8)
		f.info = []int{1 | vh.Choose("indexed", 2)<<1, 0}
	}
	f.vlinks = map[string]*vlink{name: v}
	f.dense = dense{bigHeap(32), 45, 20}
	x := &hset{ty: tInt, raw: rawFor("x", tInt, nil)}
	y := &hset{ty: tInt, raw: rawFor("y", tInt, nil)}
	links := []hlink{{name, f.dataset(x)}, {"y", f.dataset(y)}}
	var root uint64
	if vh.Choose("dense", 2) == 1 {
		root = f.denseGroup(links)
	} else {
		root = f.group(links)
	}
	g := openHBytes(f.finish(root))
	vh.Assert(sameSet(g.ListVariables(), []string{name, "y"}), "list of variables differs")
	checkSet(g, name, x)
	checkSet(g, "y", y)
	g.Close()
	vh.Reach("checked")
}

// H_C35_creation has links with any order of creation, in which they are listed.
func H_C35_creation() {
	f := newHfile(false)
	f.info = []int{1, 0}
	f.dense = dense{bigHeap(32), 45, 20}
	names := []string{"b", "c", "a"}
	f.vlinks = map[string]*vlink{}
	var links []hlink
	co := make([]uint64, 3)
	groups := vh.Choose("groups", 2) == 1
	for i, n := range names {
		b := vh.Bytes("co", 8)
		co[i] = leU(b)
		for j := 0; j < i; j++ {
			vh.Assume(co[i] != co[j])
		}
		f.vlinks[n] = &vlink{ordered: true, co: b, charset: -1}
		if groups {
			links = append(links, hlink{n, f.header(hmsg{ty: 2, body: (&lb{}).u8(0, 0).u64(undef).u64(undef).b}, hmsg{ty: 10, body: []byte{0, 0}})})
		} else {
			links = append(links, hlink{n, f.dataset(&hset{ty: tByte, raw: []byte{byte(i)}})})
		}
	}
	var root uint64
	if vh.Choose("dense", 2) == 1 {
		root = f.denseGroup(links)
	} else {
		root = f.group(links)
	}
	g := openHBytes(f.finish(root))
	list := g.ListVariables()
	if groups {
		list = g.ListSubgroups()
	}
	vh.Assert(len(list) == 3, "list has a wrong length")
	at := func(s string) int {
		for i, n := range list {
			if n == s {
				return i
			}
		}
		vh.Fail("object isn't listed")
		return 0
	}
	for i := range names {
		for j := range names {
			if at(names[i]) < at(names[j]) {
				vh.Assert(co[i] < co[j], "objects aren't listed in the order of creation")
			}
		}
	}
	g.Close()
	vh.Reach("checked")
}

// H_C35_attrs has attributes in all their encodings.
func H_C35_attrs() {
	v1 := vh.Choose("v1", 2) == 1
	ver := 1 + vh.Choose("version", 3)
	n := []int{0, 1, 3}[vh.Choose("len", 3)]
	ty := []int{tByte, tUShort, tDouble}[vh.Choose("type", tierInt(2, 3))]
	name := "attribute"[:[]int{1, 6, 7, 8, 9}[vh.Choose("name", 5)]]
	be := ty == tUShort
	raw := rawFor("v", ty, []int{n})
	var ds []byte
	switch vh.Choose("space", 4) {
	case 0:
		ds = dspace(n)
	case 1:
		ds = dspace1(n)
	case 2: // no maximum
		ds = (&lb{}).u8(1, 1, 0, 0).u32(0).u64(uint64(n)).b
	case 3: // any maximum
		ds = (&lb{}).u8(2, 1, 1, 1).u64(uint64(n)).bytes(vh.Bytes("max", 8)).b
	}
	body := attrMsg(ver, name, dtOf(ty, be), ds, raw)
	if ver == 3 {
		body[8] = byte(vh.Choose("charset", 2))
	}
	exp := decode(ty, raw, []int{n}, !be)
	if n == 1 {
		exp = decode(ty, raw, nil, !be)
	}
	m2, a2 := leAttr(3, "other", tInt, 2)
	as := []wattr{{name: name, exp: exp}, a2}
	c := newContent(attrVersion(v1))
	if vh.Choose("who", 2) == 0 {
		c.x.attrs, c.as = []hmsg{{ty: 12, body: body}, m2}, as
	} else {
		c.gm, c.gs = []hmsg{{ty: 12, body: body}, m2}, as
	}
	c.check(c.encode(newHfile(v1), -1, hhead{}))
}

// H_C35_space has dataspaces of both versions, with any maximum.
func H_C35_space() {
	v1 := vh.Choose("v1", 2) == 1
	shape := [][]int{{}, {3}, {2, 2}, {1, 2, 3}, {2, 1, 1, 2}}[vh.Choose("shape", 5)]
	d := &hset{ty: tShort, shape: shape, raw: rawFor("x", tShort, shape)}
	if len(shape) > 0 && vh.Choose("chunked", 2) == 1 {
		d.chunk = make([]int, len(shape))
		for i := range d.chunk {
			d.chunk[i] = 2
		}
	}
	ds := &lb{}
	max := vh.Choose("max", 2)
	if vh.Choose("version", 2) == 0 {
		ds.u8(1, len(shape), max, 0).u32(0)
	} else if len(shape) == 0 {
		ds.u8(2, 0, 0, vh.Choose("simple", 2)) // a scalar, or simple with no dimensions
		max = 0
	} else {
		ds.u8(2, len(shape), max, 1)
	}
	for _, n := range shape {
		ds.u64(uint64(n))
	}
	for _, n := range shape {
		if max == 1 {
			b := vh.Bytes("max", 8)
			vh.Assume(leU(b) >= uint64(n))
			ds.bytes(b)
		}
	}
	d.space = ds.b
	f := newHfile(v1)
	checkSet(openHBytes(f.root([]string{"x"}, []*hset{d})), "x", d)
	vh.Reach("checked")
}

// H_C35_fill has fill values in all their encodings, with and without filters.
func H_C35_fill() {
	d := &hset{ty: []int{tUShort, tDouble, tByte}[vh.Choose("type", tierInt(2, 3))], shape: []int{3}}
	d.raw = rawFor("x", d.ty, d.shape)
	value := rawFor("fill", d.ty, nil)
	early := byte(1 + vh.Choose("alloc", 3))
	when := early % 3
	if vh.Thorough() {
		when = vh.U8("write")
		vh.Assume(when <= 2)
	}
	some := vh.Choose("value", 2) == 1
	l := &lb{}
	old := hmsg{ty: 4, body: (&lb{}).u32(uint32(len(value))).bytes(value).b}
	none := hmsg{ty: 4, body: (&lb{}).u32(0).b}
	switch vh.Choose("kind", 8) {
	case 0: // version 1: the size is always there
		l.bytes([]byte{1, early, when, 1})
		if some {
			l.u32(uint32(len(value))).bytes(value)
		} else {
			l.u32(0)
		}
		d.fills = []hmsg{{ty: 5, body: l.b}}
	case 1:
		l.bytes([]byte{2, early, when, 1})
		if some {
			l.u32(uint32(len(value))).bytes(value)
		} else {
			l.u32(0)
		}
		d.fills = []hmsg{{ty: 5, body: l.b}}
	case 2:
		l.bytes([]byte{2, early, when, 0})
		some = false
		d.fills = []hmsg{{ty: 5, body: l.b}}
	case 3:
		flags := early | when<<2
		if some {
			l.bytes([]byte{3, flags | 0x20}).u32(uint32(len(value))).bytes(value)
		} else {
			l.bytes([]byte{3, flags})
		}
		d.fills = []hmsg{{ty: 5, body: l.b}}
	case 4:
		l.bytes([]byte{3, early | when<<2 | 0x20}).u32(0)
		some = false
		d.fills = []hmsg{{ty: 5, body: l.b}}
	case 5:
		d.fills = []hmsg{none}
		if some {
			d.fills[0] = old
		}
	case 6: // both
		some = true
		d.fills = []hmsg{old, {ty: 5, body: l.bytes([]byte{2, early, when, 1}).u32(uint32(len(value))).bytes(value).b}}
	case 7:
		some = false
		d.fills = []hmsg{}
	}
	if some {
		d.fill = value
	}
	switch vh.Choose("layout", 4) {
	case 0:
		d.absent = true
	case 1:
		d.chunk, d.absent = []int{2}, true
	case 2:
		d.chunk, d.missing = []int{2}, []bool{true, false}
	case 3:
		d.chunk, d.missing = []int{2}, []bool{false, true}
	}
	if d.chunk != nil && vh.Choose("filtered", 2) == 1 {
		d.filters = []hfilter{shuffled(tSize[d.ty])}
	}
	f := newHfile(vh.Choose("v1", 2) == 1)
	checkSet(openHBytes(f.root([]string{"x"}, []*hset{d})), "x", d)
	vh.Reach("checked")
}

// H_C35_layout has layouts of the classes that do not depend on the version of the message.
func H_C35_layout() {
	shape := [][]int{{}, {1}, {3}, {2, 3}, {5}}[vh.Choose("shape", 5)]
	d := &hset{ty: pickNum(), shape: shape, layV: 3 + vh.Choose("version", 2)}
	d.raw = rawFor("x", d.ty, shape)
	d.compact = vh.Choose("compact", 2) == 1
	d.be = vh.Choose("be", 2) == 1
	f := newHfile(vh.Choose("v1", 2) == 1)
	checkSet(openHBytes(f.root([]string{"x"}, []*hset{d})), "x", d)
	vh.Reach("checked")
}

// H_C35_pipeline has filter pipelines of both versions, with names and client data of any length.
func H_C35_pipeline() {
	d := (&chunking{[]int{3, 2}, []int{2, 2}}).set("x", tInt)
	d.filterV1 = vh.Choose("version", 2) == 0
	names := []string{"", "deflate\x00", "some filter\x00\x00\x00\x00\x00"}
	filter := func(x hfilter) hfilter {
		x.name = &names[vh.Choose("name", 3)]
		x.flags = []byte{byte(vh.Choose("optional", 2)), 0}
		for n := vh.Choose("more", 3); n > 0; n-- {
			x.cdv = append(x.cdv, leU32(vh.Bytes("cdv", 4)))
		}
		return x
	}
	switch vh.Choose("filters", 4) {
	case 0:
		d.filters = []hfilter{filter(shuffled(4))}
	case 1:
		d.filters = []hfilter{filter(deflated())}
	case 2:
		d.filters = []hfilter{filter(summed())}
	case 3:
		d.filters = []hfilter{filter(shuffled(4)), filter(deflated())}
	}
	f := newHfile(vh.Choose("v1", 2) == 1)
	checkSet(openHBytes(f.root([]string{"x"}, []*hset{d})), "x", d)
	vh.Reach("checked")
}

func leU32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

// H_C35_heap has text in global heaps, whose objects have any numbers.
func H_C35_heap() {
	u := newUfile(vh.Choose("v1", 2) == 1)
	k := vh.Choose("index", 5)
	u.h.index = func(i int) int {
		return []int{i + 1, 300 - i, 256 * (i + 1), 65535 - i, 1 + i*256}[k]
	}
	u.h.gone = []int{0, 1, 8, 13}[vh.Choose("gone", 4)]
	if k != 0 && k != 1 {
		u.h.gone = 0
	}
	u.h.same, u.h.n = !vh.Thorough(), vh.Choose("lens", 3)
	t := &utype{kind: uText, ver: 1, size: 16}
	var vals []*uval
	for i := 0; i < 3; i++ {
		vals = append(vals, t.value(u.h, "t"))
	}
	a := t.value(u.h, "a")
	m := hmsg{ty: 12, body: attrMsg(3, "a", t.encode(), dspace(), a.raw)}
	g := u.finish([]hlink{{"x", u.f.dataset(&hset{dt: t.encode(), shape: []int{3}, raw: rawOf(vals), attrs: []hmsg{m}})}})
	v, err := g.GetVariable("x")
	must(err, "GetVariable")
	vh.Assert(vh.Eq(v.Values, []string{vals[0].text, vals[1].text, vals[2].text}), "text differs")
	got, ok := v.Attributes.Get("a")
	vh.Assert(ok && vh.Eq(got, a.text), "text of an attribute differs")
	g.Close()
	vh.Reach("checked")
}

// H_C35_heaps has text of one dataset in several global heaps.
func H_C35_heaps() {
	f := newHfile(vh.Choose("v1", 2) == 1)
	t := &utype{kind: uText, ver: 1, size: 16}
	order := permuted(3)
	var refs [3][]byte
	var want []string
	same := vh.Choose("same", 2) == 1 // the same numbers in all heaps
	lens := vh.Choose("lens", 3)
	for i := 0; i < 3; i++ {
		h := &uheap{addr: f.align(), same: !vh.Thorough(), n: lens + i}
		if !same {
			h.index = func(n int) int { return n + 1 + 7*i }
		}
		v := t.value(h, "t")
		refs[order[i]] = v.raw
		want = append(want, v.text)
		b := h.encode()
		if vh.Choose("exact", 2) == 1 {
			// no free space, and nothing after the objects
			n := 16
			if v.text != "" {
				n += 16 + (len(v.text)+7)/8*8
			}
			b = append((&lb{}).str("GCOL").u8(1, 0, 0, 0).u64(uint64(n)).b, b[16:n]...)
		}
		f.raw(b)
	}
	exp := make([]string, 3)
	for i, k := range order {
		exp[k] = want[i]
	}
	raw := append(append(append([]byte(nil), refs[0]...), refs[1]...), refs[2]...)
	b := f.root([]string{"x"}, []*hset{{dt: t.encode(), shape: []int{3}, raw: raw}})
	g := openHBytes(b)
	v, err := g.GetVariable("x")
	must(err, "GetVariable")
	vh.Assert(vh.Eq(v.Values, exp), "text differs")
	g.Close()
	vh.Reach("checked")
}

// H_C35_table has symbol tables with names in any order in their heaps, and entries with anything cached.
func H_C35_table() {
	f := newHfile(true)
	f.stab.order = vh.Choose("order", 3)
	f.stab.gap = []int{0, 1, 8}[vh.Choose("gap", 3)]
	if vh.Choose("cache", 2) == 1 {
		f.stab.cache = vh.Bytes("cache", 16)
	}
	inner := &wgroup{name: "g", vars: []wvar{mkvar("x", tInt, nil, nil), mkvar("yy", tShort, []int{2}, nil)}}
	w := &wgroup{vars: []wvar{mkvar("longer_than_eight", tByte, nil, nil), mkvar("x", tInt, []int{2}, nil)}, groups: []*wgroup{inner}}
	letree(w)
	e := &etree{f: f, way: 1, leafLen: 1 + vh.Choose("leaf", 2), nodeLen: 2 + vh.Choose("node", 2)}
	g := openHBytes(f.finish(e.put(w)))
	checkGroup(g, w)
	s := subgroup(g, "g")
	checkGroup(s, inner)
	s.Close()
	g.Close()
	vh.Reach("checked")
}

// H_C35_type has numeric types in all versions of the message that the reader supports.
func H_C35_type() {
	ty := pickNum()
	be := vh.Choose("be", 2) == 1
	dt := append([]byte(nil), dtOf(ty, be)...)
	if ty != tFloat && ty != tDouble {
		dt[0] = dt[0]&15 | byte(1+vh.Choose("version", 3))<<4
	}
	d := &hset{ty: ty, be: be, dt: dt, shape: []int{2}, raw: rawFor("x", ty, []int{2})}
	m := hmsg{ty: 12, body: attrMsg(3, "a", dt, dspace(2), d.raw)}
	d.attrs = []hmsg{m}
	g := openHBytes(newHfile(vh.Choose("v1", 2) == 1).root([]string{"x"}, []*hset{d}))
	checkSet(g, "x", d)
	v, err := g.GetVariable("x")
	must(err, "GetVariable")
	checkAttrs(v.Attributes, []wattr{{name: "a", exp: decode(ty, d.raw, []int{2}, !be)}})
	vh.Reach("checked")
}

// H_C35_direct has dense groups in heaps whose root is a direct block, with and without checksums.
func H_C35_direct() {
	f := newHfile(false)
	h := []fheap{smallHeap(32), smallHeap(40), bigHeap(32), bigHeap(40)}[vh.Choose("heap", 4)]
	h.sums = vh.Choose("sums", 2) == 1
	f.dense = dense{h, 45, 20}
	n := []int{1, 2, 7}[vh.Choose("links", 3)]
	var sets []*hset
	var links []hlink
	for i := 0; i < n; i++ {
		d := &hset{ty: tInt, raw: rawFor("x", tInt, nil)}
		sets = append(sets, d)
		links = append(links, hlink{"v" + number(i), f.dataset(d)})
	}
	g := openHBytes(f.finish(f.denseGroup(links)))
	for i, d := range sets {
		checkSet(g, links[i].name, d)
	}
	vh.Assert(len(g.ListVariables()) == n, "list of variables differs")
	var _ api.Group = g
	vh.Reach("checked")
}
