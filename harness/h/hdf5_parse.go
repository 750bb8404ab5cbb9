package h

import (
	"github.com/batchatco/go-native-netcdf/vh"
)

// This reads HDF5 files as the format specification (version 3.0) defines them,
// as far as a writer of contiguous datasets needs, and checks all that the
// specification demands. It has nothing in common with the reader of the
// repository.

type hextent struct {
	from, to uint64
	what     string
}

type hdtype struct {
	class   int
	size    int
	be      bool
	signed  bool
	strPad  int
	vlenStr bool
	base    *hdtype
	names   []string
	members []*hdtype
	offsets []int
	vals    []byte // of the members of enumerations
	dims    []int  // of arrays
}

type hspace struct {
	scalar bool
	null   bool
	dims   []int
}

func (s hspace) count() int {
	if s.null {
		return 0
	}
	return prod(s.dims)
}

type hattribute struct {
	name string
	dt   *hdtype
	ds   hspace
	data []byte
}

type hlinkTo struct {
	name string
	addr uint64
}

// hobj is an object header.
type hobj struct {
	addr     uint64
	links    []hlinkTo
	attrs    []hattribute
	dt       *hdtype
	ds       hspace
	data     []byte
	hasSpace bool
	isData   bool
	isGroup  bool
}

func (o *hobj) link(name string) (uint64, bool) {
	for _, l := range o.links {
		if l.name == name {
			return l.addr, true
		}
	}
	return 0, false
}

func (o *hobj) attr(name string) *hattribute {
	for i := range o.attrs {
		if o.attrs[i].name == name {
			return &o.attrs[i]
		}
	}
	return nil
}

type hparser struct {
	b     []byte
	used  []hextent
	objs  map[uint64]*hobj
	heaps map[uint64]map[int][]byte
	root  uint64
}

func (p *hparser) bytes(at uint64, n int) []byte {
	vh.Assert(n >= 0 && at <= uint64(len(p.b)) && uint64(n) <= uint64(len(p.b))-at, "address outside of the file")
	return p.b[at : at+uint64(n)]
}

func (p *hparser) use(at uint64, n int, what string) {
	p.bytes(at, n)
	for _, u := range p.used {
		vh.Assert(n == 0 || u.from == u.to || at >= u.to || at+uint64(n) <= u.from, what+" overlaps "+u.what)
	}
	p.used = append(p.used, hextent{at, at + uint64(n), what})
}

// lr reads numbers in little-endian order.
type lr struct {
	b  []byte
	at int
}

func (r *lr) take(n int) []byte {
	vh.Assert(n >= 0 && r.at+n <= len(r.b), "something is longer than the message it is in")
	r.at += n
	return r.b[r.at-n : r.at]
}
func (r *lr) num(n int) int {
	x := 0
	for i, c := range r.take(n) {
		x |= int(c) << (8 * i)
	}
	return x
}

// name is a name in a datatype.
func (r *lr) name(ver int) string {
	name := []byte{}
	for c := r.take(1); c[0] != 0; c = r.take(1) {
		name = append(name, c[0])
	}
	if ver < 3 {
		r.take(7 - len(name)%8)
	}
	return string(name)
}

func (r *lr) addr() uint64 {
	x := uint64(0)
	for i, c := range r.take(8) {
		x |= uint64(c) << (8 * i)
	}
	return x
}
func (r *lr) is(x int, n int, what string) { vh.Assert(r.num(n) == x, what) }
func (r *lr) sig(s, what string)           { vh.Assert(string(r.take(len(s))) == s, what) }

func (p *hparser) sum(block []byte, what string) {
	n := len(block) - 4
	vh.Assert(b32(block[n:], true) == lookup3(block[:n]), "checksum of "+what+" is wrong")
}

func parseHdf5(b []byte) *hparser {
	p := &hparser{b: b, objs: map[uint64]*hobj{}, heaps: map[uint64]map[int][]byte{}}
	p.use(0, 48, "superblock")
	r := &lr{b: b[:48]}
	r.sig("\x89HDF\r\n\x1a\n", "signature is wrong")
	v := r.num(1)
	vh.Assert(v == 2 || v == 3, "superblock version")
	r.is(8, 1, "size of addresses")
	r.is(8, 1, "size of lengths")
	r.is(0, 1, "file is marked as open")
	vh.Assert(r.addr() == 0, "base address is wrong")
	vh.Assert(r.addr() == undef, "superblock extension")
	vh.Assert(r.addr() == uint64(len(b)), "end of file address is wrong")
	p.root = r.addr()
	p.sum(b[:48], "the superblock")
	return p
}

// object reads the object header at an address.
func (p *hparser) object(addr uint64) *hobj {
	if o, ok := p.objs[addr]; ok {
		return o
	}
	o := &hobj{addr: addr}
	p.objs[addr] = o
	r := &lr{b: p.b}
	p.bytes(addr, 6)
	r.at = int(addr)
	r.sig("OHDR", "no object header at its address")
	r.is(2, 1, "object header version")
	flags := r.num(1)
	vh.Assert(flags&0xc0 == 0, "object header flags")
	if flags&0x20 != 0 {
		r.take(16)
	}
	if flags&0x10 != 0 {
		r.take(4)
	}
	size := r.num(1 << (flags & 3))
	end := r.at + size
	p.use(addr, end+4-int(addr), "object header")
	p.sum(p.b[addr:end+4], "an object header")
	head := 4
	if flags&4 != 0 {
		head = 6
	}
	null := false
	for end-r.at >= head {
		ty, n := r.num(1), r.num(2)
		mf := r.num(1)
		vh.Assert(mf&0x80 == 0, "message flags")
		r.take(head - 4)
		vh.Assert(r.at+n <= end, "message is longer than its header")
		null = null || ty == 0
		p.message(o, ty, r.take(n), mf&2 != 0)
	}
	vh.Assert(r.at == end || null, "gap at the end of the messages")
	vh.Assert(!o.isData || !o.isGroup, "object is both group and dataset")
	vh.Assert(o.isData || o.isGroup, "object is neither group nor dataset")
	if o.isData {
		vh.Assert(o.dt != nil && o.hasSpace, "dataset without datatype or dataspace")
		vh.Assert(len(o.data) == o.ds.count()*o.dt.size, "size of the data is not that of its datatype and dataspace")
	}
	for i, l := range o.links {
		for _, m := range o.links[:i] {
			vh.Assert(l.name != m.name, "two links with one name")
		}
	}
	for i, a := range o.attrs {
		for _, m := range o.attrs[:i] {
			vh.Assert(a.name != m.name, "two attributes with one name")
		}
	}
	return o
}

func (p *hparser) message(o *hobj, ty int, body []byte, shared bool) {
	vh.Assert(!shared, "shared message")
	r := &lr{b: body}
	exact := true
	switch ty {
	case 0:
		exact = false
	case 1:
		vh.Assert(!o.hasSpace, "two dataspaces")
		o.ds, o.hasSpace = p.dataspace(r), true
	case 2:
		o.isGroup = true
		r.is(0, 1, "link info version")
		f := r.num(1)
		vh.Assert(f&^3 == 0, "link info flags")
		if f&1 != 0 {
			r.take(8)
		}
		vh.Assert(r.addr() == undef && r.addr() == undef, "dense links")
		if f&2 != 0 {
			vh.Assert(r.addr() == undef, "dense links")
		}
	case 3:
		vh.Assert(o.dt == nil, "two datatypes")
		o.dt = p.datatype(r)
	case 5:
		exact = false
	case 6:
		o.links = append(o.links, p.linkMsg(r))
	case 8:
		vh.Assert(!o.isData, "two layouts")
		o.isData = true
		r.is(3, 1, "layout version")
		r.is(1, 1, "layout class")
		at, n := r.addr(), r.addr()
		if n > 0 || at != undef {
			vh.Assert(n <= uint64(len(p.b)), "data is longer than the file")
			p.use(at, int(n), "data")
			o.data = p.bytes(at, int(n))
		}
	case 10:
		r.is(0, 1, "group info version")
		f := r.num(1)
		vh.Assert(f&^3 == 0, "group info flags")
		if f&1 != 0 {
			r.take(4)
		}
		if f&2 != 0 {
			r.take(4)
		}
	case 12:
		o.attrs = append(o.attrs, p.attribute(r))
	case 21:
		r.is(0, 1, "attribute info version")
		exact = false
	default:
		vh.Fail("message of an unexpected type")
	}
	vh.Assert(!exact || r.at == len(body), "length of a message is wrong")
}

func (p *hparser) linkMsg(r *lr) hlinkTo {
	r.is(1, 1, "link version")
	f := r.num(1)
	vh.Assert(f&^0x1f == 0, "link flags")
	if f&8 != 0 {
		r.is(0, 1, "link is not a hard link")
	}
	if f&4 != 0 {
		r.take(8)
	}
	if f&16 != 0 {
		vh.Assert(r.num(1) <= 1, "character set")
	}
	name := string(r.take(r.num(1 << (f & 3))))
	vh.Assert(len(name) > 0, "link without a name")
	return hlinkTo{name, r.addr()}
}

func (p *hparser) dataspace(r *lr) hspace {
	v := r.num(1)
	vh.Assert(v == 1 || v == 2, "dataspace version")
	rank, f := r.num(1), r.num(1)
	vh.Assert(rank <= 32, "rank of a dataspace")
	s := hspace{scalar: rank == 0}
	if v == 1 {
		r.take(5)
		vh.Assert(f&^1 == 0, "dataspace flags")
	} else {
		ty := r.num(1)
		vh.Assert(ty <= 2 && f&^1 == 0, "dataspace type or flags")
		s.null = ty == 2
		vh.Assert((ty == 0) == (rank == 0) || ty == 2, "dataspace type is not that of its rank")
	}
	for range rank {
		s.dims = append(s.dims, r.num(8))
	}
	if f&1 != 0 {
		for _, d := range s.dims {
			m := r.addr()
			vh.Assert(m == undef || m >= uint64(d), "maximum dimension is less than the dimension")
		}
	}
	return s
}

func (p *hparser) datatype(r *lr) *hdtype {
	cv := r.num(1)
	t := &hdtype{class: cv & 15}
	ver := cv >> 4
	vh.Assert(ver >= 1 && ver <= 3, "datatype version")
	bits := r.num(3)
	t.size = r.num(4)
	vh.Assert(t.size > 0, "datatype of size zero")
	switch t.class {
	case 0:
		t.be, t.signed = bits&1 != 0, bits&8 != 0
		vh.Assert(bits&^9 == 0, "bits of an integer type")
		r.is(0, 2, "bit offset")
		r.is(t.size*8, 2, "precision of an integer")
	case 1:
		t.be = bits&1 != 0
		vh.Assert(bits&0x40 == 0 && bits&0x30 == 0x20, "bits of a floating-point type")
		vh.Assert(bits>>8 == t.size*8-1, "place of the sign")
		r.is(0, 2, "bit offset")
		r.is(t.size*8, 2, "precision of a float")
		e, m, bias := 8, 23, 127
		if t.size == 8 {
			e, m, bias = 11, 52, 1023
		}
		vh.Assert(t.size == 4 || t.size == 8, "size of a float")
		r.is(m, 1, "exponent location")
		r.is(e, 1, "exponent size")
		r.is(0, 1, "mantissa location")
		r.is(m, 1, "mantissa size")
		r.is(bias, 4, "exponent bias")
	case 3:
		t.strPad = bits & 15
		vh.Assert(t.strPad <= 2 && bits>>4 <= 1, "bits of a string type")
	case 6:
		at := 0
		for range bits & 0xffff {
			name := r.name(ver)
			nb := 4
			if ver == 3 {
				nb = 1
				for t.size>>(8*nb) > 0 {
					nb++
				}
			}
			off := r.num(nb)
			if ver == 1 {
				r.take(28)
			}
			m := p.datatype(r)
			vh.Assert(off >= at && off+m.size <= t.size, "members of a compound overlap")
			at = off + m.size
			t.names, t.members, t.offsets = append(t.names, name), append(t.members, m), append(t.offsets, off)
		}
	case 5:
		r.take(bits & 0xff)
	case 7:
		vh.Assert(bits&15 == 0 && t.size == 8, "reference type")
	case 8:
		t.base = p.datatype(r)
		vh.Assert(t.base.class == 0 && t.base.size == t.size, "base type of an enumeration")
		n := bits & 0xffff
		vh.Assert(n > 0, "enumeration without members")
		for range n {
			t.names = append(t.names, r.name(ver))
		}
		t.vals = r.take(n * t.size)
	case 10:
		vh.Assert(ver >= 2, "version of an array type")
		n := r.num(1)
		if ver == 2 {
			r.take(3)
		}
		all := 1
		for range n {
			d := r.num(4)
			all *= d
			t.dims = append(t.dims, d)
		}
		if ver == 2 {
			r.take(4 * n)
		}
		t.base = p.datatype(r)
		vh.Assert(n > 0 && t.size == all*t.base.size, "size of an array type")
	case 9:
		t.vlenStr = bits&15 == 1
		vh.Assert(bits&15 <= 1 && t.size == 16, "variable-length type")
		t.base = p.datatype(r)
	default:
		vh.Fail("datatype of an unexpected class")
	}
	return t
}

func (p *hparser) attribute(r *lr) hattribute {
	v := r.num(1)
	vh.Assert(v >= 1 && v <= 3, "attribute version")
	r.is(0, 1, "attribute flags")
	nn, nt, ns := r.num(2), r.num(2), r.num(2)
	if v == 3 {
		vh.Assert(r.num(1) <= 1, "character set")
	}
	part := func(n int) []byte {
		b := r.take(n)
		if v == 1 {
			r.take((8 - n%8) % 8)
		}
		return b
	}
	name := part(nn)
	vh.Assert(nn > 1 && name[nn-1] == 0, "name of an attribute")
	var a hattribute
	a.name = string(name[:nn-1])
	tr := &lr{b: part(nt)}
	a.dt = p.datatype(tr)
	vh.Assert(tr.at == nt, "length of an attribute's datatype")
	sr := &lr{b: part(ns)}
	a.ds = p.dataspace(sr)
	vh.Assert(sr.at == ns, "length of an attribute's dataspace")
	vh.Assert(len(a.ds.dims) <= 1, "attribute with more than one dimension")
	a.data = r.take(a.ds.count() * a.dt.size)
	return a
}

// heapObject is the object a reference in a global heap stands for.
func (p *hparser) heapObject(addr uint64, idx int) []byte {
	h, ok := p.heaps[addr]
	if !ok {
		h = map[int][]byte{}
		p.heaps[addr] = h
		r := &lr{b: p.bytes(addr, 16)}
		r.sig("GCOL", "no global heap at its address")
		r.is(1, 1, "global heap version")
		r.take(3)
		size := r.num(8)
		vh.Assert(size >= 4096, "global heap is smaller than the minimum")
		p.use(addr, size, "global heap")
		r = &lr{b: p.bytes(addr, size), at: 16}
		for len(r.b)-r.at >= 16 {
			i := r.num(2)
			rc := r.num(2)
			r.take(4)
			n := r.num(8)
			if i == 0 {
				vh.Assert(r.at-16+n == len(r.b), "free space of a global heap")
				r.at = len(r.b)
				break
			}
			vh.Assert(rc <= 1, "reference count")
			_, twice := h[i]
			vh.Assert(!twice, "two objects of a global heap with one number")
			h[i] = r.take(n)
			r.take((8 - n%8) % 8)
		}
		vh.Assert(len(r.b)-r.at < 16, "objects of a global heap")
	}
	b, ok := h[idx]
	vh.Assert(ok, "object isn't in its global heap")
	return b
}

// vlen gives what an element of variable length stands for, and its length.
func (p *hparser) vlen(b []byte) ([]byte, int) {
	r := &lr{b: b}
	n, addr, idx := r.num(4), r.addr(), r.num(4)
	if n == 0 {
		return nil, 0
	}
	return p.heapObject(addr, idx), n
}

// str gives the string at an element of a string type.
func (p *hparser) str(t *hdtype, b []byte) string {
	if t.class == 9 {
		vh.Assert(t.vlenStr, "strings are not marked as strings")
		o, n := p.vlen(b)
		vh.Assert(n <= len(o), "string is longer than what is in the heap")
		return string(o[:n])
	}
	vh.Assert(t.class == 3, "not a string type")
	n := len(b)
	for n > 0 && t.strPad != 2 && b[n-1] == 0 {
		n--
	}
	return string(b[:n])
}

var hSigned = map[int]bool{tByte: true, tShort: true, tInt: true, tInt64: true}

// checkData compares data with a value of a numeric type or of strings.
func (p *hparser) checkData(t *hdtype, data []byte, count int, ty int, raw []byte, val any, what string) {
	if ty == tChar || raw == nil {
		p.checkStrings(t, data, count, val, what)
		return
	}
	vh.Assert(t.size == tSize[ty], "size of the type of "+what)
	if ty == tFloat || ty == tDouble {
		vh.Assert(t.class == 1, "type of "+what+" is not floating-point")
	} else {
		vh.Assert(t.class == 0 && t.signed == hSigned[ty], "type of "+what+" is not that integer type")
	}
	vh.Assert(count*t.size == len(raw), "number of values of "+what)
	vh.Assert(vh.Eq(decode(ty, data, []int{count}, !t.be), decode(ty, raw, []int{count}, false)), what+" differs in the file")
}

func flatten(val any) []string {
	switch x := val.(type) {
	case string:
		return []string{x}
	case []string:
		return x
	case [][]string:
		var r []string
		for _, y := range x {
			r = append(r, y...)
		}
		return r
	}
	vh.Fail("harness: not strings")
	return nil
}

func (p *hparser) checkStrings(t *hdtype, data []byte, count int, val any, what string) {
	ss := flatten(val)
	vh.Assert(count == len(ss), "number of strings of "+what)
	for i, s := range ss {
		vh.Assert(p.str(t, data[i*t.size:(i+1)*t.size]) == s, what+" differs in the file")
	}
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// checkAttributes compares attributes, other than those that make dimensions.
func (p *hparser) checkAttributes(o *hobj, as []wattr, more ...string) {
	i := 0
	for _, a := range o.attrs {
		if has(more, a.name) {
			continue
		}
		vh.Assert(i < len(as) && a.name == as[i].name, "attributes of an object differ")
		p.checkData(a.dt, a.data, a.ds.count(), as[i].ty, as[i].raw, as[i].val, "attribute")
		i++
	}
	vh.Assert(i == len(as), "attributes of an object are missing")
}

// checkScale checks that an object is the dimension scale of a dimension.
func (p *hparser) checkScale(o *hobj, n int) {
	c := o.attr("CLASS")
	vh.Assert(c != nil && p.str(c.dt, c.data) == "DIMENSION_SCALE", "dimension without a dimension scale")
	nm := o.attr("NAME")
	vh.Assert(nm != nil && len(p.str(nm.dt, nm.data)) > 0, "dimension scale without a name")
	vh.Assert(len(o.ds.dims) == 1 && o.ds.dims[0] == n, "dimension scale has another length")
}

var scaleAttrs = []string{"CLASS", "NAME", "_Netcdf4Dimid", "REFERENCE_LIST", "DIMENSION_LIST", "_Netcdf4Coordinates"}

const hiddenName = "_nc4_non_coord_"

// checkFile compares the file with the tree it was made from.
func (p *hparser) checkFile(w *wgroup, vattrs map[string][]wattr) {
	root := p.object(p.root)
	dims := w.dims(nil)
	var group func(o *hobj, w *wgroup, path string)
	group = func(o *hobj, w *wgroup, path string) {
		vh.Assert(o.isGroup, "group is not a group")
		n := len(w.vars) + len(w.groups)
		p.checkAttributes(o, w.attrs, "_NCProperties")
		for _, v := range w.vars {
			name := v.name
			scale := len(v.dims) == 1 && v.dims[0] == v.name && path == ""
			if path == "" && !scale && isDim(dims, name) {
				name = hiddenName + name
			}
			addr, ok := o.link(name)
			vh.Assert(ok, "variable is not in its group")
			d := p.object(addr)
			vh.Assert(d.isData, "variable is not a dataset")
			p.checkAttributes(d, vattrs[path+"/"+v.name], scaleAttrs...)
			if v.shape != nil {
				vh.Assert(sameInts(d.ds.dims, v.shape), "shape of a variable differs")
			}
			p.checkData(d.dt, d.data, d.ds.count(), v.ty, v.raw, v.val, "variable")
			if scale {
				p.checkScale(d, v.shape[0])
				continue
			}
			p.checkDims(root, d, v)
		}
		for _, s := range w.groups {
			addr, ok := o.link(s.name)
			vh.Assert(ok, "group is not in its group")
			group(p.object(addr), s, path+"/"+s.name)
		}
		for _, d := range dims {
			if path != "" {
				break
			}
			if v := findVar(w, d.name); v == nil || len(v.dims) != 1 || v.dims[0] != d.name {
				n++
			}
			addr, ok := o.link(d.name)
			vh.Assert(ok, "dimension is not in the file")
			p.checkScale(p.object(addr), int(d.n))
		}
		vh.Assert(len(o.links) == n, "number of objects in a group differs")
	}
	group(root, w, "")
	p.checkIDs(root, dims)
	end := uint64(0)
	for _, u := range p.used {
		end = max(end, u.to)
	}
	vh.Assert(end <= uint64(len(p.b)) && uint64(len(p.b))-end < 8, "unused space at the end of the file")
	vh.Reach("checked")
}

// checkIDs checks that dimensions have numbers of their own, where they have numbers.
func (p *hparser) checkIDs(root *hobj, dims []wdim) {
	seen := map[int]bool{}
	for _, d := range dims {
		addr, _ := root.link(d.name)
		a := p.object(addr).attr("_Netcdf4Dimid")
		if a == nil {
			continue
		}
		vh.Assert(a.dt.class == 0 && a.dt.size == 4 && a.ds.count() == 1, "_Netcdf4Dimid isn't a number")
		id := int(leU(a.data[:4]))
		vh.Assert(id >= 0 && id < len(dims) && !seen[id], "_Netcdf4Dimid is used twice, or out of range")
		seen[id] = true
	}
	vh.Assert(len(seen) == 0 || len(seen) == len(dims), "dimensions without _Netcdf4Dimid")
}

func isDim(dims []wdim, name string) bool {
	for _, d := range dims {
		if d.name == name {
			return true
		}
	}
	return false
}

func findVar(w *wgroup, name string) *wvar {
	for i := range w.vars {
		if w.vars[i].name == name {
			return &w.vars[i]
		}
	}
	return nil
}

// checkDims checks that a variable refers to the scales of its dimensions.
func (p *hparser) checkDims(root, d *hobj, v wvar) {
	a := d.attr("DIMENSION_LIST")
	if len(v.dims) == 0 {
		vh.Assert(a == nil, "scalar with dimensions")
		return
	}
	vh.Assert(a != nil, "variable without its dimensions")
	vh.Assert(a.dt.class == 9 && !a.dt.vlenStr && a.dt.base.class == 7, "type of DIMENSION_LIST")
	vh.Assert(sameInts(a.ds.dims, []int{len(v.dims)}), "length of DIMENSION_LIST")
	for i, name := range v.dims {
		o, n := p.vlen(a.data[16*i : 16*i+16])
		vh.Assert(n == 1 && len(o) >= 8, "entry of DIMENSION_LIST")
		addr := (&lr{b: o}).addr()
		scale, ok := root.link(name)
		vh.Assert(ok && scale == addr, "DIMENSION_LIST refers to something else than the dimension's scale")
	}
}

func structural(w *wgroup, vattrs map[string][]wattr) {
	w.walk("", func(path string, g *wgroup) {
		for i := range g.vars {
			if as := vattrs[path+"/"+g.vars[i].name]; as != nil {
				g.vars[i].attrs = attrMap(as)
			}
		}
	})
	b := readFile(writeHdf5(w))
	parseHdf5(b).checkFile(w, vattrs)
}

func H_C14_single() {
	shape := shapes1[vh.Choose("shape", len(shapes1))]
	structural(hvars([]wvar{mkvar("x", pickNum(), shape, dimNames("d", len(shape)))}), nil)
}

// H_C14_trees has groups.
func H_C14_trees() {
	structural(mktree(trees[vh.Choose("tree", len(trees))], vh.Choose("vars", 3)), nil)
}

// H_C14_names has any names, and lengths of names.
func H_C14_names() {
	w := hvars([]wvar{mkvar("v", tShort, []int{2}, []string{"DD"}), mkvar("w", tShort, []int{2}, []string{"EEE"})})
	n := []int{1, 2, 3, 4, 5, 6, 7, 8, 254, 255, 256}[vh.Choose("length", 11)]
	name := make([]byte, n)
	for i := range name {
		name[i] = 'n'
	}
	first := vh.U8("first")
	vh.Assume(first >= 'a' && first <= 'u')
	name[0] = first
	switch vh.Choose("what", 4) {
	case 0:
		w.vars[0].name = string(name)
	case 1:
		w.vars[0].dims = []string{string(name)}
	case 2:
		w.groups = []*wgroup{{name: string(name)}}
	case 3:
		a := mkattr("t", tShort, 2)
		a.name = string(name)
		w.attrs = []wattr{a}
	}
	structural(w, nil)
}

// H_C14_coord has coordinate variables, and others named like dimensions.
func H_C14_coord() {
	all := []wvar{
		mkvar("lat", tDouble, []int{2}, []string{"lat"}),
		mkvar("temp", pickNum(), []int{2, 3}, []string{"lat", "lon"}),
	}
	switch vh.Choose("lon", 4) {
	case 0:
		all = append(all, mkvar("lon", tFloat, []int{3}, []string{"lon"}))
	case 1:
		all = append(all, mkvar("lon", tFloat, nil, nil))
	case 2:
		all = append(all, mkvar("lon", tShort, []int{2, 3}, []string{"lat", "lon"}))
	}
	var v []wvar
	for _, k := range permuted(len(all)) {
		v = append(v, all[k])
	}
	w := hvars(v)
	if vh.Choose("groups", 2) == 1 {
		w.groups = []*wgroup{{name: "g", vars: []wvar{mkvar("lon", tInt, []int{3}, []string{"lon"}), mkvar("time", tByte, []int{4}, []string{"time"})}}}
	}
	structural(w, nil)
}

// H_C14_strings has text in variables.
func H_C14_strings() {
	var v wvar
	switch vh.Choose("kind", 4) {
	case 0:
		v = tvar("s", text("s", vh.Choose("len", tierInt(10, 40))))
	case 1:
		v = tvar("s", texts("s", 3, 2), "d")
		v.shape = []int{3}
	case 2:
		v = tvar("s", [][]string{texts("s", 2, 1), texts("t", 2, 1)}, "d", "e")
		v.shape = []int{2, 2}
	case 3:
		v = tvar("s", []string{text("s", vh.Choose("len", tierInt(18, 40))), "", text("t", 1)}, "d")
		v.shape = []int{3}
	}
	structural(hvars([]wvar{v, mkvar("n", tInt, []int{2}, []string{"nn"}), tvar("t", text("z", 2))}), nil)
}

// H_C14_attrs has attributes of all types, anywhere.
func H_C14_attrs() {
	ty := vh.Choose("type", 12)
	n := attrLens[vh.Choose("len", len(attrLens))]
	if ty == tStrings {
		vh.Assume(n <= 2)
	}
	as := []wattr{hattr("att", ty, n), mkattr("b", tShort, -1)}
	w := &wgroup{vars: []wvar{mkvar("x", tShort, []int{2}, []string{"x"}), mkvar("v", tInt, []int{2}, []string{"x"})},
		groups: []*wgroup{{name: "g", vars: []wvar{mkvar("v", tInt, nil, nil)}}}}
	va := map[string][]wattr{}
	switch vh.Choose("where", 5) {
	case 0:
		w.attrs = as
	case 1:
		w.groups[0].attrs = as
	case 2:
		va["/x"] = as
	case 3:
		va["/v"] = as
	case 4:
		va["/g/v"] = as
	}
	structural(w, va)
}

// H_C14_ragged has variable-length data.
func H_C14_ragged() {
	a, b := vh.Choose("n", 4), vh.Choose("n", 4)
	x := [][]int16{deep1(a), deep1(b)}
	fn := writeHdf5(hvars([]wvar{{name: "r", val: x, dims: []string{"d"}}, mkvar("v", tInt, []int{2}, []string{"d"})}))
	p := parseHdf5(readFile(fn))
	root := p.object(p.root)
	addr, _ := root.link("r")
	o := p.object(addr)
	vh.Assert(o.dt.class == 9 && !o.dt.vlenStr && o.dt.base.class == 0 && o.dt.base.size == 2 && o.dt.base.signed, "type of variable-length data")
	vh.Assert(sameInts(o.ds.dims, []int{2}), "shape of variable-length data")
	for i, e := range x {
		h, n := p.vlen(o.data[16*i : 16*i+16])
		vh.Assert(n == len(e) && len(h) >= 2*n, "length of variable-length data")
		for j := range e {
			k := int16(uint16(h[2*j]) | uint16(h[2*j+1])<<8)
			if o.dt.base.be {
				k = int16(uint16(h[2*j+1]) | uint16(h[2*j])<<8)
			}
			vh.Assert(k == e[j], "variable-length data differs in the file")
		}
	}
	p.checkDims(root, o, wvar{dims: []string{"d"}})
	vh.Reach("checked")
}

// H_C14_large has global heaps of more than the minimum size, and many objects.
func H_C14_large() {
	n := []int{100, 300}[vh.Choose("n", 2)]
	var ss []string
	for i := range n {
		ss = append(ss, "string "+number(i)+" of many")
	}
	ss[n/2] = text("s", 3)
	v := tvar("s", ss, "d")
	v.shape = []int{n}
	w := hvars([]wvar{v})
	for i := range 20 {
		w.vars = append(w.vars, mkvar("v"+number(i), tByte, []int{i%3 + 1}, []string{"dim" + number(i)}))
	}
	structural(w, nil)
}

// H_C14_empty has dimensions of length zero, and empty files.
func H_C14_empty() {
	w := &wgroup{}
	switch vh.Choose("kind", 4) {
	case 1:
		shape := [][]int{{0}, {2, 0}, {3, 2, 0}}[vh.Choose("shape", 3)]
		w.vars = []wvar{mkvar("e", pickNum(), shape, dimNames("d", len(shape)))}
	case 2:
		w.groups = []*wgroup{{name: "g"}}
	case 3:
		v := tvar("s", []string{}, "d")
		v.shape = []int{0}
		w.vars = []wvar{v, mkvar("a", tInt, nil, nil)}
	}
	structural(w, nil)
}

// HT_C14_many has many variables and attributes.
func HT_C14_many() {
	w := &wgroup{}
	va := map[string][]wattr{}
	start := vh.Choose("start", len(numTypes))
	for i := range 40 {
		shape := shapes1[(start+i*2)%8]
		name := "v" + number(i+1)
		w.vars = append(w.vars, mkvar(name, numTypes[(start+i)%len(numTypes)], shape, dimNames(name+"d", len(shape))))
		for j := range i % 4 {
			va["/"+name] = append(va["/"+name], hattr("a"+number(j+1), 1+(i+j)%11, 1+j))
		}
	}
	structural(w, va)
}

// HT_C14_pair has two variables over the same or different dimensions.
func HT_C14_pair() {
	names := map[int]string{1: "one", 2: "two", 3: "three"}
	mk := func(name string) wvar {
		s := shapes1[vh.Choose("shape", 10)]
		var d []string
		for i, n := range s {
			if names[n] == "" {
				d = append(d, name+string(rune('a'+i)))
				continue
			}
			d = append(d, names[n])
		}
		return mkvar(name, pickNum(), s, d)
	}
	structural(hvars([]wvar{mk("b"), mk("a")}), nil)
}
