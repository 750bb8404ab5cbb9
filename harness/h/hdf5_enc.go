package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/vh"
)

// An independent encoder of HDF5 files, from the HDF5 file format specification.

const undef = ^uint64(0)

// lb appends little-endian numbers.
type lb struct{ b []byte }

func (l *lb) u8(x ...int) *lb {
	for _, v := range x {
		l.b = append(l.b, byte(v))
	}
	return l
}
func (l *lb) u16(x int) *lb { return l.u8(x, x>>8) }
func (l *lb) u32(x uint32) *lb {
	l.b = append(l.b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
	return l
}
func (l *lb) u64(x uint64) *lb      { return l.u32(uint32(x)).u32(uint32(x >> 32)) }
func (l *lb) bytes(b []byte) *lb    { l.b = append(l.b, b...); return l }
func (l *lb) str(s string) *lb      { l.b = append(l.b, s...); return l }
func (l *lb) zero(n int) *lb        { l.b = append(l.b, make([]byte, n)...); return l }
func (l *lb) pad(n int) *lb         { return l.zero((n - len(l.b)%n) % n) }
func (l *lb) name(s string) *lb     { return l.str(s).u8(0) }
func (l *lb) sum() *lb              { return l.u32(lookup3(l.b)) }
func (l *lb) sumFrom(start int) *lb { return l.u32(lookup3(l.b[start:])) }
func rotl(x uint32, k uint) uint32  { return x<<k | x>>(32-k) }
func le32(b []byte, i int) uint32 {
	r := uint32(0)
	for k := 0; k < 4 && i+k < len(b); k++ {
		r |= uint32(b[i+k]) << (8 * k)
	}
	return r
}

// lookup3 is Bob Jenkins' hash, with an initial value of zero.
func lookup3(k []byte) uint32 {
	a := 0xdeadbeef + uint32(len(k))
	b, c := a, a
	i := 0
	for len(k)-i > 12 {
		a += le32(k, i)
		b += le32(k, i+4)
		c += le32(k, i+8)
		a, c = (a-c)^rotl(c, 4), c+b
		b, a = (b-a)^rotl(a, 6), a+c
		c, b = (c-b)^rotl(b, 8), b+a
		a, c = (a-c)^rotl(c, 16), c+b
		b, a = (b-a)^rotl(a, 19), a+c
		c, b = (c-b)^rotl(b, 4), b+a
		i += 12
	}
	if i == len(k) {
		return c
	}
	a += le32(k, i)
	b += le32(k, i+4)
	c += le32(k, i+8)
	c = (c ^ b) - rotl(b, 14)
	a = (a ^ c) - rotl(c, 11)
	b = (b ^ a) - rotl(a, 25)
	c = (c ^ b) - rotl(b, 16)
	a = (a ^ c) - rotl(c, 4)
	b = (b ^ a) - rotl(a, 14)
	c = (c ^ b) - rotl(b, 24)
	return c
}

// hmsg is a message of an object header.
type hmsg struct {
	ty   int
	body []byte
	co   int // creation order, where it is tracked
}

// hfile is a file being encoded. Objects are added before what refers to them.
type hfile struct {
	lb
	v1       bool // object headers of version 1, superblock of version 0
	tracked  bool // creation order of attributes is tracked
	split    int  // number of messages in the first chunk of a header, if there is a second
	nMember  int
	superLen int
	dense    dense    // how dense groups are stored
	blocks   []hblock // what has a checksum
	super    hsuper
	oh       hhead
	info     []int // flags of link info and group info messages
	stab     hstab
	vlinks   map[string]*vlink // how some links are encoded
}

// hstab has what may vary in a symbol table.
type hstab struct {
	cache []byte // scratch pad of entries that cache something
	order int    // order of the names in the heap
	gap   int    // unused bytes between them
}

// hsuper has what may vary in a superblock.
type hsuper struct {
	version int // of the superblock; 0 for the default
	set     bool
	flags   []byte // consistency flags
	k       []byte // group internal and indexed storage k
	cache   []byte // scratch pad of a root entry that caches something
	ext     uint64 // address of the extension, if not 0
	junk    int    // bytes after the end of the file
}

// hhead has what may vary in object headers.
type hhead struct {
	set    bool
	width  int    // log2 of the size of the field that has the header's size
	flags  int    // further flags
	times  []byte // if flags say so
	phase  []byte
	gap    int // unused bytes at the end
	flagAt int // the message that has this flag
	flag   byte
	msgs   []hmsg // further messages
	at     int    // where they are
	perm   []int  // order of messages
}

func newHfile(v1 bool) *hfile {
	f := &hfile{v1: v1, superLen: 48}
	if v1 {
		f.superLen = 96
	}
	f.zero(f.superLen)
	return f
}

// withSuper makes an empty file with this version of the superblock.
func withSuper(v1 bool, version int) *hfile {
	f := &hfile{v1: v1, superLen: []int{96, 100, 48, 48}[version]}
	f.super.set, f.super.version = true, version
	f.super.flags, f.super.k = make([]byte, 4), []byte{16, 0, 32, 0}
	f.zero(f.superLen)
	return f
}

func (f *hfile) align() uint64 {
	f.pad(8)
	return uint64(len(f.b))
}

// raw adds raw data.
func (f *hfile) raw(b []byte) uint64 {
	a := f.align()
	f.bytes(b)
	return a
}

// hblock is a block that ends with its checksum, but for direct blocks of heaps.
type hblock struct {
	kind    string
	at, len int
}

// covered adds a block that has a checksum.
func (f *hfile) covered(b []byte) uint64 {
	a := f.raw(b)
	f.blocks = append(f.blocks, hblock{string(b[:4]), int(a), len(b)})
	return a
}

func (f *hfile) messages(ms []hmsg) []byte {
	var l lb
	for i, m := range ms {
		flag := byte(0)
		if f.oh.set && f.oh.flagAt == i {
			flag = f.oh.flag
		}
		if f.v1 {
			body := (&lb{}).bytes(m.body).pad(8).b
			l.u16(m.ty).u16(len(body)).bytes([]byte{flag, 0, 0, 0}).bytes(body)
			continue
		}
		l.u8(m.ty).u16(len(m.body)).bytes([]byte{flag})
		if f.tracked {
			l.u16(m.co)
		}
		l.bytes(m.body)
	}
	return l.b
}

// header adds an object header.
func (f *hfile) header(ms ...hmsg) uint64 {
	if f.oh.set {
		if len(f.oh.perm) > 0 {
			r := append([]hmsg(nil), ms...)
			for i, k := range f.oh.perm {
				r[i] = ms[k]
			}
			ms = r
		}
		k := min(f.oh.at, len(ms))
		ms = append(append(append([]hmsg(nil), ms[:k]...), f.oh.msgs...), ms[k:]...)
	}
	total := len(ms)
	if f.split > 0 && f.split < len(ms) {
		rest := f.messages(ms[f.split:])
		var l lb
		var at uint64
		if f.v1 {
			at = f.raw(l.bytes(rest).b)
		} else {
			at = f.covered(l.str("OCHK").bytes(rest).sum().b)
		}
		cont := hmsg{ty: 0x10, body: (&lb{}).u64(at).u64(uint64(len(l.b))).b}
		ms = append(append([]hmsg(nil), ms[:f.split]...), cont)
		total++
	}
	body := f.messages(ms)
	var l lb
	if f.v1 {
		return f.raw(l.u8(1, 0).u16(total).u32(1).u32(uint32(len(body))).u32(0).bytes(body).b)
	}
	flags := 2
	if f.tracked {
		flags |= 4
	}
	if f.oh.set {
		body = append(body, make([]byte, f.oh.gap)...)
		flags = flags&^3 | f.oh.width | f.oh.flags
		l.str("OHDR").u8(2, flags)
		if flags&0x20 != 0 {
			l.bytes(f.oh.times)
		}
		if flags&0x10 != 0 {
			l.bytes(f.oh.phase)
		}
		n := (&lb{}).u64(uint64(len(body))).b
		return f.covered(l.bytes(n[:1<<f.oh.width]).bytes(body).sum().b)
	}
	return f.covered(l.str("OHDR").u8(2, flags).u32(uint32(len(body))).bytes(body).sum().b)
}

// finish puts in the superblock.
func (f *hfile) finish(root uint64) []byte {
	var l lb
	l.str("\x89HDF\r\n\x1a\n")
	eof := uint64(len(f.b))
	if x := f.super; x.set {
		if x.version < 2 {
			l.u8(x.version, 0, 0, 0, 0, 8, 8, 0).u16(4).bytes(x.k[:2]).bytes(x.flags)
			if x.version == 1 {
				l.bytes(x.k[2:]).u16(0)
			}
			l.u64(0).u64(undef).u64(eof).u64(undef).u64(0).u64(root)
			if x.cache == nil {
				l.u32(0).u32(0).zero(16)
			} else {
				l.u32(1).u32(0).bytes(x.cache)
			}
		} else {
			ext := undef
			if x.ext != 0 {
				ext = x.ext
			}
			l.u8(x.version, 8, 8).bytes(x.flags[:1]).u64(0).u64(ext).u64(eof).u64(root).sum()
		}
		l.bytes(f.b[f.superLen:])
		return l.zero(x.junk).b
	}
	if f.v1 {
		l.u8(0, 0, 0, 0, 0, 8, 8, 0).u16(4).u16(16).u32(0).u64(0).u64(undef).u64(eof).u64(undef)
		l.u64(0).u64(root).u32(0).u32(0).zero(16)
	} else {
		l.u8(2, 8, 8, 0).u64(0).u64(undef).u64(eof).u64(root).sum()
		f.blocks = append(f.blocks, hblock{"super", 0, 48})
	}
	return append(l.b, f.b[f.superLen:]...)
}

func openHBytes(b []byte) api.Group {
	g, err := hdf5.New(&memReader{b: b})
	must(err, "New")
	return g
}

// Datatype messages

func dtFixed(size int, signed, be bool) []byte {
	flags := 0
	if be {
		flags |= 1
	}
	if signed {
		flags |= 8
	}
	return (&lb{}).u8(0x10, flags, 0, 0).u32(uint32(size)).u16(0).u16(size * 8).b
}

func dtFloat(size int, be bool) []byte {
	l := &lb{}
	e := 0
	if be {
		e = 1
	}
	l.u8(0x11, 0x20|e, size*8-1, 0).u32(uint32(size)).u16(0).u16(size * 8)
	if size == 4 {
		return l.u8(23, 8, 0, 23).u32(127).b
	}
	return l.u8(52, 11, 0, 52).u32(1023).b
}

func dtStr(size int) []byte { return (&lb{}).u8(0x13, 0, 0, 0).u32(uint32(size)).b }

func dtOf(ty int, be bool) []byte {
	switch ty {
	case tFloat, tDouble:
		return dtFloat(tSize[ty], be)
	case tChar:
		return dtStr(1)
	}
	return dtFixed(tSize[ty], ty == tByte || ty == tShort || ty == tInt || ty == tInt64, be)
}

func dspace(shape ...int) []byte {
	l := &lb{}
	if len(shape) == 0 {
		return l.u8(2, 0, 0, 0).b
	}
	l.u8(2, len(shape), 0, 1)
	for _, n := range shape {
		l.u64(uint64(n))
	}
	return l.b
}

// dspace1 is a dataspace message of version 1, with maximum dimensions.
func dspace1(shape ...int) []byte {
	l := &lb{}
	l.u8(1, len(shape), 1, 0).u32(0)
	for _, n := range shape {
		l.u64(uint64(n))
	}
	for range shape {
		l.u64(undef)
	}
	return l.b
}

// attribute messages of versions 1 to 3
func attrMsg(version int, name string, dt, ds, data []byte) []byte {
	l := &lb{}
	l.u8(version, 0).u16(len(name) + 1).u16(len(dt)).u16(len(ds))
	if version == 3 {
		return l.u8(0).name(name).bytes(dt).bytes(ds).bytes(data).b
	}
	if version == 2 {
		return l.name(name).bytes(dt).bytes(ds).bytes(data).b
	}
	l.name(name).pad(8).bytes(dt).pad(8).bytes(ds).pad(8)
	return l.bytes(data).b
}

func linkMsg(name string, addr uint64, co int) hmsg {
	l := &lb{}
	if co >= 0 {
		l.u8(1, 4).u64(uint64(co))
	} else {
		l.u8(1, 0)
	}
	return hmsg{ty: 6, body: l.u8(len(name)).str(name).u64(addr).b}
}

// hlink is a link of a group.
type hlink struct {
	name string
	addr uint64
}

// vlink has what may vary in a link.
type vlink struct {
	width   int  // log2 of the size of the name's length
	typed   bool // the type of link is given
	ordered bool
	co      []byte
	charset int // given, if not negative
}

func (v *vlink) message(x hlink) []byte {
	flags := v.width
	if v.ordered {
		flags |= 4
	}
	if v.typed {
		flags |= 8
	}
	if v.charset >= 0 {
		flags |= 16
	}
	l := (&lb{}).u8(1, flags)
	if v.typed {
		l.u8(0)
	}
	if v.ordered {
		l.bytes(v.co)
	}
	if v.charset >= 0 {
		l.u8(v.charset)
	}
	n := (&lb{}).u64(uint64(len(x.name))).b
	return l.bytes(n[:1<<v.width]).str(x.name).u64(x.addr).b
}

// linkInfo is the body of a link info message.
func (f *hfile) linkInfo(heap, tree uint64) []byte {
	flags := 0
	if f.info != nil {
		flags = f.info[0]
	}
	l := (&lb{}).u8(0, flags)
	if flags&1 != 0 {
		l.bytes(vh.Bytes("maxindex", 8))
	}
	l.u64(heap).u64(tree)
	if flags&2 != 0 {
		l.bytes(vh.Bytes("indextree", 8))
	}
	return l.b
}

// groupInfo is the body of a group info message.
func (f *hfile) groupInfo() []byte {
	flags := 0
	if f.info != nil {
		flags = f.info[1]
	}
	l := (&lb{}).u8(0, flags)
	if flags&1 != 0 {
		l.bytes(vh.Bytes("phase", 4))
	}
	if flags&2 != 0 {
		l.bytes(vh.Bytes("estimate", 4))
	}
	return l.b
}

// group adds a group with its links in messages of the header.
func (f *hfile) group(links []hlink, attrs ...hmsg) uint64 {
	ms := []hmsg{{ty: 2, body: f.linkInfo(undef, undef)}, {ty: 10, body: f.groupInfo()}}
	for i, l := range links {
		if v := f.vlinks[l.name]; v != nil {
			ms = append(ms, hmsg{ty: 6, body: v.message(l)})
		} else {
			ms = append(ms, linkMsg(l.name, l.addr, i))
		}
	}
	return f.header(append(ms, attrs...)...)
}

// oldGroup adds a group with a symbol table, leafLen links to a leaf. The links are sorted by name.
func (f *hfile) oldGroup(links []hlink, leafLen, nodeLen int, attrs ...hmsg) uint64 {
	names := &lb{}
	names.zero(8)
	offs := make([]int, len(links))
	for k := range links {
		i := k
		if f.stab.order == 1 {
			i = len(links) - 1 - k
		} else if f.stab.order == 2 {
			i = (k + 1) % len(links)
		}
		names.zero(f.stab.gap).pad(8)
		offs[i] = len(names.b)
		names.name(links[i].name).pad(8)
	}
	data := f.raw(names.b)
	heap := f.raw((&lb{}).str("HEAP").u8(0, 0, 0, 0).u64(uint64(len(names.b))).u64(1).u64(data).b)
	type child struct {
		addr uint64
		last int // offset of the last name
	}
	var level []child
	for i := 0; i < len(links); i += leafLen {
		part := links[i:min(i+leafLen, len(links))]
		l := (&lb{}).str("SNOD").u8(1, 0).u16(len(part))
		for k, x := range part {
			l.u64(uint64(offs[i+k])).u64(x.addr)
			if f.stab.cache != nil {
				l.u32(1).u32(0).bytes(f.stab.cache)
			} else {
				l.u32(0).u32(0).zero(16)
			}
		}
		l.zero((8 - len(part)) * 40)
		level = append(level, child{f.raw(l.b), offs[i+len(part)-1]})
	}
	for n := 0; ; n++ {
		var up []child
		size := 24 + 16*max(nodeLen, len(level)) + 8
		var addrs []uint64
		start := f.align()
		for i := 0; i < len(level) || i == 0; i += nodeLen {
			addrs = append(addrs, start+uint64(len(addrs)*size))
		}
		for i := 0; i < len(level) || i == 0; i += nodeLen {
			part := level[min(i, len(level)):min(i+nodeLen, len(level))]
			left, right := undef, undef
			if i > 0 {
				left = addrs[i/nodeLen-1]
			}
			if i/nodeLen+1 < len(addrs) {
				right = addrs[i/nodeLen+1]
			}
			l := (&lb{}).str("TREE").u8(0, n).u16(len(part)).u64(left).u64(right)
			key := 0
			if i > 0 {
				key = level[i-1].last
			}
			last := key
			for _, c := range part {
				l.u64(uint64(key)).u64(c.addr)
				key = c.last
				last = c.last
			}
			l.u64(uint64(key))
			l.zero(size - len(l.b))
			f.bytes(l.b)
			up = append(up, child{addrs[i/nodeLen], last})
		}
		if len(up) == 1 {
			ms := []hmsg{{ty: 0x11, body: (&lb{}).u64(up[0].addr).u64(heap).b}}
			return f.header(append(ms, attrs...)...)
		}
		level = up
	}
}

// hset is a dataset.
type hset struct {
	ty    int // element type, if dt is nil
	be    bool
	dt    []byte
	shape []int
	ds1   bool
	space []byte // dataspace message, if not nil
	fill  []byte // fill value, nil for the default
	fillV int    // version of the fill value message: 3 (0), 2, 1, or 4 for the old message
	fills []hmsg // the messages of the fill value, if not nil
	layV  int    // version of the layout message, 3 if 0
	attrs []hmsg

	raw     []byte // the data, in row-major order
	compact bool
	absent  bool // never written

	chunk    []int // chunked, if not nil
	missing  []bool
	order    []int // order of the chunks in the file
	filters  []hfilter
	masks    []int
	leaf     int // chunks to a leaf, 0 for one leaf
	edge     []byte
	filterV1 bool
}

type hfilter struct {
	id   int
	cdv  []uint32
	hook func([]byte) []byte // changes the filtered data of a chunk

	name  *string
	flags []byte
}

func (d *hset) size() int {
	if d.dt != nil {
		return int(le32(d.dt, 4))
	}
	return tSize[d.ty]
}

func (d *hset) datatype() []byte {
	if d.dt != nil {
		return d.dt
	}
	return dtOf(d.ty, d.be)
}

// grid is the number of chunks in each dimension.
func (d *hset) grid() []int {
	g := make([]int, len(d.shape))
	for i := range g {
		g[i] = (d.shape[i] + d.chunk[i] - 1) / d.chunk[i]
	}
	return g
}

// coords turns a number into coordinates.
func coords(n int, shape []int) []int {
	r := make([]int, len(shape))
	for i := len(shape) - 1; i >= 0; i-- {
		r[i] = n % shape[i]
		n /= shape[i]
	}
	return r
}

// chunkData gives the bytes of one chunk. Those outside the dataset are 0xEE, or as given by edge.
func (d *hset) chunkData(at []int) []byte {
	size := d.size()
	var b []byte
	for i := 0; i < prod(d.chunk); i++ {
		c := coords(i, d.chunk)
		inside, k := true, 0
		for j := range c {
			p := at[j]*d.chunk[j] + c[j]
			inside = inside && p < d.shape[j]
			k = k*d.shape[j] + p
		}
		for j := 0; j < size; j++ {
			if inside {
				b = append(b, d.raw[k*size+j])
			} else {
				b = append(b, 0xee)
			}
		}
	}
	return b
}

// expected gives the data as it is to be read: with fill values where chunks are missing.
func (d *hset) expected() []byte {
	size := d.size()
	r := append([]byte(nil), d.raw...)
	fillIn := func(k int) {
		for j := 0; j < size; j++ {
			if d.fill != nil {
				r[k*size+j] = d.fill[j]
			} else {
				r[k*size+j] = 0
			}
		}
	}
	if d.absent {
		r = make([]byte, prod(d.shape)*size)
		for k := 0; k < prod(d.shape); k++ {
			fillIn(k)
		}
		return r
	}
	if d.chunk == nil {
		return r
	}
	g := d.grid()
	for k := 0; k < prod(d.shape); k++ {
		c := coords(k, d.shape)
		n := 0
		for j := range c {
			n = n*g[j] + c[j]/d.chunk[j]
		}
		if d.missing != nil && d.missing[n] {
			fillIn(k)
		}
	}
	return r
}

func (f *hfile) dataset(d *hset) uint64 {
	ds := dspace(d.shape...)
	if d.ds1 {
		ds = dspace1(d.shape...)
	}
	if d.space != nil {
		ds = d.space
	}
	ms := []hmsg{{ty: 1, body: ds}, {ty: 3, body: d.datatype()}}
	fillV := d.fillV
	if d.fills != nil {
		ms = append(ms, d.fills...)
		fillV = -1
	}
	switch fillV {
	case 0, 3:
		if d.fill != nil {
			ms = append(ms, hmsg{ty: 5, body: (&lb{}).u8(3, 0x20|2|2<<2).u32(uint32(len(d.fill))).bytes(d.fill).b})
		} else {
			ms = append(ms, hmsg{ty: 5, body: (&lb{}).u8(3, 2|2<<2).b})
		}
	case 2:
		l := (&lb{}).u8(2, 2, 2)
		if d.fill != nil {
			l.u8(1).u32(uint32(len(d.fill))).bytes(d.fill)
		} else {
			l.u8(0)
		}
		ms = append(ms, hmsg{ty: 5, body: l.b})
	case 1:
		ms = append(ms, hmsg{ty: 5, body: (&lb{}).u8(1, 2, 2, 1).u32(uint32(len(d.fill))).bytes(d.fill).b})
	case 4:
		ms = append(ms, hmsg{ty: 4, body: (&lb{}).u32(uint32(len(d.fill))).bytes(d.fill).b})
	}
	l := (&lb{}).u8(max(d.layV, 3))
	switch {
	case d.compact:
		l.u8(0).u16(len(d.raw)).bytes(d.raw)
	case d.chunk == nil:
		at := undef
		if !d.absent {
			at = f.raw(d.raw)
		}
		l.u8(1).u64(at).u64(uint64(prod(d.shape) * d.size()))
	default:
		l.u8(2, len(d.shape)+1)
		tree := undef
		if !d.absent {
			tree = f.chunks(d)
		}
		l.u64(tree)
		for _, n := range d.chunk {
			l.u32(uint32(n))
		}
		l.u32(uint32(d.size()))
	}
	ms = append(ms, hmsg{ty: 8, body: l.b})
	if len(d.filters) > 0 {
		p := &lb{}
		if d.filterV1 {
			p.u8(1, len(d.filters)).zero(6)
		} else {
			p.u8(2, len(d.filters))
		}
		for _, x := range d.filters {
			p.u16(x.id)
			name := "filter\x00\x00"
			if x.name != nil {
				name = *x.name
			}
			if d.filterV1 {
				p.u16(len(name))
			}
			if x.flags != nil {
				p.bytes(x.flags)
			} else {
				p.u16(0)
			}
			p.u16(len(x.cdv))
			if d.filterV1 {
				p.str(name)
			}
			for _, c := range x.cdv {
				p.u32(c)
			}
			if d.filterV1 && len(x.cdv)%2 == 1 {
				p.u32(0)
			}
		}
		ms = append(ms, hmsg{ty: 0xb, body: p.b})
	}
	return f.header(append(ms, d.attrs...)...)
}

// chunks adds the chunks and their B-tree.
func (f *hfile) chunks(d *hset) uint64 {
	g := d.grid()
	n := prod(g)
	type entry struct {
		size, mask int
		at         []int
		addr       uint64
	}
	entries := make([]entry, n)
	for i := 0; i < n; i++ {
		k := i
		if d.order != nil {
			k = d.order[i]
		}
		if d.missing != nil && d.missing[k] {
			continue
		}
		c := coords(k, g)
		b := d.chunkData(c)
		mask := 0
		if d.masks != nil {
			mask = d.masks[k]
		}
		for j, x := range d.filters {
			if mask>>j&1 == 0 {
				b = x.apply(b)
				if x.hook != nil {
					b = x.hook(b)
				}
			}
		}
		entries[k] = entry{len(b), mask, c, f.raw(b)}
	}
	var present []entry
	for _, e := range entries {
		if e.at != nil {
			present = append(present, e)
		}
	}
	key := func(l *lb, e entry, end bool) {
		l.u32(uint32(e.size)).u32(uint32(e.mask))
		for j, x := range e.at {
			if end {
				x++
			}
			l.u64(uint64(x * d.chunk[j]))
		}
		l.u64(0)
	}
	keyLen := 8 + 8*(len(d.shape)+1)
	type child struct {
		addr        uint64
		first, last entry
	}
	var level []child
	for _, e := range present {
		level = append(level, child{e.addr, e, e})
	}
	per := d.leaf
	if per == 0 {
		per = max(len(level), 1)
	}
	for depth := 0; ; depth++ {
		size := 24 + per*(keyLen+8) + keyLen
		var up []child
		start := f.align()
		count := (len(level) + per - 1) / per
		if count == 0 {
			count = 1
		}
		for i := 0; i < count; i++ {
			part := level[min(i*per, len(level)):min((i+1)*per, len(level))]
			left, right := undef, undef
			if i > 0 {
				left = start + uint64((i-1)*size)
			}
			if i+1 < count {
				right = start + uint64((i+1)*size)
			}
			l := (&lb{}).str("TREE").u8(1, depth).u16(len(part)).u64(left).u64(right)
			for _, c := range part {
				key(l, c.first, false)
				l.u64(c.addr)
			}
			if len(part) > 0 {
				if i*per+per < len(level) {
					key(l, level[i*per+per].first, false)
				} else {
					key(l, part[len(part)-1].last, true)
				}
			}
			l.zero(size - len(l.b))
			f.bytes(l.b)
			c := child{addr: start + uint64(i*size)}
			if len(part) > 0 {
				c.first, c.last = part[0].first, part[len(part)-1].last
			}
			up = append(up, c)
		}
		if len(up) == 1 {
			return up[0].addr
		}
		level = up
	}
}

const (
	fDeflate  = 1
	fShuffle  = 2
	fFletcher = 3
)

func (x hfilter) apply(b []byte) []byte {
	switch x.id {
	case fShuffle:
		return shuffle(b, int(x.cdv[0]))
	case fFletcher:
		return (&lb{}).bytes(b).u32(fletcherSum(b)).b
	case fDeflate:
		return zstored(b)
	}
	vh.Fail("unknown filter")
	return nil
}

// shuffle puts the first bytes of all elements first, then the second ones, and so on.
func shuffle(b []byte, size int) []byte {
	n := len(b) / size
	var r []byte
	for k := 0; k < size; k++ {
		for i := 0; i < n; i++ {
			r = append(r, b[i*size+k])
		}
	}
	return append(r, b[n*size:]...)
}

// fletcherSum is the checksum of the Fletcher-32 filter: sums modulo 65535 of big-endian
// 16-bit values, in which zero is represented by 65535 unless all values are zero.
func fletcherSum(b []byte) uint32 {
	s1, s2 := uint32(0), uint32(0)
	for i := 0; i < len(b); i += 2 {
		v := uint32(b[i]) << 8
		if i+1 < len(b) {
			v |= uint32(b[i+1])
		}
		s1 += v
		if s1 > 65535 {
			s1 -= 65535
		}
		s2 += s1
		if s2 > 65535 {
			s2 -= 65535
		}
	}
	return s2<<16 | s1
}

// fletcherLib is the HDF5 library's H5_checksum_fletcher32.
func fletcherLib(b []byte) uint32 {
	s1, s2 := uint32(0), uint32(0)
	words := len(b) / 2
	i := 0
	for words > 0 {
		n := min(words, 360)
		words -= n
		for ; n > 0; n-- {
			s1 += uint32(b[i])<<8 | uint32(b[i+1])
			s2 += s1
			i += 2
		}
		s1 = s1&0xffff + s1>>16
		s2 = s2&0xffff + s2>>16
	}
	if len(b)%2 == 1 {
		s1 += uint32(b[i]) << 8
		s2 += s1
		s1 = s1&0xffff + s1>>16
		s2 = s2&0xffff + s2>>16
	}
	s1 = s1&0xffff + s1>>16
	s2 = s2&0xffff + s2>>16
	return s2<<16 | s1
}

// zstored is a zlib stream of one stored block.
func zstored(b []byte) []byte {
	l := (&lb{}).u8(0x78, 0x01, 1).u16(len(b)).u16(^len(b)).bytes(b)
	a1, a2 := uint32(1), uint32(0)
	for _, x := range b {
		a1 = (a1 + uint32(x)) % 65521
		a2 = (a2 + a1) % 65521
	}
	s := a2<<16 | a1
	return l.u8(int(s>>24), int(s>>16&255), int(s>>8&255), int(s&255)).b
}

// hroot makes a file with the given datasets in the root group.
func (f *hfile) root(names []string, sets []*hset, attrs ...hmsg) []byte {
	var links []hlink
	for i, d := range sets {
		links = append(links, hlink{names[i], f.dataset(d)})
	}
	if f.v1 {
		return f.finish(f.oldGroup(links, 8, 32, attrs...))
	}
	return f.finish(f.group(links, attrs...))
}

func shuffled(size int) hfilter { return hfilter{id: fShuffle, cdv: []uint32{uint32(size)}} }
func deflated() hfilter         { return hfilter{id: fDeflate, cdv: []uint32{1}} }
func summed() hfilter           { return hfilter{id: fFletcher} }
