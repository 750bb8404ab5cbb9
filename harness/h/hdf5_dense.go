package h

import "github.com/batchatco/go-native-netcdf/vh"

// Fractal heaps and version 2 B-trees of dense groups and attributes.

// fheap describes a fractal heap.
type fheap struct {
	start, maxDirect int  // sizes of blocks
	bits             int  // of heap offsets: 32 or 40
	sums             bool // direct blocks have checksums
}

func smallHeap(bits int) fheap { return fheap{start: 64, maxDirect: 128, bits: bits, sums: true} }
func bigHeap(bits int) fheap   { return fheap{start: 512, maxDirect: 65536, bits: bits, sums: true} }

func log2i(n int) int {
	r := 0
	for n > 1 {
		n >>= 1
		r++
	}
	return r
}

// rowSize is the size of the blocks in a row of the doubling table.
func (h fheap) rowSize(row int) int {
	if row < 2 {
		return h.start
	}
	return h.start << (row - 1)
}

// directRows is the number of rows that have direct blocks.
func (h fheap) directRows() int { return log2i(h.maxDirect) - log2i(h.start) + 2 }

// rowsOf is the number of rows of an indirect block that covers this size.
func (h fheap) rowsOf(size int) int { return log2i(size) - log2i(h.start*4) + 1 }

// fblock is a direct block.
type fblock struct {
	off, size int
	used      int
	body      []byte
	addr      uint64
}

type fid struct{ off, n int }

func (h fheap) head() int {
	n := 4 + 1 + 8 + h.bits/8
	if h.sums {
		n += 4
	}
	return n
}

// blocks lists the direct blocks of an indirect block, up to some number of rows.
func (h fheap) blocks(off, rows int) []*fblock {
	var r []*fblock
	for row := 0; row < rows; row++ {
		for c := 0; c < 4; c++ {
			size := h.rowSize(row)
			if row < h.directRows() {
				r = append(r, &fblock{off: off, size: size})
			} else {
				r = append(r, h.blocks(off, h.rowsOf(size))...)
			}
			off += size
		}
	}
	return r
}

// heap adds a fractal heap with the objects, and gives their places in it.
func (f *hfile) heap(h fheap, objs [][]byte, idLen int) (uint64, []fid) {
	rows := 1
	var bl []*fblock
	var ids []fid
fill:
	for ; ; rows++ {
		bl = h.blocks(0, rows)
		ids = nil
		k := 0
		for _, o := range objs {
			for {
				if k == len(bl) {
					continue fill
				}
				b := bl[k]
				if b.used == 0 {
					b.used = h.head()
				}
				if b.used+len(o) <= b.size {
					ids = append(ids, fid{b.off + b.used, len(o)})
					b.body = append(b.body, o...)
					b.used += len(o)
					break
				}
				k++
			}
		}
		break
	}
	header := f.align()
	f.zero(146)
	nUsed := 0
	for _, b := range bl {
		b.addr = undef
		if len(b.body) == 0 {
			continue
		}
		nUsed++
		l := (&lb{}).str("FHDB").u8(0).u64(header).bytes(heapOff(b.off, h.bits))
		if h.sums {
			// The checksum is that of the block with zero in its place.
			all := (&lb{}).bytes(l.b).u32(0).bytes(b.body)
			all.zero(b.size - len(all.b))
			l.u32(lookup3(all.b))
		}
		l.bytes(b.body)
		l.zero(b.size - len(l.b))
		if h.sums {
			b.addr = f.covered(l.b)
		} else {
			b.addr = f.raw(l.b)
		}
	}
	root := bl[0].addr
	rootRows := 0
	if nUsed > 1 || len(bl[0].body) == 0 {
		rootRows = rows
		var put func(off, rows int) uint64
		put = func(off, rows int) uint64 {
			l := (&lb{}).str("FHIB").u8(0).u64(header).bytes(heapOff(off, h.bits))
			for row := 0; row < rows; row++ {
				for c := 0; c < 4; c++ {
					size := h.rowSize(row)
					child := undef
					for _, b := range bl {
						if b.off >= off && b.off < off+size && b.addr != undef {
							if row < h.directRows() {
								child = b.addr
							} else {
								child = put(off, h.rowsOf(size))
								break
							}
						}
					}
					l.u64(child)
					off += size
				}
			}
			return f.covered(l.sum().b)
		}
		root = put(0, rows)
	}
	flags := 0
	if h.sums {
		flags = 2
	}
	l := (&lb{}).str("FRHP").u8(0).u16(idLen).u16(0).u8(flags).u32(4096).u64(0).u64(undef)
	l.u64(0).u64(undef).u64(uint64(h.start)).u64(uint64(h.start)).u64(0).u64(uint64(len(objs)))
	l.zero(32).u16(4).u64(uint64(h.start)).u64(uint64(h.maxDirect)).u16(h.bits).u16(1).u64(root).u16(rootRows).sum()
	copy(f.b[header:], l.b)
	f.blocks = append(f.blocks, hblock{"FRHP", int(header), len(l.b)})
	return header, ids
}

func heapOff(off, bits int) []byte {
	l := (&lb{}).u64(uint64(off))
	return l.b[:bits/8]
}

// btree2 adds a version 2 B-tree; the records are sorted. Leaves have up to leaf records,
// internal nodes up to inner records.
func (f *hfile) btree2(ty int, recs [][]byte, leaf, inner int) uint64 {
	size := len(recs[0])
	capacity := func(depth int) int {
		n := leaf
		for ; depth > 0; depth-- {
			n = inner + (inner+1)*n
		}
		return n
	}
	depth := 0
	for capacity(depth) < len(recs) {
		depth++
	}
	// put gives the address and the number of records in the node itself
	var put func(recs [][]byte, depth int) (uint64, int)
	put = func(recs [][]byte, depth int) (uint64, int) {
		if depth == 0 {
			l := (&lb{}).str("BTLF").u8(0, ty)
			for _, r := range recs {
				l.bytes(r)
			}
			return f.covered(l.sum().b), len(recs)
		}
		// the fewest children that hold all records
		n := 1
		for n+(n+1)*capacity(depth-1) < len(recs) {
			n++
		}
		for n+1+(n+2)*capacity(depth-1) <= len(recs) {
			n++
		}
		l := (&lb{}).str("BTIN").u8(0, ty)
		var kids lb
		rest := recs
		for i := 0; i <= n; i++ {
			k := (len(rest) - (n - i)) / (n - i + 1)
			addr, nr := put(rest[:k], depth-1)
			kids.u64(addr).u8(nr)
			if depth > 1 {
				kids.u16(k)
			}
			if i < n {
				l.bytes(rest[k])
				rest = rest[k+1:]
			}
		}
		return f.covered(l.bytes(kids.b).sum().b), n
	}
	root, n := put(recs, depth)
	l := (&lb{}).str("BTHD").u8(0, ty).u32(512).u16(size).u16(depth).u8(100, 40).u64(root).u16(n).u64(uint64(len(recs))).sum()
	return f.covered(l.b)
}

func sortRecs(recs [][]byte, hashAt int) {
	less := func(a, b []byte) bool { return le32(a, hashAt) < le32(b, hashAt) }
	for i := range recs {
		for j := i; j > 0 && less(recs[j], recs[j-1]); j-- {
			recs[j], recs[j-1] = recs[j-1], recs[j]
		}
	}
}

// dense describes how dense links and attributes are stored.
type dense struct {
	h           fheap
	leaf, inner int
}

// denseLinks adds links in a heap, giving the body of the link info message.
func (f *hfile) denseLinks(d dense, links []hlink) []byte {
	if len(links) == 0 {
		return f.linkInfo(undef, undef)
	}
	var objs [][]byte
	for _, l := range links {
		if v := f.vlinks[l.name]; v != nil {
			objs = append(objs, v.message(l))
		} else {
			objs = append(objs, linkMsg(l.name, l.addr, -1).body)
		}
	}
	heap, ids := f.heap(d.h, objs, 7)
	var recs [][]byte
	for i, l := range links {
		r := (&lb{}).u32(lookup3([]byte(l.name))).u8(0).u32(uint32(ids[i].off))
		recs = append(recs, r.u16(ids[i].n).b)
	}
	sortRecs(recs, 0)
	return f.linkInfo(heap, f.btree2(5, recs, d.leaf, d.inner))
}

// denseAttrs adds attributes in a heap, giving the attribute info message.
func (f *hfile) denseAttrs(d dense, names []string, msgs []hmsg) hmsg {
	var objs [][]byte
	for _, m := range msgs {
		objs = append(objs, m.body)
	}
	heap, ids := f.heap(d.h, objs, 8)
	var recs [][]byte
	for i, m := range msgs {
		r := (&lb{}).u8(0).u32(uint32(ids[i].off)).u8(0).u16(ids[i].n)
		recs = append(recs, r.u8(0).u32(uint32(m.co)).u32(lookup3([]byte(names[i]))).b)
	}
	sortRecs(recs, 13)
	return hmsg{ty: 0x15, body: (&lb{}).u8(0, 0).u64(heap).u64(f.btree2(8, recs, d.leaf, d.inner)).b}
}

// denseGroup adds a group whose links are in a heap.
func (f *hfile) denseGroup(links []hlink, attrs ...hmsg) uint64 {
	d := f.dense
	if d.leaf == 0 {
		d = dense{bigHeap(32), 45, 20}
	}
	ms := []hmsg{{ty: 2, body: f.denseLinks(d, links)}, {ty: 10, body: f.groupInfo()}}
	return f.header(append(ms, attrs...)...)
}

// h12dense has n attributes in a heap, of the root group or of a dataset.
func h12dense(n int) {
	f := newHfile(false)
	d := dense{[]fheap{smallHeap(40), bigHeap(40)}[vh.Choose("heap", 2)], 45, 20}
	d.h.sums = vh.Choose("sums", 2) == 1
	switch vh.Choose("tree", 3) {
	case 1:
		d.leaf, d.inner = 3, 2
	case 2:
		d.leaf, d.inner = 2, 1
	}
	back := vh.Choose("order", 2) == 1
	var as []wattr
	var names []string
	var msgs []hmsg
	for i := 0; i < n; i++ {
		name := "attribute_" + string(rune('a'+i%26)) + string(rune('a'+i/26))
		m, a := leAttr(3, name, []int{tShort, tInt, tByte}[i%3], 1+i%2)
		m.co = i
		if back {
			m.co = n - 1 - i
			as = append([]wattr{a}, as...)
		} else {
			as = append(as, a)
		}
		names = append(names, name)
		msgs = append(msgs, m)
	}
	x := &hset{ty: tInt, raw: rawFor("x", tInt, nil)}
	var root uint64
	if vh.Choose("who", 2) == 0 {
		root = f.group([]hlink{{"x", f.dataset(x)}}, f.denseAttrs(d, names, msgs))
	} else {
		x.attrs = []hmsg{f.denseAttrs(d, names, msgs)}
		root = f.group([]hlink{{"x", f.dataset(x)}})
	}
	g := openHBytes(f.finish(root))
	attrs := g.Attributes()
	checkSet(g, "x", x)
	if x.attrs != nil {
		v, err := g.GetVariable("x")
		must(err, "GetVariable")
		attrs = v.Attributes
	}
	checkAttrs(attrs, as)
	g.Close()
	vh.Reach("checked")
}

// H_C12_dense has attributes in fractal heaps of one and more blocks,
// nested ones too, indexed by B-trees of one and more levels.
func H_C12_dense() {
	h12dense([]int{1, 8, 24, 90}[vh.Choose("attributes", tierInt(3, 4))])
}
