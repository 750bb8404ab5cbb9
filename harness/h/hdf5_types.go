package h

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/vh"
)

// User-defined types of HDF5 files: compound, enumerated, opaque, array and variable-length
// ones, in the encodings of datatype versions 1 to 3.

const (
	uFixed = iota
	uFloat
	uStr // fixed-length string of one character
	uOpaque
	uEnum
	uArray
	uCompound
	uVlen
	uText // variable-length string
)

type umember struct {
	name string
	off  int
	t    *utype
}

type utype struct {
	kind    int
	ver     int // version of the datatype message
	size    int
	be      bool
	signed  bool
	tag     string
	tagPad  int   // extra zeroes of the tag
	dims    []int // of arrays
	elem    *utype
	members []umember
	names   []string // of enumerations
	vals    []byte
}

func uInt(size int, signed, be bool) *utype {
	return &utype{kind: uFixed, ver: 1, size: size, signed: signed, be: be}
}

func (t *utype) encode() []byte {
	bits := func(class, b int) *lb {
		return (&lb{}).u8(t.ver<<4|class, b, b>>8, b>>16).u32(uint32(t.size))
	}
	// names are padded before version 3
	name := func(l *lb, s string) {
		n := &lb{}
		n.name(s)
		if t.ver < 3 {
			n.pad(8)
		}
		l.bytes(n.b)
	}
	switch t.kind {
	case uFixed:
		return dtFixed(t.size, t.signed, t.be)
	case uFloat:
		return dtFloat(t.size, t.be)
	case uStr:
		return dtStr(t.size)
	case uOpaque:
		tag := (&lb{}).str(t.tag).pad(8).zero(t.tagPad)
		return bits(5, len(tag.b)).bytes(tag.b).b
	case uEnum:
		l := bits(8, len(t.names)).bytes(t.elem.encode())
		for _, n := range t.names {
			name(l, n)
		}
		return l.bytes(t.vals).b
	case uArray:
		l := bits(10, 0).u8(len(t.dims))
		if t.ver < 3 {
			l.zero(3)
		}
		for _, d := range t.dims {
			l.u32(uint32(d))
		}
		if t.ver < 3 {
			for i := range t.dims {
				l.u32(uint32(i))
			}
		}
		return l.bytes(t.elem.encode()).b
	case uCompound:
		l := bits(6, len(t.members))
		for _, m := range t.members {
			name(l, m.name)
			if t.ver < 3 {
				l.u32(uint32(m.off))
			} else {
				for n, o := t.size, m.off; n > 0; n, o = n>>8, o>>8 {
					l.u8(o)
				}
			}
			if t.ver == 1 {
				// arrays are part of the member here
				e := m.t
				if e.kind == uArray {
					l.u8(len(e.dims)).zero(11)
					for i := 0; i < 4; i++ {
						n := 0
						if i < len(e.dims) {
							n = e.dims[i]
						}
						l.u32(uint32(n))
					}
					l.bytes(e.elem.encode())
					continue
				}
				l.u8(0).zero(27)
			}
			l.bytes(m.t.encode())
		}
		return l.b
	case uVlen:
		return bits(9, 0).bytes(t.elem.encode()).b
	case uText:
		return bits(9, 1).bytes(dtStr(1)).b
	}
	panic("type")
}

// gheap is a global heap collection being filled.
type gheap struct {
	objs  [][]byte
	index func(i int) int // the index of an object, if not i+1
	gone  int             // bytes of an object nothing refers to, before each other one
}

func (g *gheap) indexOf(i int) int {
	if g.index != nil {
		return g.index(i)
	}
	return i + 1
}

// put adds an object, giving its index.
func (g *gheap) put(b []byte) int {
	g.objs = append(g.objs, b)
	return g.indexOf(len(g.objs) - 1)
}

// encode gives the collection: objects, then free space.
func (g *gheap) encode() []byte {
	l := &lb{}
	l.str("GCOL").u8(1, 0, 0, 0).u64(4096)
	for i, o := range g.objs {
		if g.gone > 0 {
			l.u16(g.indexOf(i) + 100).u16(0).u32(0).u64(uint64(g.gone)).zero(g.gone).pad(8)
		}
		l.u16(g.indexOf(i)).u16(0).u32(0).u64(uint64(len(o))).bytes(o).pad(8)
	}
	l.u16(0).u16(0).u32(0).u64(uint64(4096 - len(l.b)))
	return l.zero(4096 - len(l.b)).b
}

// uval is a value of a type: its bytes in the file, and what it has to be read as.
type uval struct {
	t    *utype
	raw  []byte
	kids []*uval // members of compounds, elements of arrays and sequences
	text string
}

// uheap is where the variable-length parts of values go. Its address has to be known first.
type uheap struct {
	gheap
	addr uint64
	same bool // lengths are not chosen, but go round
	n    int
}

func (h *uheap) length(name string) int {
	if h.same {
		h.n++
		return (h.n + 1) % 3
	}
	return vh.Choose(name+"len", 3)
}

// value makes a value of any bytes. Sequences have up to two elements.
func (t *utype) value(h *uheap, name string) *uval {
	v := &uval{t: t}
	switch t.kind {
	case uArray:
		for i := 0; i < prod(t.dims); i++ {
			k := t.elem.value(h, fmt.Sprint(name, i))
			v.kids = append(v.kids, k)
			v.raw = append(v.raw, k.raw...)
		}
	case uCompound:
		v.raw = vh.Bytes(name+"pad", t.size)
		for _, m := range t.members {
			k := m.t.value(h, name+m.name)
			v.kids = append(v.kids, k)
			copy(v.raw[m.off:], k.raw)
		}
	case uVlen:
		n := h.length(name)
		var b []byte
		for i := 0; i < n; i++ {
			k := t.elem.value(h, fmt.Sprint(name, i))
			v.kids = append(v.kids, k)
			b = append(b, k.raw...)
		}
		v.raw = h.ref(n, b)
	case uText:
		n := h.length(name)
		b := vh.Bytes(name, n)
		for _, c := range b {
			vh.Assume(c != 0)
		}
		v.text = string(b)
		v.raw = h.ref(n, b)
	default:
		v.raw = vh.Bytes(name, t.size)
	}
	return v
}

// fixed makes a value of certain bytes.
func (t *utype) fixed(h *uheap) *uval {
	v := &uval{t: t}
	switch t.kind {
	case uArray:
		for i := 0; i < prod(t.dims); i++ {
			v.raw = append(v.raw, t.elem.fixed(h).raw...)
		}
	case uCompound:
		v.raw = make([]byte, t.size)
		for _, m := range t.members {
			copy(v.raw[m.off:], m.t.fixed(h).raw)
		}
	case uVlen:
		v.raw = h.ref(2, append(t.elem.fixed(h).raw, t.elem.fixed(h).raw...))
	case uText:
		v.raw = h.ref(2, []byte("ab"))
	default:
		v.raw = fixedBytes(t.size, 1)
	}
	return v
}

func (h *uheap) ref(n int, b []byte) []byte {
	if n == 0 {
		return make([]byte, 16)
	}
	return (&lb{}).u32(uint32(n)).u64(h.addr).u32(uint32(h.put(b))).b
}

// check compares what was read with the value.
func (v *uval) check(got reflect.Value) {
	for got.Kind() == reflect.Interface {
		got = got.Elem()
	}
	t := v.t
	switch t.kind {
	case uFixed, uEnum:
		e := t
		if t.kind == uEnum {
			e = t.elem
			vh.Assert(got.Kind() == reflect.Struct, "type of an enumeration")
			got = got.Field(0).Elem()
		}
		w := num(v.raw, e.be)
		if e.signed {
			vh.Assert(got.Kind() == [...]reflect.Kind{1: reflect.Int8, 2: reflect.Int16, 4: reflect.Int32, 8: reflect.Int64}[e.size], "type of an integer")
			vh.Assert(got.Int() == int64(w<<(64-8*e.size))>>(64-8*e.size), "value of an integer differs")
		} else {
			vh.Assert(got.Kind() == [...]reflect.Kind{1: reflect.Uint8, 2: reflect.Uint16, 4: reflect.Uint32, 8: reflect.Uint64}[e.size], "type of an integer")
			vh.Assert(got.Uint() == w, "value of an integer differs")
		}
	case uFloat:
		ty := tFloat
		if t.size == 8 {
			ty = tDouble
		}
		vh.Assert(vh.Eq(got.Interface(), decode(ty, v.raw, nil, !t.be)), "value of a float differs")
	case uStr:
		vh.Assert(got.Kind() == reflect.String, "type of a character")
		vh.Assert(got.String() == cstr(v.raw), "value of a string differs")
	case uOpaque:
		vh.Assert(got.Kind() == reflect.Slice && got.Len() == t.size, "length of an opaque value")
		for i, b := range v.raw {
			vh.Assert(got.Index(i).Uint() == uint64(b), "value of an opaque differs")
		}
	case uArray:
		checkArray(got, v.kids, t.dims)
	case uCompound:
		vh.Assert(got.Kind() == reflect.Slice && got.Len() == len(t.members), "number of fields")
		for i, m := range t.members {
			f := got.Index(i)
			vh.Assert(f.Kind() == reflect.Struct && f.Field(0).String() == m.name, "name of a field")
			v.kids[i].check(f.Field(1))
		}
	case uVlen:
		checkArray(got, v.kids, []int{len(v.kids)})
		if len(v.kids) == 0 && got.Kind() == reflect.Slice {
			e := got.Type().Elem()
			switch t.elem.kind {
			case uCompound, uOpaque:
				vh.Assert(e.Kind() == reflect.Slice && e.Name() != "", "type of an empty list")
			case uVlen:
				vh.Assert(e.Kind() == reflect.Slice && e.Name() == "", "type of an empty list")
			case uText:
				vh.Assert(e.Kind() == reflect.String, "type of an empty list")
			case uFloat:
				vh.Assert(e.Kind() == reflect.Float64 || e.Kind() == reflect.Float32, "type of an empty list")
			case uFixed:
				vh.Assert(int(e.Size()) == t.elem.size && (e.Kind() >= reflect.Uint8) == !t.elem.signed, "type of an empty list")
			}
		}
	case uText:
		vh.Assert(got.Kind() == reflect.String && got.String() == v.text, "value of a string differs")
	}
}

func checkEnums(got reflect.Value, kids []*uval, dims []int) {
	ints := make([]*uval, len(kids))
	for i, k := range kids {
		ints[i] = &uval{t: k.t.elem, raw: k.raw}
	}
	checkArray(got, ints, dims)
}

func cstr(b []byte) string {
	for i, c := range b {
		if c == 0 {
			return string(b[:i])
		}
	}
	return string(b)
}

// checkArray compares nested slices with the values.
func checkArray(got reflect.Value, kids []*uval, dims []int) {
	for got.Kind() == reflect.Interface {
		got = got.Elem()
	}
	if len(dims) == 0 {
		kids[0].check(got)
		return
	}
	if got.Kind() == reflect.Struct && got.NumField() == 3 && (len(kids) == 0 || kids[0].t.kind == uEnum) {
		// all the values of an enumeration come with its names
		checkEnums(got.Field(0).Elem(), kids, dims)
		return
	}
	if len(kids) > 0 && kids[0].t.kind == uStr && kids[0].t.size == 1 && got.Kind() == reflect.String {
		// characters are joined
		var raw []byte
		for _, k := range kids {
			raw = append(raw, k.raw...)
		}
		vh.Assert(got.String() == strings.TrimRight(string(raw), "\x00"), "characters differ")
		return
	}
	vh.Assert(got.Kind() == reflect.Slice && got.Len() == dims[0], "length of a list")
	if dims[0] == 0 {
		return
	}
	n := len(kids) / dims[0]
	for i := 0; i < dims[0]; i++ {
		checkArray(got.Index(i), kids[i*n:(i+1)*n], dims[1:])
	}
}

// num is the number in a field.
func num(b []byte, be bool) uint64 {
	r := uint64(0)
	for i := range b {
		if be {
			r = r<<8 | uint64(b[i])
		} else {
			r |= uint64(b[i]) << (8 * i)
		}
	}
	return r
}

// utypeFile is a file with a variable and an attribute of a type, and perhaps the named type.
type ufile struct {
	f     *hfile
	h     *uheap
	heapB int // where the heap is
}

func newUfile(v1 bool) *ufile {
	u := &ufile{f: newHfile(v1)}
	u.heapB = int(u.f.align())
	u.f.zero(4096)
	u.h = &uheap{addr: uint64(u.heapB)}
	return u
}

func (u *ufile) finish(links []hlink) api.Group { return openHBytes(u.encode(links)) }

func (u *ufile) encode(links []hlink) []byte {
	copy(u.f.b[u.heapB:], u.h.encode())
	var root uint64
	if u.f.v1 {
		root = u.f.oldGroup(links, 8, 32)
	} else {
		root = u.f.group(links)
	}
	return u.f.finish(root)
}

// committed adds a named datatype.
func (u *ufile) committed(t *utype) uint64 {
	return u.f.header(hmsg{ty: 3, body: t.encode()})
}

func rawOf(vs []*uval) []byte {
	var b []byte
	for _, v := range vs {
		b = append(b, v.raw...)
	}
	return b
}

// utypes are types of all kinds and ways to nest.
func utypes(k, ver int) *utype {
	i2, u4 := uInt(2, true, false), uInt(4, false, true)
	b1 := uInt(1, true, false)
	f8 := &utype{kind: uFloat, ver: 1, size: 8}
	op := &utype{kind: uOpaque, ver: 1, size: 3, tag: "tag"}
	arr := func(t *utype, dims ...int) *utype {
		return &utype{kind: uArray, ver: max(ver, 2), size: t.size * prod(dims), dims: dims, elem: t}
	}
	enum := func(t *utype) *utype {
		e := &utype{kind: uEnum, ver: ver, size: t.size, elem: t, names: []string{"RED", "longername", "Z"}}
		for j := 0; j < 3; j++ {
			e.vals = append(e.vals, fixedBytes(t.size, byte(3*j+1))...)
		}
		return e
	}
	comp := func(size int, m ...umember) *utype {
		return &utype{kind: uCompound, ver: ver, size: size, members: m}
	}
	vlen := func(t *utype) *utype { return &utype{kind: uVlen, ver: ver, size: 16, elem: t} }
	text := &utype{kind: uText, ver: ver, size: 16}
	switch k {
	case 0: // with padding
		return comp(16, umember{"a", 0, b1}, umember{"second", 2, i2}, umember{"c", 8, f8})
	case 1: // in another order than in the file
		return comp(8, umember{"x", 4, u4}, umember{"y", 0, i2}, umember{"z", 2, b1})
	case 2:
		return enum(b1)
	case 3:
		return enum(u4)
	case 4:
		return op
	case 5:
		return comp(12, umember{"arr", 0, arr(i2, 2, 2)}, umember{"e", 8, enum(i2)})
	case 6:
		return vlen(i2)
	case 7:
		return comp(36, umember{"v", 0, vlen(u4)}, umember{"s", 16, text}, umember{"o", 33, op})
	case 8: // nested
		in := comp(4, umember{"p", 0, i2}, umember{"q", 2, b1})
		return comp(14, umember{"in", 0, in}, umember{"ins", 4, arr(in, 2)}, umember{"end", 12, i2})
	case 9:
		return vlen(comp(4, umember{"p", 0, i2}, umember{"q", 2, b1}))
	case 10:
		return arr(i2, 2)
	case 11:
		return vlen(text)
	case 12: // text in a compound
		return comp(5, umember{"t", 0, arr(&utype{kind: uStr, ver: 1, size: 1}, 3)}, umember{"n", 3, i2})
	case 13:
		return enum(uInt(8, true, true))
	case 14:
		return vlen(vlen(b1))
	case 15:
		return comp(300, umember{"far", 298, i2}, umember{"near", 0, u4})
	}
	return arr(op, 2)
}

const nUtypes = 17

// H_C21_var: scalar and one-dimensional variables of any type.
func H_C21_var() {
	t := utypes(vh.Choose("type", nUtypes), 1+vh.Choose("version", 3))
	n := vh.Choose("n", 4) - 1
	u := newUfile(vh.Choose("v1", 2) == 1)
	var vals []*uval
	var shape []int
	if n >= 0 {
		shape = []int{n}
	}
	for i := 0; i < max(n, -n); i++ {
		vals = append(vals, t.value(u.h, fmt.Sprint("v", i)))
	}
	at := u.f.dataset(&hset{dt: t.encode(), shape: shape, raw: rawOf(vals)})
	g := u.finish([]hlink{{"x", at}})
	v, err := g.GetVariable("x")
	must(err, "GetVariable")
	got := reflect.ValueOf(v.Values)
	if t.kind == uArray {
		checkArray(got, sum2(vals), append(shape, t.dims...))
	} else if n < 0 && t.kind == uEnum {
		vals[0].check(got)
	} else {
		checkArray(got, vals, shape)
	}
	vh.Reach("read")
	g.Close()
}

// sum2 lists the elements of arrays.
func sum2(vals []*uval) []*uval {
	var r []*uval
	for _, v := range vals {
		r = append(r, v.kids...)
	}
	return r
}

// cdl describes a type, in terms of the named types but the one being described.
func (t *utype) cdl(names map[*utype]string, top bool) string {
	if n, ok := names[t]; ok && !top {
		return n
	}
	switch t.kind {
	case uFixed:
		s := [...]string{1: "byte", 2: "short", 4: "int", 8: "int64"}[t.size]
		if !t.signed {
			s = "u" + s
		}
		return s
	case uFloat:
		return [...]string{4: "float", 8: "double"}[t.size]
	case uOpaque:
		return fmt.Sprintf("opaque(%d)", t.size)
	case uEnum:
		s := t.elem.cdl(names, false) + " enum {\n"
		for i, n := range t.names {
			sep := ",\n"
			if i == len(t.names)-1 {
				sep = "\n}"
			}
			w := num(t.vals[i*t.elem.size:(i+1)*t.elem.size], t.elem.be)
			if sh := 64 - 8*uint(t.elem.size); t.elem.signed {
				s += fmt.Sprintf("\t%s = %d%s", n, int64(w<<sh)>>sh, sep)
				continue
			}
			s += fmt.Sprintf("\t%s = %d%s", n, w, sep)
		}
		return s
	case uArray:
		s := t.elem.cdl(names, false) + "("
		for i, d := range t.dims {
			if i > 0 {
				s += ","
			}
			s += fmt.Sprint(d)
		}
		return s + ")"
	case uCompound:
		s := "compound {\n"
		for _, m := range t.members {
			s += "\t" + m.t.cdl(names, false) + " " + m.name + ";\n"
		}
		return s + "}"
	case uVlen:
		return t.elem.cdl(names, false) + "(*)"
	}
	return "string"
}

// H_C21_named: named types are listed, described, and recognised where they are used.
func H_C21_named() {
	ver := 1 + vh.Choose("version", 3)
	k := vh.Choose("type", nUtypes)
	t := utypes(k, ver)
	vh.Assume(t.kind != uArray)
	u := newUfile(vh.Choose("v1", 2) == 1)
	u.h.same = true
	names := map[*utype]string{t: "b_t"}
	wrap := &utype{kind: uCompound, ver: ver, size: t.size + 2, members: []umember{{"w", 0, t}, {"n", t.size, uInt(2, false, false)}}}
	list := &utype{kind: uVlen, ver: ver, size: 16, elem: wrap}
	links := []hlink{{"b_t", u.committed(t)}}
	wrapped := vh.Choose("wrapped", 2) == 1
	if wrapped {
		names[wrap] = "w_t"
		links = append(links, hlink{"w_t", u.committed(wrap)})
	}
	var vals []*uval
	for _, x := range []struct {
		n string
		t *utype
	}{{"x", t}, {"y", wrap}, {"z", list}} {
		v := x.t.value(u.h, x.n)
		vals = append(vals, v)
		links = append(links, hlink{x.n, u.f.dataset(&hset{dt: x.t.encode(), shape: []int{1}, raw: v.raw})})
	}
	g := u.finish(links)
	want := []string{"b_t"}
	if wrapped {
		want = append(want, "w_t")
	}
	vh.Assert(sameSet(g.ListTypes(), want), "list of types differs")
	vh.Assert(sameSet(g.ListVariables(), []string{"x", "y", "z"}), "list of variables differs")
	got, ok := g.GetType("b_t")
	vh.Assert(ok && got == t.cdl(names, true), "description of a type differs")
	got, ok = g.GetType("w_t")
	vh.Assert(ok == wrapped && (!ok || got == wrap.cdl(names, true)), "description of a type differs")
	_, ok = g.GetType("x")
	vh.Assert(!ok, "a variable is described as a type")
	gt, ok := g.GetGoType("b_t")
	vh.Assert(ok && oneSpace(gt) == "type b_t "+t.golang(names, true, "b_t"), "Go description of a type differs")
	for i, tt := range []*utype{t, wrap, list} {
		n := string(rune('x' + i))
		vg, err := g.GetVarGetter(n)
		must(err, "GetVarGetter")
		vh.Assert(vg.Type() == tt.cdl(names, false), "type of a variable differs")
		vh.Assert(oneSpace(vg.GoType()) == tt.golang(names, false, n), "Go type of a variable differs")
		v, err := g.GetVariable(n)
		must(err, "GetVariable")
		checkArray(reflect.ValueOf(v.Values), vals[i:i+1], []int{1})
	}
	vh.Reach("described")
	g.Close()
}

// H_C21_attr: attributes of any type.
func H_C21_attr() {
	t := utypes(vh.Choose("type", nUtypes), 1+vh.Choose("version", 3))
	n := vh.Choose("n", 4) - 1
	vh.Assume(n != 0 && (n > 0 || t.kind != uVlen))
	vh.Assume(t.kind != uArray)
	u := newUfile(vh.Choose("v1", 2) == 1)
	var vals []*uval
	var shape []int
	if n >= 0 {
		shape = []int{n}
	}
	for i := 0; i < max(n, -n); i++ {
		vals = append(vals, t.value(u.h, fmt.Sprint("v", i)))
	}
	av := 1 + 2*vh.Choose("attribute version", 2)
	m := hmsg{ty: 12, body: attrMsg(av, "att", t.encode(), dspace(shape...), rawOf(vals))}
	at := u.f.dataset(&hset{ty: tByte, shape: []int{1}, raw: []byte{1}, attrs: []hmsg{m}})
	g := u.finish([]hlink{{"x", at}})
	vg, err := g.GetVarGetter("x")
	must(err, "GetVarGetter")
	a := vg.Attributes()
	vh.Assert(sameStrings(a.Keys(), []string{"att"}), "attributes differ")
	x, ok := a.Get("att")
	vh.Assert(ok, "no attribute")
	got := reflect.ValueOf(x)
	if n == 1 {
		shape = nil
	}
	checkArray(got, vals, shape)
	ty, ok := a.GetType("att")
	suffix := ""
	if n > 1 {
		suffix = "(*)"
	}
	vh.Assert(ok && ty == t.cdl(nil, false)+suffix, "type of an attribute differs")
	vh.Reach("read")
	g.Close()
}

// H_C21_slice: slices of variables of any type are parts of them.
func H_C21_slice() {
	t := utypes(vh.Choose("type", nUtypes), 1+vh.Choose("version", 3))
	vh.Assume(t.kind != uArray)
	u := newUfile(false)
	u.h.same = !vh.Thorough()
	var vals []*uval
	for i := 0; i < 3; i++ {
		vals = append(vals, t.value(u.h, fmt.Sprint("v", i)))
	}
	at := u.f.dataset(&hset{dt: t.encode(), shape: []int{3}, raw: rawOf(vals)})
	g := u.finish([]hlink{{"x", at}})
	vg, err := g.GetVarGetter("x")
	must(err, "GetVarGetter")
	b := vh.Choose("b", 3)
	e := b + 1 + vh.Choose("n", 3-b)
	var x any
	if vh.Choose("md", 2) == 1 {
		x, err = vg.GetSliceMD([]int64{int64(b)}, []int64{int64(e)})
	} else {
		x, err = vg.GetSlice(int64(b), int64(e))
	}
	must(err, "slice")
	checkArray(reflect.ValueOf(x), vals[b:e], []int{e - b})
	vh.Reach("read")
	g.Close()
}

// golang describes a type in Go, in terms of the named types but the one being described.
// An enumeration has constants of the type that is asked for.
func (t *utype) golang(names map[*utype]string, top bool, name string) string {
	if n, ok := names[t]; ok && !top {
		return n
	}
	switch t.kind {
	case uFixed:
		s := fmt.Sprint("int", 8*t.size)
		if !t.signed {
			s = "u" + s
		}
		return s
	case uFloat:
		return fmt.Sprint("float", 8*t.size)
	case uOpaque:
		return fmt.Sprintf("[%d]uint8", t.size)
	case uEnum:
		s := t.elem.golang(names, false, name) + " const ("
		for i, n := range t.names {
			ty := ""
			if i == 0 {
				ty = name + " "
			}
			s += fmt.Sprintf(" %s %s= %d", n, ty, num(t.vals[i*t.elem.size:(i+1)*t.elem.size], t.elem.be))
		}
		return s + " )"
	case uArray:
		s := ""
		for _, d := range t.dims {
			s += fmt.Sprintf("[%d]", d)
		}
		return s + t.elem.golang(names, false, name)
	case uCompound:
		s := "struct {"
		for _, m := range t.members {
			s += " " + m.name + " " + m.t.golang(names, false, name)
		}
		return s + " }"
	case uVlen:
		return "[]" + t.elem.golang(names, false, name)
	}
	return "string"
}

func oneSpace(s string) string { return strings.Join(strings.Fields(s), " ") }

// H_C21_many: more types than a search among all orders of them can deal with, some
// made of others, and two of them the same.
func H_C21_many() {
	n := tierInt(14, 24)
	ver := 1 + vh.Choose("version", 3)
	nested := vh.Choose("nested", 2) == 1
	u := newUfile(vh.Choose("v1", 2) == 1)
	u.h.same = true
	names := map[*utype]string{}
	var ts []*utype
	var links []hlink
	for i := 0; i < n; i++ {
		t := &utype{kind: uCompound, ver: ver, size: 4, members: []umember{{fmt.Sprint("m", i), 0, uInt(4, true, false)}}}
		if nested && i > 0 && i%3 != 0 {
			t.members = append(t.members, umember{"in", 4, ts[i-1]})
			t.size += ts[i-1].size
		}
		ts = append(ts, t)
		names[t] = fmt.Sprintf("t%02d", i)
		links = append(links, hlink{names[t], u.committed(t)})
	}
	links = append(links, hlink{"u", u.committed(ts[n-1])}) // the same as another
	k := vh.Choose("which", n)
	val := ts[k].value(u.h, "x")
	links = append(links, hlink{"x", u.f.dataset(&hset{dt: ts[k].encode(), shape: []int{1}, raw: val.raw})})
	g := u.finish(links)
	vh.Assert(len(g.ListTypes()) == n+1, "list of types differs")
	for i, t := range ts {
		got, ok := g.GetType(names[t])
		vh.Assert(ok && got == t.cdl(names, true), "description of a type differs")
		if i == k {
			got, ok = g.GetGoType(names[t])
			vh.Assert(ok && oneSpace(got) == "type "+names[t]+" "+t.golang(names, true, names[t]), "Go description of a type differs")
		}
	}
	got, ok := g.GetType("u")
	vh.Assert(ok && got == ts[n-1].cdl(names, true), "description of a type differs")
	vg, err := g.GetVarGetter("x")
	must(err, "GetVarGetter")
	vh.Assert(vg.Type() == names[ts[k]] && vg.GoType() == names[ts[k]], "type of a variable differs")
	v, err := g.GetVariable("x")
	must(err, "GetVariable")
	checkArray(reflect.ValueOf(v.Values), []*uval{val}, []int{1})
	vh.Reach("described")
	g.Close()
}

// H_C21_wide has compounds of sizes that take one to four bytes.
func H_C21_wide() {
	size := []int{255, 256, 65535, 65536, 70000}[vh.Choose("size", 5)]
	ver := 1 + vh.Choose("version", 3)
	t := &utype{kind: uCompound, ver: ver, size: size, members: []umember{{"far", size - 2, uInt(2, true, false)}, {"near", 0, uInt(4, false, true)}}}
	u := newUfile(false)
	val := t.value(u.h, "x")
	g := u.finish([]hlink{{"x", u.f.dataset(&hset{dt: t.encode(), shape: nil, raw: val.raw})}})
	v, err := g.GetVariable("x")
	must(err, "GetVariable")
	checkArray(reflect.ValueOf(v.Values), []*uval{val}, nil)
	vh.Reach("read")
	g.Close()
}

// H_C21_members: enumerations of one or many members, with long names.
func H_C21_members() {
	n := []int{1, 2, 255, 256, 300}[vh.Choose("members", 5)]
	ver := 1 + vh.Choose("version", 3)
	base := uInt(1<<vh.Choose("size", 4), vh.Choose("signed", 2) == 1, vh.Choose("be", 2) == 1)
	vh.Assume(n < 3 || base.size == 2)
	e := &utype{kind: uEnum, ver: ver, size: base.size, elem: base}
	long := strings.Repeat("n", []int{0, 5, 200}[vh.Choose("name", 3)])
	vh.Assume(n < 3 || long == "")
	for i := 0; i < n; i++ {
		e.names = append(e.names, "M"+long+number(i+1))
		for j := 0; j < e.size; j++ {
			e.vals = append(e.vals, byte(i>>(8*min(j, e.size-1-j))+i))
		}
	}
	u := newUfile(false)
	count := vh.Choose("n", 3)
	var shape []int
	if count > 0 {
		shape = []int{count}
	}
	var vals []*uval
	for i := range max(count, 1) {
		vals = append(vals, e.value(u.h, fmt.Sprint("v", i)))
	}
	m := hmsg{ty: 12, body: attrMsg(1+vh.Choose("attribute version", 3), "att", e.encode(), dspace(shape...), rawOf(vals))}
	g := u.finish([]hlink{{"x", u.f.dataset(&hset{dt: e.encode(), shape: shape, raw: rawOf(vals), attrs: []hmsg{m}})}})
	v, err := g.GetVariable("x")
	must(err, "GetVariable")
	if count == 0 {
		vals[0].check(reflect.ValueOf(v.Values))
	} else {
		checkArray(reflect.ValueOf(v.Values), vals, shape)
	}
	x, ok := v.Attributes.Get("att")
	vh.Assert(ok, "no attribute")
	if count < 2 {
		vals[0].check(reflect.ValueOf(x))
	} else {
		checkArray(reflect.ValueOf(x), vals, shape)
	}
	ty, ok := v.Attributes.GetType("att")
	suffix := ""
	if count > 1 {
		suffix = "(*)"
	}
	vh.Assert(ok && ty == e.cdl(nil, false)+suffix, "type of an attribute differs")
	vg, err := g.GetVarGetter("x")
	must(err, "GetVarGetter")
	vh.Assert(vg.Type() == e.cdl(nil, false), "type of a variable differs")
	vh.Reach("read")
	g.Close()
}
