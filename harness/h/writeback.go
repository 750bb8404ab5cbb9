package h

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/vh"
)

// Values of user-defined types which are read from one file and written to another.

// sameDeep compares two values: their types, and all that is in them.
func sameDeep(a, b reflect.Value) {
	for a.Kind() == reflect.Interface && b.Kind() == reflect.Interface {
		a, b = a.Elem(), b.Elem()
	}
	vh.Assert(a.Kind() == b.Kind() && a.Type() == b.Type(), "type differs")
	switch a.Kind() {
	case reflect.Slice:
		vh.Assert(a.Len() == b.Len(), "length differs")
		for i := 0; i < a.Len(); i++ {
			sameDeep(a.Index(i), b.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			sameDeep(a.Field(i), b.Field(i))
		}
	case reflect.String:
		vh.Assert(a.String() == b.String(), "string differs")
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		vh.Assert(a.Int() == b.Int(), "integer differs")
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		vh.Assert(a.Uint() == b.Uint(), "integer differs")
	case reflect.Float32, reflect.Float64:
		vh.Assert(vh.Eq(a.Interface(), b.Interface()), "float differs")
	default:
		vh.Fail("value of an unexpected kind")
	}
}

// noZeroes assumes that there are no characters of zero in texts: those are at the end of
// the strings which these are written as.
func noZeroes(v reflect.Value) {
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			noZeroes(v.Index(i))
		}
	case reflect.Struct:
		if !isEnum(v) {
			noZeroes(v.Field(1))
		}
	case reflect.String:
		for _, c := range []byte(v.String()) {
			vh.Assume(c != 0)
		}
	}
}

func isEnum(v reflect.Value) bool { return v.Kind() == reflect.Struct && v.NumField() == 3 }

// isLeaf tells whether the value is of a named slice type.
func isLeaf(v reflect.Value) bool { return v.Kind() == reflect.Slice && v.Type().Name() != "" }

// checkIn compares a value with what is in the file where it should be.
func (p *hparser) checkIn(t *hdtype, data []byte, v reflect.Value) {
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	vh.Assert(len(data) == t.size, "size of a value in the file")
	switch {
	case isEnum(v) && t.class == 10:
		p.checkArr(t.base, t.dims, data, v)
	case isEnum(v):
		p.checkMembers(t, v)
		p.checkIn(t.base, data, v.Field(0))
	case isLeaf(v) && v.Type().Elem().Kind() == reflect.Uint8:
		vh.Assert(t.class == 5 && t.size == v.Len(), "opaque value has another type in the file")
		for i := range data {
			vh.Assert(uint64(data[i]) == v.Index(i).Uint(), "opaque value differs in the file")
		}
	case isLeaf(v):
		vh.Assert(t.class == 6 && len(t.names) == v.Len(), "compound has another type in the file")
		for i, m := range t.members {
			f := v.Index(i)
			vh.Assert(t.names[i] == f.Field(0).String(), "name of a member differs in the file")
			at := t.offsets[i]
			p.checkIn(m, data[at:at+m.size], f.Field(1))
		}
	case v.Kind() == reflect.Slice:
		vh.Assert(t.class == 9 && !t.vlenStr, "list has another type in the file")
		o, n := p.vlen(data)
		vh.Assert(n == v.Len() && len(o) == n*t.base.size, "length of a list differs in the file")
		for i := 0; i < n; i++ {
			p.checkIn(t.base, o[i*t.base.size:(i+1)*t.base.size], v.Index(i))
		}
	case v.Kind() == reflect.String:
		vh.Assert(p.str(t, data) == v.String(), "string differs in the file")
	case v.Kind() == reflect.Float32 || v.Kind() == reflect.Float64:
		vh.Assert(t.class == 1 && t.size == int(v.Type().Size()), "float has another type in the file")
		b := num(data, t.be)
		if t.size == 4 {
			vh.Assert(vh.Eq(math.Float32frombits(uint32(b)), v.Interface()), "float differs in the file")
		} else {
			vh.Assert(vh.Eq(math.Float64frombits(b), v.Interface()), "float differs in the file")
		}
	default:
		vh.Assert(t.class == 0 && t.size == int(v.Type().Size()), "integer has another type in the file")
		b := num(data, t.be)
		if t.signed {
			vh.Assert(v.Kind() < reflect.Uint && v.Int() == int64(b<<(64-8*t.size))>>(64-8*t.size), "integer differs in the file")
		} else {
			vh.Assert(v.Kind() > reflect.Uint && v.Uint() == b, "integer differs in the file")
		}
	}
}

// checkMembers compares the names and values of an enumeration with its type in the file.
func (p *hparser) checkMembers(t *hdtype, v reflect.Value) {
	names, vals := v.Field(1), v.Field(2)
	vh.Assert(t.class == 8 && len(t.names) == names.Len(), "enumeration has another type in the file")
	for i, n := range t.names {
		vh.Assert(names.Index(i).String() == n, "name in an enumeration differs in the file")
		p.checkIn(t.base, t.vals[i*t.size:(i+1)*t.size], vals.Index(i))
	}
}

// checkArr compares a dataset or an array with what is in the file.
func (p *hparser) checkArr(t *hdtype, dims []int, data []byte, v reflect.Value) {
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if isEnum(v) {
		p.checkMembers(t, v)
		p.checkArr(t.base, dims, data, v.Field(0))
		return
	}
	if len(dims) == 0 {
		p.checkIn(t, data, v)
		return
	}
	vh.Assert(v.Kind() == reflect.Slice && v.Len() == dims[0], "shape differs in the file")
	for i := 0; i < dims[0]; i++ {
		n := len(data) / dims[0]
		p.checkArr(t, dims[1:], data[i*n:(i+1)*n], v.Index(i))
	}
}

// wtypes are more types, which nest those of variable length in each other.
func wtypes(k, ver int) *utype {
	if k < nUtypes {
		return utypes(k, ver)
	}
	i2, b1 := uInt(2, true, false), uInt(1, true, false)
	op := &utype{kind: uOpaque, ver: 1, size: 3, tag: "tag"}
	arr := func(t *utype, dims ...int) *utype {
		return &utype{kind: uArray, ver: max(ver, 2), size: t.size * prod(dims), dims: dims, elem: t}
	}
	enum := func(t *utype) *utype {
		return &utype{kind: uEnum, ver: ver, size: t.size, elem: t, names: []string{"RED", "longername"}, vals: fixedBytes(2*t.size, 5)}
	}
	comp := func(size int, m ...umember) *utype {
		return &utype{kind: uCompound, ver: ver, size: size, members: m}
	}
	vlen := func(t *utype) *utype { return &utype{kind: uVlen, ver: ver, size: 16, elem: t} }
	text := &utype{kind: uText, ver: ver, size: 16}
	switch k - nUtypes {
	case 0:
		return vlen(comp(34, umember{"s", 0, text}, umember{"v", 16, vlen(i2)}, umember{"p", 32, i2}))
	case 1:
		return comp(33, umember{"v", 0, vlen(comp(18, umember{"s", 2, text}, umember{"p", 0, i2}))}, umember{"e", 16, vlen(enum(i2))}, umember{"b", 32, b1})
	case 2:
		return comp(30, umember{"e", 0, arr(enum(i2), 2, 2)}, umember{"in", 8, comp(19, umember{"o", 0, vlen(op)}, umember{"b", 16, b1})}, umember{"f", 28, enum(b1)})
	case 3:
		return vlen(enum(i2))
	case 4:
		return vlen(op)
	case 5:
		return comp(42, umember{"a", 0, arr(comp(18, umember{"v", 0, vlen(b1)}, umember{"p", 16, i2}), 2)}, umember{"o", 36, arr(op, 2)})
	case 6:
		return comp(32, umember{"t", 0, arr(text, 2)})
	case 7:
		return vlen(vlen(vlen(b1)))
	}
	return vlen(vlen(text))
}

const nWtypes = nUtypes + 9

// goesBack writes values to a file and reads them from it. Both times they're looked for,
// in the bytes of the file and through the reader.
func goesBack(vars []api.Variable, attrs api.AttributeMap) (api.Group, *hparser) {
	fn := vh.TempFile("back.nc")
	w, err := hdf5.OpenWriter(fn)
	must(err, "OpenWriter")
	for i, v := range vars {
		must(w.AddVar("v"+number(i+1), v), "AddVar")
	}
	if attrs != nil {
		must(w.AddAttributes(attrs), "AddAttributes")
	}
	must(w.Close(), "Close")
	g := openHdf5(fn)
	for i, v := range vars {
		got, err := g.GetVariable("v" + number(i+1))
		must(err, "GetVariable")
		sameDeep(reflect.ValueOf(v.Values), reflect.ValueOf(got.Values))
		vh.Assert(sameStrings(v.Dimensions, got.Dimensions), "dimensions differ")
	}
	p := parseHdf5(readFile(fn))
	root := p.object(p.root)
	for i, v := range vars {
		addr, ok := root.link("v" + number(i+1))
		vh.Assert(ok, "variable is not in the file")
		o := p.object(addr)
		vh.Assert(o.isData && len(o.ds.dims) == len(v.Dimensions) && len(o.data) == o.ds.count()*o.dt.size, "variable has another shape in the file")
		p.checkArr(o.dt, o.ds.dims, o.data, reflect.ValueOf(v.Values))
	}
	return g, p
}

// H_C33_var: a variable of any type, scalar or with up to two values.
func H_C33_var() {
	t := wtypes(vh.Choose("type", nWtypes), 1+2*vh.Choose("version", 2))
	n := vh.Choose("n", 4) - 1
	vh.Assume(n != 0 || t.kind != uArray)
	u := newUfile(false)
	u.h.same = n > 1 && !vh.Thorough()
	u.h.n = vh.Choose("lengths", 3)
	vh.Assume(u.h.n == 0 || u.h.same)
	var vals []*uval
	var shape []int
	var dims []string
	if n >= 0 {
		shape, dims = []int{n}, []string{"d"}
	}
	for i := 0; i < max(n, -n); i++ {
		vals = append(vals, t.value(u.h, fmt.Sprint("v", i)))
	}
	g := u.finish([]hlink{{"x", u.f.dataset(&hset{dt: t.encode(), shape: shape, raw: rawOf(vals)})}})
	v, err := g.GetVariable("x")
	must(err, "GetVariable")
	noZeroes(reflect.ValueOf(v.Values))
	b, _ := goesBack([]api.Variable{{Values: v.Values, Dimensions: dims}}, nil)
	vh.Reach("written")
	b.Close()
	g.Close()
}

// once is an attribute as it is read: a list of one is the one.
func once(x any) any {
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Slice && v.Type().Name() == "" && v.Len() == 1 {
		return v.Index(0).Interface()
	}
	return x
}

// H_C33_attr: an attribute of any type, of a variable or of the file.
func H_C33_attr() {
	t := wtypes(vh.Choose("type", nWtypes), 3)
	n := 1 + vh.Choose("n", 2)
	vh.Assume(t.kind != uArray)
	u := newUfile(false)
	u.h.same = n > 1 && !vh.Thorough()
	u.h.n = vh.Choose("lengths", 3)
	vh.Assume(u.h.n == 0 || u.h.same)
	var vals []*uval
	for i := 0; i < n; i++ {
		vals = append(vals, t.value(u.h, fmt.Sprint("v", i)))
	}
	m := hmsg{ty: 12, body: attrMsg(3, "att", t.encode(), dspace(n), rawOf(vals))}
	g := u.finish([]hlink{{"x", u.f.dataset(&hset{ty: tByte, shape: []int{1}, raw: []byte{1}, attrs: []hmsg{m}})}})
	v, err := g.GetVariable("x")
	must(err, "GetVariable")
	x, ok := v.Attributes.Get("att")
	vh.Assert(ok, "no attribute")
	noZeroes(reflect.ValueOf(x))
	am := amap([]string{"att", "text"}, map[string]interface{}{"att": x, "text": "ab"})
	var b api.Group
	var p *hparser
	var got api.AttributeMap
	var at []hattribute
	if vh.Choose("global", 2) == 1 {
		b, p = goesBack(nil, am)
		got, at = b.Attributes(), p.object(p.root).attrs
	} else {
		b, p = goesBack([]api.Variable{{Values: v.Values, Dimensions: []string{"d"}, Attributes: am}}, nil)
		w, err := b.GetVariable("v1")
		must(err, "GetVariable")
		addr, _ := p.object(p.root).link("v1")
		got, at = w.Attributes, p.object(addr).attrs
	}
	y, ok := got.Get("att")
	vh.Assert(ok, "attribute is lost")
	sameDeep(reflect.ValueOf(once(x)), reflect.ValueOf(y))
	for _, a := range at {
		if a.name == "att" {
			p.checkArr(a.dt, a.ds.dims, a.data, reflect.ValueOf(x))
			vh.Reach("written")
		}
	}
	b.Close()
	g.Close()
}

// H_C33_shape: two dimensions, and parts of what has been read.
func H_C33_shape() {
	t := wtypes(vh.Choose("type", nWtypes), 3)
	vh.Assume(t.kind != uArray)
	u := newUfile(false)
	u.h.same, u.h.n = true, 1+vh.Choose("lengths", 2)
	var vals []*uval
	for i := 0; i < 4; i++ {
		vals = append(vals, t.fixed(u.h))
	}
	vals[3] = t.value(u.h, "v")
	g := u.finish([]hlink{{"x", u.f.dataset(&hset{dt: t.encode(), shape: []int{2, 2}, raw: rawOf(vals)})}})
	vg, err := g.GetVarGetter("x")
	must(err, "GetVarGetter")
	var x any
	switch vh.Choose("part", 3) {
	case 0:
		x, err = vg.Values()
	case 1:
		x, err = vg.GetSlice(1, 2)
	case 2:
		x, err = vg.GetSlice(0, 2)
	}
	must(err, "GetSlice")
	noZeroes(reflect.ValueOf(x))
	b, _ := goesBack([]api.Variable{{Values: x, Dimensions: []string{"d", "e"}}}, nil)
	vh.Reach("written")
	b.Close()
	g.Close()
}

// H_C33_size: types of sizes around those which need more bytes to tell.
func H_C33_size() {
	n := []int{1, 254, 255, 256, 257, 65534, 65535, 65536, 70000}[vh.Choose("size", 9)]
	i2, b1 := uInt(2, true, false), uInt(1, true, false)
	t := &utype{kind: uOpaque, ver: 1, size: n, tag: "tag"}
	switch vh.Choose("kind", 3) {
	case 1:
		t = &utype{kind: uCompound, ver: 3, size: n + 2, members: []umember{{"a", 0, &utype{kind: uArray, ver: 3, size: n, dims: []int{n}, elem: b1}}, {"b", n, i2}}}
	case 2:
		vh.Assume(n < 257 || vh.Thorough())
		vh.Assume(n < 65535)
		c := &utype{kind: uCompound, ver: 3, size: n + 2}
		for i := 0; i < min(n, 1000)/2; i++ {
			c.members = append(c.members, umember{"member" + number(i+1), 2 * i, i2})
		}
		c.members = append(c.members, umember{"last", n, i2})
		t = c
	}
	u := newUfile(false)
	v := t.fixed(u.h)
	if n < 257 {
		v = t.value(u.h, "v")
	}
	g := u.finish([]hlink{{"x", u.f.dataset(&hset{dt: t.encode(), raw: v.raw})}})
	x, err := g.GetVariable("x")
	must(err, "GetVariable")
	b, _ := goesBack([]api.Variable{{Values: x.Values}}, nil)
	vh.Reach("written")
	b.Close()
	g.Close()
}

// H_C33_many: values of two types in one file, among others.
func H_C33_many() {
	t1, t2 := wtypes(vh.Choose("type", nWtypes), 3), wtypes(vh.Choose("type", tierInt(9, nWtypes)), 3)
	u := newUfile(false)
	u.h.same, u.h.n = true, 2
	v1, v2 := t1.value(u.h, "v"), []*uval{t2.fixed(u.h), t2.fixed(u.h)}
	vh.Assume(t1.kind != uArray && t2.kind != uArray)
	g := u.finish([]hlink{
		{"x", u.f.dataset(&hset{dt: t1.encode(), raw: v1.raw, attrs: []hmsg{{ty: 12, body: attrMsg(3, "att", t2.encode(), dspace(2), rawOf(v2))}}})},
		{"y", u.f.dataset(&hset{dt: t2.encode(), shape: []int{2}, raw: rawOf(v2)})},
	})
	x, err := g.GetVariable("x")
	must(err, "GetVariable")
	y, err := g.GetVariable("y")
	must(err, "GetVariable")
	noZeroes(reflect.ValueOf(x.Values))
	att, _ := x.Attributes.Get("att")
	am := amap([]string{"att", "text"}, map[string]interface{}{"att": att, "text": "ab"})
	b, _ := goesBack([]api.Variable{
		{Values: x.Values, Attributes: am},
		{Values: []string{"one", "", "three"}, Dimensions: []string{"s"}},
		{Values: y.Values, Dimensions: []string{"d"}},
		{Values: []int16{1, 2}, Dimensions: []string{"d"}},
		{Values: x.Values},
	}, am)
	z, err := b.GetVariable("v1")
	must(err, "GetVariable")
	for _, a := range []api.AttributeMap{b.Attributes(), z.Attributes} {
		got, ok := a.Get("att")
		vh.Assert(ok, "attribute is lost")
		sameDeep(reflect.ValueOf(once(att)), reflect.ValueOf(got))
	}
	vh.Reach("written")
	b.Close()
	g.Close()
}

// H_C33_groups: values of user-defined types at every level of a tree of groups, in which
// names come again: groups in groups of the same name, and next to them.
func H_C33_groups() {
	// which types: those of values of one size, and those of lists and texts in lists
	kinds := []int{9, nUtypes, nUtypes + 1, nUtypes + 3, nUtypes + 7}
	t := wtypes(kinds[vh.Choose("type", tierInt(3, len(kinds)))], 3)
	vh.Assume(t.kind != uArray)
	u := newUfile(false)
	u.h.same, u.h.n = true, 1+vh.Choose("lengths", 2)
	var vals []*uval
	for i := 0; i < 3; i++ {
		vals = append(vals, t.fixed(u.h))
	}
	vals[1] = t.value(u.h, "v")
	g := u.finish([]hlink{{name: "x", addr: u.f.dataset(&hset{dt: t.encode(), shape: []int{3}, raw: rawOf(vals)})}})
	v, err := g.GetVariable("x")
	must(err, "GetVariable")
	noZeroes(reflect.ValueOf(v.Values))
	vg, err := g.GetVarGetter("x")
	must(err, "GetVarGetter")
	part := func(i int) interface{} {
		x, err := vg.GetSlice(int64(i), int64(i)+1)
		must(err, "GetSlice")
		return x
	}

	trees := [][]string{
		{"", "/g", "/g/g"},
		{"", "/g", "/g/g", "/g/g/g"},
		{"/g", "/h", "/h/g"},
		{"/a/x/b", "/b", "/x"},
	}
	tree := trees[vh.Choose("tree", len(trees))]
	what := vh.Choose("what", 3) // variables, their attributes, those of groups
	fn := vh.TempFile("back.nc")
	w, err := hdf5.OpenWriter(fn)
	must(err, "OpenWriter")
	for i, path := range tree {
		at := w
		for _, n := range splitPath(path) {
			at, err = at.CreateGroup(n)
			must(err, "CreateGroup")
		}
		am := amap([]string{"att"}, map[string]interface{}{"att": part(i % 3)})
		x := api.Variable{Values: part(i % 3), Dimensions: []string{"d"}}
		switch what {
		case 0:
			must(at.AddVar("x", x), "AddVar")
		case 1:
			must(at.AddVar("x", api.Variable{Values: []int8{1}, Dimensions: []string{"d"}, Attributes: am}), "AddVar")
		case 2:
			must(at.AddAttributes(am), "AddAttributes")
		}
	}
	must(w.Close(), "Close")

	b := openHdf5(fn)
	p := parseHdf5(readFile(fn))
	for i, path := range tree {
		o, at := p.object(p.root), b
		for _, n := range splitPath(path) {
			addr, ok := o.link(n)
			vh.Assert(ok, "group is not in the file")
			o = p.object(addr)
			at, err = at.GetGroup(n)
			must(err, "GetGroup")
		}
		want := reflect.ValueOf(part(i % 3))
		attrs := at.Attributes()
		if what != 2 {
			addr, ok := o.link("x")
			vh.Assert(ok, "variable is not in the file")
			o = p.object(addr)
			y, err := at.GetVariable("x")
			must(err, "GetVariable")
			attrs = y.Attributes
			if what == 0 {
				sameDeep(want, reflect.ValueOf(y.Values))
				p.checkArr(o.dt, o.ds.dims, o.data, want)
				continue
			}
		}
		y, ok := attrs.Get("att")
		vh.Assert(ok, "attribute is lost")
		sameDeep(reflect.ValueOf(once(part(i%3))), reflect.ValueOf(y))
		found := 0
		for _, a := range o.attrs {
			if a.name == "att" {
				p.checkArr(a.dt, a.ds.dims, a.data, want)
				found++
			}
		}
		vh.Assert(found == 1, "attribute is not in the file")
	}
	vh.Reach("written")
	b.Close()
	g.Close()
}

// splitPath gives the names in a path.
func splitPath(path string) []string {
	var names []string
	for _, n := range strings.Split(path, "/") {
		if n != "" {
			names = append(names, n)
		}
	}
	return names
}

// H_C33_bases: all types of numbers in types of every kind, and enumerations of up to
// 300 members.
func H_C33_bases() {
	k := vh.Choose("base", 10)
	be := vh.Choose("be", 2) == 1
	var t *utype
	if k < 8 {
		t = uInt(1<<(k%4), k < 4, be)
	} else {
		t = &utype{kind: uFloat, ver: 1, size: 4 * (k - 7), be: be}
	}
	enum := func(n int) *utype {
		vh.Assume(k < 8)
		e := &utype{kind: uEnum, ver: 3, size: t.size, elem: t}
		for i := 0; i < n; i++ {
			e.names = append(e.names, "NAME"+number(i+1))
			for j := 0; j < t.size; j++ {
				e.vals = append(e.vals, byte(i>>(8*min(j, t.size-1-j))+i))
			}
		}
		return e
	}
	vlen := func(t *utype) *utype { return &utype{kind: uVlen, ver: 3, size: 16, elem: t} }
	comp := func(t *utype) *utype {
		return &utype{kind: uCompound, ver: 3, size: t.size + 2, members: []umember{{"first", 0, t}, {"last", t.size, uInt(2, false, false)}}}
	}
	arr := func(t *utype) *utype {
		return &utype{kind: uArray, ver: 3, size: t.size * 2, dims: []int{2}, elem: t}
	}
	switch vh.Choose("kind", 7) {
	case 0:
		t = enum(2)
	case 1:
		t = comp(enum(1))
	case 2:
		t = comp(t)
	case 3:
		t = comp(arr(t))
	case 4:
		t = vlen(t)
	case 5:
		t = vlen(comp(t))
	case 6:
		vh.Assume(t.size == 2 && k < 8)
		t = enum([]int{255, 256, 300}[vh.Choose("members", 3)])
	}
	u := newUfile(false)
	u.h.same, u.h.n = true, 1
	vals := []*uval{t.value(u.h, "v"), t.fixed(u.h)}
	m := hmsg{ty: 12, body: attrMsg(3, "att", t.encode(), dspace(2), rawOf(vals))}
	g := u.finish([]hlink{{name: "x", addr: u.f.dataset(&hset{dt: t.encode(), shape: []int{2}, raw: rawOf(vals), attrs: []hmsg{m}})}})
	v, err := g.GetVariable("x")
	must(err, "GetVariable")
	att, _ := v.Attributes.Get("att")
	am := amap([]string{"att"}, map[string]interface{}{"att": att})
	b, p := goesBack([]api.Variable{{Values: v.Values, Dimensions: []string{"d"}, Attributes: am}}, nil)
	w, err := b.GetVariable("v1")
	must(err, "GetVariable")
	y, ok := w.Attributes.Get("att")
	vh.Assert(ok, "attribute is lost")
	sameDeep(reflect.ValueOf(once(att)), reflect.ValueOf(y))
	addr, _ := p.object(p.root).link("v1")
	for _, a := range p.object(addr).attrs {
		if a.name == "att" {
			p.checkArr(a.dt, a.ds.dims, a.data, reflect.ValueOf(att))
			vh.Reach("written")
		}
	}
	b.Close()
	g.Close()
}
