package h

import (
	"reflect"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/vh"
)

// Variables of characters: strings with a dimension for their length.

func longest(ss []string) int {
	n := 0
	for _, s := range ss {
		n = max(n, len(s))
	}
	return n
}

// charVar is a variable of characters with up to two dimensions more than that of the
// length, and its shape.
func charVar(name string, kind, maxLen int) wvar {
	var v wvar
	switch kind {
	case 0:
		s := text("s", vh.Choose("len", maxLen+1))
		v = tvar(name, s, "chars")
		v.shape = []int{len(s)}
	case 1:
		n := 1 + vh.Choose("n", 3)
		ss := texts("s", n, maxLen)
		v = tvar(name, ss, "d", "chars")
		v.shape = []int{n, longest(ss)}
	default:
		x, y := texts("s", 2, 1), texts("t", 2, 1)
		v = tvar(name, [][]string{x, y}, "e", "d", "chars")
		v.shape = []int{2, 2, longest(append(append([]string(nil), x...), y...))}
	}
	return v
}

// padded are the characters of a value.
func padded(val any, n int) string {
	switch x := val.(type) {
	case string:
		return x + string(make([]byte, n-len(x)))
	case []string:
		r := ""
		for _, s := range x {
			r += padded(s, n)
		}
		return r
	case [][]string:
		r := ""
		for _, s := range x {
			r += padded(s, n)
		}
		return r
	}
	vh.Fail("type of strings")
	return ""
}

// h10chars has a variable of characters, and others.
func h10chars(where int) (*wgroup, wvar) {
	v := charVar("c", vh.Choose("kind", 3), tierInt(2, 3))
	n := v.shape[len(v.shape)-1]
	other := mkvar("other", tByte, []int{n}, []string{"chars"})
	w := hvars(nil)
	at := w
	if where == 1 {
		at = &wgroup{name: "g"}
		w.groups = []*wgroup{at}
	}
	switch vh.Choose("other", 3) {
	case 0:
		at.vars = []wvar{v}
	case 1:
		at.vars = []wvar{v, other}
	case 2: // the dimension is there before
		vh.Assume(n > 0)
		w.vars = []wvar{other}
		at.vars = append(at.vars, v)
	}
	return w, v
}

func H_C10_chars() {
	where := vh.Choose("where", 2)
	w, v := h10chars(where)
	g := openHdf5(writeHdf5(w))
	checkRootDims(g, w)
	checkVars(g, w.vars)
	at := g
	if where == 1 {
		at = subgroup(g, "/g")
		checkVars(at, w.groups[0].vars)
	}
	// part of it
	vg, err := at.GetVarGetter("c")
	must(err, "GetVarGetter")
	shape := vg.Shape()
	vh.Assert(len(shape) == len(v.shape), "shape differs")
	for i, n := range v.shape {
		vh.Assert(shape[i] == int64(n), "shape differs")
	}
	vh.Assert(vg.Type() == "string" && vg.GoType() == "string", "type differs")
	vh.Reach("checked")
}

// H_C14_chars looks for the characters in the file.
func H_C14_chars() {
	where := vh.Choose("where", 2)
	w, v := h10chars(where)
	p := parseHdf5(readFile(writeHdf5(w)))
	root := p.object(p.root)
	at := root
	if where == 1 {
		addr, ok := root.link("g")
		vh.Assert(ok, "group is not in the file")
		at = p.object(addr)
	}
	addr, ok := at.link("c")
	vh.Assert(ok, "variable is not in the file")
	o := p.object(addr)
	vh.Assert(o.dt.class == 3 && o.dt.size == 1, "characters have another type in the file")
	vh.Assert(sameInts(o.ds.dims, v.shape), "shape differs in the file")
	vh.Assert(string(o.data) == padded(v.val, v.shape[len(v.shape)-1]), "characters differ in the file")
	p.checkDims(root, o, v)
	vh.Reach("checked")
}

// nested are attributes of slices of slices.
func nested() any {
	list := func() []int16 { return deep1v(vh.Choose("n", 3)) }
	lists := func() [][]int16 {
		r := make([][]int16, vh.Choose("n", 3))
		for i := range r {
			r[i] = list()
		}
		return r
	}
	switch vh.Choose("kind", 4) {
	case 0:
		return [][]int16{list(), list()}
	case 1:
		return [][][]int16{lists(), lists()}
	case 2:
		return [][]string{texts("s", vh.Choose("n", 3), 1), texts("s", vh.Choose("n", 3), 1)}
	}
	x := [][]float64{make([]float64, vh.Choose("n", 3)), make([]float64, vh.Choose("n", 3))}
	for _, y := range x {
		for i := range y {
			y[i] = vh.F64("f")
		}
	}
	return x
}

func deep1v(n int) []int16 {
	r := make([]int16, n)
	for i := range r {
		r[i] = vh.I16("x")
	}
	return r
}

// H_C14_nested: attributes of nested slices have one dimension, of variable-length data.
func H_C14_nested() {
	x := nested()
	w := &wgroup{}
	v := mkvar("v", tInt, []int{2}, []string{"d"})
	global := vh.Choose("global", 2) == 1
	am := amap([]string{"att", "b"}, map[string]interface{}{"att": x, "b": int16(1)})
	fn := vh.TempFile("n.nc")
	if !global {
		v.attrs = am
	}
	w.vars = []wvar{v}
	root := newWriter(fn)
	w.write(root)
	if global {
		must(root.AddAttributes(am), "AddAttributes")
	}
	must(root.Close(), "Close")
	p := parseHdf5(readFile(fn))
	o := p.object(p.root)
	if !global {
		addr, ok := o.link("v")
		vh.Assert(ok, "variable is not in the file")
		o = p.object(addr)
	}
	found := false
	for _, a := range o.attrs {
		if a.name == "att" {
			found = true
			vh.Assert(len(a.ds.dims) == 1 && len(a.data) == a.ds.dims[0]*a.dt.size, "shape of the attribute in the file")
			p.checkArr(a.dt, a.ds.dims, a.data, reflect.ValueOf(x))
		}
	}
	vh.Assert(found, "attribute is not in the file")
	g := openHdf5(fn)
	var got api.AttributeMap = g.Attributes()
	if !global {
		y, err := g.GetVariable("v")
		must(err, "GetVariable")
		got = y.Attributes
	}
	y, ok := got.Get("att")
	vh.Assert(ok, "attribute is lost")
	vh.Assert(vh.Eq(x, y), "attribute differs")
	vh.Reach("checked")
}

func newWriter(fn string) api.Writer {
	w, err := hdf5.OpenWriter(fn)
	must(err, "OpenWriter")
	return w
}
