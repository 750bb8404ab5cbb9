package h

import (
	"reflect"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/vh"
)

// Files which are copied through the API: what is read from one is given to a writer of
// either kind.

var kinds = []netcdf.FileKind{netcdf.KindCDF, netcdf.KindHDF5}

func copyGroup(w api.Writer, g api.Group, groups bool) {
	for _, n := range g.ListVariables() {
		v, err := g.GetVariable(n)
		must(err, "GetVariable")
		noZeroes(reflect.ValueOf(v.Values))
		for _, k := range v.Attributes.Keys() {
			a, _ := v.Attributes.Get(k)
			noZeroes(reflect.ValueOf(a))
		}
		must(w.AddVar(n, *v), "AddVar")
	}
	for _, k := range g.Attributes().Keys() {
		a, _ := g.Attributes().Get(k)
		noZeroes(reflect.ValueOf(a))
	}
	must(w.AddAttributes(g.Attributes()), "AddAttributes")
	for _, n := range g.ListSubgroups() {
		if !groups {
			_, err := w.CreateGroup(n)
			vh.Assert(err != nil, "group accepted by a format without groups")
			continue
		}
		sub, err := g.GetGroup(n)
		must(err, "GetGroup")
		sw, err := w.CreateGroup(n)
		must(err, "CreateGroup")
		copyGroup(sw, sub, groups)
		sub.Close()
	}
}

// copyFile copies a file, and opens the copy.
func copyFile(g api.Group, kind netcdf.FileKind) api.Group {
	fn := vh.TempFile("copy.nc")
	w, err := netcdf.OpenWriter(fn, kind)
	must(err, "OpenWriter")
	copyGroup(w, g, kind == netcdf.KindHDF5)
	must(w.Close(), "Close")
	c, err := netcdf.Open(fn)
	must(err, "Open")
	magic := readFile(fn)[0]
	vh.Assert((magic == 'C') == (kind == netcdf.KindCDF), "the copy is of the other kind")
	return c
}

func sameAttrs(a, b api.AttributeMap) {
	vh.Assert(sameStrings(a.Keys(), b.Keys()), "names of attributes differ")
	for _, k := range a.Keys() {
		x, ok := a.Get(k)
		y, ok2 := b.Get(k)
		vh.Assert(ok && ok2, "attribute is missing")
		sameDeep(reflect.ValueOf(x), reflect.ValueOf(y))
	}
}

func sameShape(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sameGroup compares a group with its copy.
func sameGroup(a, b api.Group, groups bool) {
	vh.Assert(sameSet(a.ListVariables(), b.ListVariables()), "variables differ")
	sameAttrs(a.Attributes(), b.Attributes())
	for _, n := range a.ListVariables() {
		x, err := a.GetVarGetter(n)
		must(err, "GetVarGetter")
		y, err := b.GetVarGetter(n)
		must(err, "GetVarGetter of the copy")
		vh.Assert(sameStrings(x.Dimensions(), y.Dimensions()), "dimensions differ")
		vh.Assert(sameShape(x.Shape(), y.Shape()), "shape differs")
		vh.Assert(x.GoType() == y.GoType(), "Go type differs: "+x.GoType()+" "+y.GoType())
		vh.Assert(x.Len() == y.Len(), "length differs")
		sameAttrs(x.Attributes(), y.Attributes())
		v, err := x.Values()
		must(err, "Values")
		u, err := y.Values()
		must(err, "Values of the copy")
		sameDeep(reflect.ValueOf(v), reflect.ValueOf(u))
		vv, err := b.GetVariable(n)
		must(err, "GetVariable of the copy")
		sameDeep(reflect.ValueOf(v), reflect.ValueOf(vv.Values))
	}
	if !groups {
		vh.Assert(len(b.ListSubgroups()) == 0, "group in a format without groups")
		return
	}
	vh.Assert(sameSet(a.ListSubgroups(), b.ListSubgroups()), "groups differ")
	for _, n := range a.ListSubgroups() {
		x, err := a.GetGroup(n)
		must(err, "GetGroup")
		y, err := b.GetGroup(n)
		must(err, "GetGroup of the copy")
		sameGroup(x, y, groups)
		x.Close()
		y.Close()
	}
}

func sameDims(a, b api.Group, rec string) {
	vh.Assert(sameSet(a.ListDimensions(), b.ListDimensions()), "dimensions differ")
	for _, d := range a.ListDimensions() {
		n, ok := a.GetDimension(d)
		m, ok2 := b.GetDimension(d)
		vh.Assert(ok && ok2 && (n == m || n == 0 && d == rec), "length of a dimension differs")
	}
}

// copies copies a file to each kind, and the copy to each kind.
func copies(g api.Group, groups bool, rec string) {
	first := kinds[vh.Choose("first", 2)]
	c := copyFile(g, first)
	groups = groups && first == netcdf.KindHDF5
	sameGroup(g, c, groups)
	if first == netcdf.KindHDF5 || len(g.ListSubgroups()) == 0 {
		sameDims(g, c, rec)
	}
	second := kinds[vh.Choose("second", 2)]
	d := copyFile(c, second)
	groups = groups && second == netcdf.KindHDF5
	sameGroup(c, d, groups)
	if second == netcdf.KindHDF5 || len(c.ListSubgroups()) == 0 {
		sameDims(c, d, rec)
	}
	sameGroup(g, d, groups)
	d.Close()
	c.Close()
	g.Close()
	vh.Assert(vh.OpenFiles() == 0, "files left open")
	vh.Reach("copied")
}

func openAny(fn string) api.Group {
	g, err := netcdf.Open(fn)
	must(err, "Open")
	return g
}

// H_C34_single: a variable of any type and shape, from a file of either kind.
func H_C34_single() {
	shape := shapes1[vh.Choose("shape", len(shapes1))]
	from := vh.Choose("from", 2)
	ty := 1 + vh.Choose("type", 11)
	vh.Assume(from == 0 || ty != tChar)
	v := []wvar{mkvar("x", ty, shape, dimNames("d", len(shape)))}
	if from == 0 {
		copies(openAny(writeClassic(v, nil)), false, "")
	} else {
		copies(openAny(writeHdf5(hvars(v))), false, "")
	}
}

// H_C34_chars: characters, from a file of either kind.
func H_C34_chars() {
	v := charVar("c", vh.Choose("kind", 3), 2)
	n := v.shape[len(v.shape)-1]
	vh.Assume(n > 0)
	ss := reflect.ValueOf(v.val)
	var check func(s reflect.Value)
	check = func(s reflect.Value) {
		if s.Kind() == reflect.String {
			vh.Assume(s.Len() == n)
			return
		}
		for i := 0; i < s.Len(); i++ {
			check(s.Index(i))
		}
	}
	check(ss)
	vars := []wvar{v, mkvar("other", tByte, []int{n}, []string{"chars"})}
	if vh.Choose("from", 2) == 0 {
		copies(openAny(writeClassic(vars, nil)), false, "")
		return
	}
	copies(openAny(writeHdf5(hvars(vars))), false, "")
}

// H_C34_attrs: attributes of any type, of the file and of a variable.
func H_C34_attrs() {
	ty := 1 + vh.Choose("type", 11)
	n := 1 + vh.Choose("n", 4)
	as := []wattr{hattr("zatt", ty, n), hattr("text", tChar, 3), mkattr("a", tDouble, -1)}
	v := mkvar("x", tShort, []int{2}, []string{"x"})
	var ga []wattr
	switch vh.Choose("where", 3) {
	case 0:
		ga = as
	case 1:
		v.attrs = attrMap(as)
	case 2:
		ga = as[:1]
		v.attrs = attrMap(as[1:])
	}
	if vh.Choose("from", 2) == 0 {
		copies(openAny(writeClassic([]wvar{v}, attrMap(ga))), false, "")
	} else {
		w := hvars([]wvar{v})
		w.attrs = ga
		copies(openAny(writeHdf5(w)), false, "")
	}
}

// H_C34_records: record variables of classic files.
func H_C34_records() {
	e := recEnc()
	vh.Assume(e.numrecs > 0)
	e.add("r", pickType(e.version), inners[vh.Choose("inner", 3)], true)
	e.add("f", tShort, []int{3}, false)
	copies(openClassic(e.encode()), false, "time")
}

// H_C34_trees: groups.
func H_C34_trees() {
	w := mktree(trees[vh.Choose("tree", len(trees))], vh.Choose("vars", 3))
	copies(openAny(writeHdf5(w)), true, "")
}

// H_C34_kind: a kind which there isn't.
func H_C34_kind() {
	k := vh.I32("kind")
	vh.Assume(k != int32(netcdf.KindCDF) && k != int32(netcdf.KindHDF5))
	w, err := netcdf.OpenWriter(vh.TempFile("k.nc"), netcdf.FileKind(k))
	vh.Assert(err != nil && w == nil, "unknown kind of file was accepted")
	vh.Assert(vh.OpenFiles() == 0, "file left open")
	vh.Reach("refused")
}
