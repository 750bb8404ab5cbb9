package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/vh"
)

// meta is what a variable's getter should say.
type meta struct {
	name    string
	ty      int
	shape   []int
	dims    []string
	noDims  bool // the file has no names of dimensions
	val     any
	attrs   []wattr
	unlim   string // name of the unlimited dimension
	cdl, gt string // types, if not those of ty
}

func checkMeta(g api.Group, m meta) {
	vh.Assert(has(g.ListVariables(), m.name), "variable is not listed")
	v, err := g.GetVariable(m.name)
	must(err, "GetVariable")
	vg, err := g.GetVarGetter(m.name)
	must(err, "GetVarGetter")
	for range 2 { // before and after the values have been read
		n := int64(1)
		if len(m.shape) > 0 {
			n = int64(m.shape[0])
		}
		vh.Assert(vg.Len() == n, "Len is not the first dimension's length")
		sh := vg.Shape()
		vh.Assert(len(sh) == len(m.shape), "rank of Shape differs")
		for i := range sh {
			vh.Assert(sh[i] == int64(m.shape[i]), "Shape differs")
		}
		vh.Assert(sameStrings(vg.Dimensions(), v.Dimensions), "dimensions of getter and variable differ")
		if !m.noDims {
			vh.Assert(sameStrings(v.Dimensions, m.dims), "dimension names differ")
			all := g.ListDimensions()
			for i, d := range v.Dimensions {
				if !has(all, d) {
					continue // of a group above
				}
				n, ok := g.GetDimension(d)
				vh.Assert(ok, "dimension of a variable is not found")
				vh.Assert(n == uint64(m.shape[i]) || d == m.unlim && n == 0, "length of a dimension differs from the variable's shape")
			}
		}
		cdl, gt := tCDL[m.ty], tGo[m.ty]
		if m.cdl != "" {
			cdl, gt = m.cdl, m.gt
		}
		vh.Assert(vg.Type() == cdl, "Type differs")
		vh.Assert(vg.GoType() == gt, "GoType differs")
		checkAttrs(vg.Attributes(), m.attrs)
		checkAttrs(v.Attributes, m.attrs)
		x, err := vg.Values()
		must(err, "Values")
		vh.Assert(vh.Eq(x, m.val), "Values differ")
		vh.Assert(vh.Eq(v.Values, m.val), "values of GetVariable differ")
	}
	for i, a := range m.attrs {
		t, ok := vg.Attributes().GetType(a.name)
		vh.Assert(ok, "attribute without a type")
		gt, ok := v.Attributes.GetGoType(a.name)
		vh.Assert(ok, "attribute without a Go type")
		checkAttrType(m.attrs[i], t, gt)
	}
	_, ok := v.Attributes.GetType("nosuch")
	_, gok := v.Attributes.GetGoType("nosuch")
	vh.Assert(!ok && !gok, "type of an attribute that isn't there")
}

func checkAttrType(a wattr, t, gt string) {
	if a.ty == tChar {
		vh.Assert(t == "string" && gt == "string", "type of a text attribute")
		return
	}
	if a.ty == tStrings {
		if _, one := a.exp.(string); one {
			vh.Assert(t == "string" && gt == "string", "type of a text attribute")
		}
		return
	}
	switch a.n {
	case 1:
		vh.Assert(t == tCDL[a.ty] && gt == tGo[a.ty], "type of an attribute")
	case 2:
		vh.Assert((t == tCDL[a.ty]+"(2)" || t == tCDL[a.ty]+"(*)") && gt == "[]"+tGo[a.ty], "type of an attribute")
	}
}

// H_C27_classic: variables of a classic file, of all types and shapes.
func H_C27_classic() {
	e := &enc{version: versions[vh.Choose("version", 3)], numrecs: vh.Choose("records", 3)}
	e.dims = nil
	shapes := [][]int{{}, {1}, {3}, {2, 3}, {2, 1, 2}}
	ty := pickType(e.version)
	at := []wattr{mkattr("t", tShort, 2), mkattr("u", tDouble, -1), mkattr("c", tChar, 3)}[:vh.Choose("attributes", 4)]
	e.add("x", ty, shapes[vh.Choose("shape", len(shapes))], vh.Choose("record", 2) == 1)
	e.vars[0].attrs = at
	if vh.Choose("other", 2) == 1 {
		e.add("y", tByte, []int{2}, true)
	}
	g := openClassic(e.encode())
	for i := range e.vars {
		v := &e.vars[i]
		m := meta{name: v.name, ty: v.ty, shape: e.shape(v), attrs: v.attrs, val: e.expect(i)}
		for _, d := range v.dims {
			m.dims = append(m.dims, e.dims[d].name)
			if e.dims[d].n == 0 {
				m.unlim = e.dims[d].name
			}
		}
		checkMeta(g, m)
	}
	vh.Reach("checked")
}

func metaOf(v wvar, as []wattr) meta {
	return meta{name: v.name, ty: v.ty, shape: v.shape, dims: v.dims, val: v.exp, attrs: as}
}

// H_C27_cwritten: files of the classic writer.
func H_C27_cwritten() {
	sh := [][]int{{}, {3}, {2, 3}}[vh.Choose("shape", 3)]
	vars := []wvar{mkvar("a", tShort, []int{3}, []string{"q0"}), mkvar("b", 1+vh.Choose("type", 11), sh, dimNames("p", len(sh)))}
	as := []wattr{mkattr("p", 1+vh.Choose("type", 11), []int{-1, 2}[vh.Choose("len", 2)])}
	vars[1].attrs = attrMap(as)
	fn := writeClassic(vars, nil)
	g, _, err := opening{}.open(readFile(fn))
	must(err, "open")
	for i, v := range vars {
		m := metaOf(v, nil)
		if i == 1 {
			m.attrs = as
		}
		checkMeta(g, m)
	}
	vh.Reach("checked")
}

// H_C27_hwritten: files of the HDF5 writer.
func H_C27_hwritten() {
	shape := [][]int{{}, {1}, {3}, {2, 3}, {2, 1, 2}, {0}, {2, 0}}[vh.Choose("shape", 7)]
	ty := vh.Choose("attribute type", 12)
	vh.Assume(vh.Thorough() || ty < 5)
	as := []wattr{hattr("p", ty, []int{-1, 2}[vh.Choose("len", 2)])}
	x := mkvar("x", pickNum(), shape, dimNames("d", len(shape)))
	w := &wgroup{vars: []wvar{x, mkvar("y", tShort, []int{2}, []string{"y"})}}
	var at api.Group
	in := vh.Choose("in", 3)
	switch in {
	case 0:
		w.vars[0].attrs = attrMap(as)
	case 1:
		w.vars[1].attrs = attrMap(as)
	case 2:
		w.vars[0].attrs = attrMap(as)
		w = &wgroup{vars: w.vars[1:], groups: []*wgroup{{name: "g", vars: w.vars[:1]}}}
	}
	g := openHdf5(writeHdf5(w))
	at = g
	if in == 2 {
		at = subgroup(g, "/g")
	}
	m, n := metaOf(x, as), metaOf(mkvar2("y", w, g), nil)
	if in == 1 {
		m.attrs, n.attrs = nil, as
	}
	checkMeta(at, m)
	checkMeta(g, n)
	vh.Reach("checked")
}

// mkvar2 finds a variable of the root.
func mkvar2(name string, w *wgroup, g api.Group) wvar {
	return *findVar(w, name)
}

// H_C27_text: text in both formats.
func H_C27_text() {
	if vh.Choose("classic", 2) == 1 {
		v := classicStrings()
		fn := writeClassic(v, nil)
		g, _, err := opening{}.open(readFile(fn))
		must(err, "open")
		for _, x := range v {
			m := metaOf(x, nil)
			vg, err := g.GetVarGetter(x.name)
			must(err, "GetVarGetter")
			if m.shape == nil {
				for _, d := range vg.Shape() {
					m.shape = append(m.shape, int(d))
				}
			}
			if m.dims == nil {
				m.dims = vg.Dimensions()
				vh.Assert(len(m.dims) == len(m.shape), "number of dimensions differs from the rank")
			}
			if m.ty == 0 {
				m.ty = tChar
			}
			checkMeta(g, m)
		}
		vh.Reach("checked")
		return
	}
	v := []wvar{tvar("a", text("a", 3)), tvar("b", texts("b", 2, 2), "d"), tvar("c", [][]string{{text("p", 1), ""}, {"q", text("r", 2)}}, "d", "d")}
	v[1].shape, v[2].shape = []int{2}, []int{2, 2}
	g := openHdf5(writeHdf5(hvars(v)))
	for _, x := range v {
		m := metaOf(x, nil)
		m.cdl, m.gt = "string", "string"
		checkMeta(g, m)
	}
	vh.Reach("checked")
}

// H_C27_hdf5: datasets of all types and layouts.
func H_C27_hdf5() {
	d := &hset{shape: [][]int{{}, {3}, {2, 3}, {2, 1, 2}}[vh.Choose("shape", 4)], ty: pickNum(), be: vh.Choose("be", 2) == 1}
	switch vh.Choose("layout", 3) {
	case 1:
		d.compact = true
	case 2:
		vh.Assume(len(d.shape) > 0)
		for _, n := range d.shape {
			d.chunk = append(d.chunk, max(1, n-1))
		}
		if vh.Choose("filter", 2) == 1 {
			d.filters = []hfilter{shuffled(d.size()), summed()}
		}
	}
	d.raw = rawFor("x", d.ty, d.shape)
	f := newHfile(vh.Choose("version", 2) == 0)
	g := openHBytes(f.root([]string{"x"}, []*hset{d}))
	checkMeta(g, meta{name: "x", ty: d.ty, shape: d.shape, noDims: true, val: decode(d.ty, d.raw, d.shape, !d.be)})
	vh.Reach("checked")
}
