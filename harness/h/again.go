package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/vh"
)

// kept is a value that was returned, and what it has to remain.
type kept struct{ got, want any }

// spoil changes a returned value.
func spoil(x any) {
	switch v := x.(type) {
	case []int32:
		for i := range v {
			v[i] = 77
		}
	case []int16:
		for i := range v {
			v[i] = 77
		}
	case [][]int16:
		for i := range v {
			spoil(v[i])
			v[i] = nil
		}
	case []int8:
		for i := range v {
			v[i] = 77
		}
	case []float64:
		for i := range v {
			v[i] = 77
		}
	case [][]float64:
		for i := range v {
			spoil(v[i])
			v[i] = nil
		}
	case []string:
		for i := range v {
			v[i] = "spoilt"
		}
	}
}

// reading is one group being read, with what is in it.
type reading struct {
	g    api.Group
	w    *wgroup
	as   map[string][]wattr // attributes of variables
	le   bool               // raw data of the variables is little-endian
	keep []kept
	vgs  map[string]api.VarGetter
}

func (r *reading) part(v wvar, b, e int) any {
	step := len(v.raw) / max(v.shape[0], 1)
	return decode(v.ty, v.raw[b*step:e*step], append([]int{e - b}, v.shape[1:]...), r.le)
}

func (r *reading) value(got, want any, how int) {
	vh.Assert(vh.Eq(got, want), "value read differs from what it would have been in a fresh file")
	if how == 1 {
		spoil(got)
	} else {
		r.keep = append(r.keep, kept{got, want})
	}
}

const nReads = 9

// read makes one read operation. What it returns is kept, or spoilt.
func (r *reading) read(op int) {
	v := r.w.vars[0]
	if op < 5 {
		v = r.w.vars[vh.Choose("variable", len(r.w.vars))]
	}
	how := 0
	switch op {
	case 0:
		how = vh.Choose("spoil", 2)
		got, err := r.g.GetVariable(v.name)
		must(err, "GetVariable")
		vh.Assert(sameStrings(got.Dimensions, v.dims) || v.dims == nil, "dimension names differ")
		checkAttrs(got.Attributes, r.as[v.name])
		r.value(got.Values, v.exp, how)
	case 1: // a getter is obtained, and used later
		vg, err := r.g.GetVarGetter(v.name)
		must(err, "GetVarGetter")
		r.vgs[v.name] = vg
		vh.Assert(vg.Type() == tCDL[v.ty] && vg.GoType() == tGo[v.ty], "type of a variable")
		checkAttrs(vg.Attributes(), r.as[v.name])
	case 2:
		how = vh.Choose("spoil", 2)
		got, err := r.getter(v).Values()
		must(err, "Values")
		r.value(got, v.exp, how)
	case 3:
		vh.Assume(len(v.shape) > 0)
		how = vh.Choose("spoil", 2)
		got, err := r.getter(v).GetSlice(1, int64(v.shape[0]))
		must(err, "GetSlice")
		r.value(got, r.part(v, 1, v.shape[0]), how)
	case 4:
		vh.Assume(len(v.shape) == 2)
		n := v.shape[1]
		got, err := r.getter(v).GetSliceMD([]int64{0, 1}, []int64{1, int64(n)})
		must(err, "GetSliceMD")
		s := tSize[v.ty]
		r.value(got, decode(v.ty, v.raw[s:s*n], []int{1, n - 1}, r.le), 0)
	case 5:
		checkAttrs(r.g.Attributes(), r.w.attrs)
		r.g.ListDimensions()
		r.g.ListTypes()
	case 6:
		var names []string
		for _, x := range r.w.vars {
			names = append(names, x.name)
		}
		l := r.g.ListVariables()
		vh.Assert(sameSet(l, names), "list of variables differs")
		for i := range l {
			l[i] = "spoilt"
		}
		l = r.g.ListSubgroups()
		vh.Assert(len(l) == len(r.w.groups), "list of subgroups differs")
		for i := range l {
			l[i] = "spoilt"
		}
	case 7:
		for _, s := range r.w.groups {
			g := subgroup(r.g, s.name)
			checkSame(g, s)
			g.Close()
		}
		g := subgroup(r.g, "/")
		g.ListVariables()
		g.Close()
	case 8: // things that aren't there
		_, err := r.g.GetVariable("nosuch")
		vh.Assert(err != nil, "variable that isn't there")
		_, err = r.g.GetGroup("nosuch")
		vh.Assert(err != nil, "group that isn't there")
		_, err = r.g.GetVarGetter("nosuch")
		vh.Assert(err != nil, "variable that isn't there")
		_, err = r.getter(v).GetSlice(1, 1000)
		vh.Assert(err != nil, "slice out of range")
	}
}

func (r *reading) getter(v wvar) api.VarGetter {
	if vg, ok := r.vgs[v.name]; ok {
		return vg
	}
	vg, err := r.g.GetVarGetter(v.name)
	must(err, "GetVarGetter")
	return vg
}

func (r *reading) reads(steps int) {
	r.vgs = map[string]api.VarGetter{}
	for range steps {
		r.read(vh.Choose("operation", nReads))
	}
	for _, k := range r.keep {
		vh.Assert(vh.Eq(k.got, k.want), "result that was returned has changed later")
	}
	checkVars(r.g, r.w.vars)
	checkAttrs(r.g.Attributes(), r.w.attrs)
	vh.Reach("checked")
}

func classicReading() *reading {
	as := []wattr{mkattr("p", tShort, 2)}
	w := &wgroup{attrs: []wattr{mkattr("g", tInt, 2)}, vars: []wvar{
		mkvar("a", tInt, []int{3}, []string{"x"}),
		mkvar("b", tShort, []int{2, 3}, []string{"y", "x"}),
		mkvar("c", tDouble, nil, nil),
	}}
	for i := range w.vars {
		if w.vars[i].name == "b" {
			w.vars[i].attrs = attrMap(as)
		}
	}
	g := openClassic(readFile(writeClassic(w.vars, attrMap(w.attrs))))
	return &reading{g: g, w: w, as: map[string][]wattr{"b": as}}
}

// H_C29_classic: any sequence of reads of a classic file.
func H_C29_classic()  { classicReading().reads(3) }
func HT_C29_classic() { classicReading().reads(4) }

// H_C29_records: the same, with records.
func H_C29_records() { recordReading().reads(2) }

func recordReading() *reading {
	e := &enc{version: versions[vh.Choose("version", 2)+1], numrecs: 2}
	e.add("a", tInt, nil, true)
	e.add("b", tShort, []int{2}, true)
	e.add("c", tDouble, nil, false)
	w := &wgroup{}
	for i := range e.vars {
		v := &e.vars[i]
		x := wvar{name: v.name, ty: v.ty, shape: e.shape(v), raw: v.raw, exp: e.expect(i)}
		for _, d := range v.dims {
			x.dims = append(x.dims, e.dims[d].name)
		}
		w.vars = append(w.vars, x)
	}
	return &reading{g: openClassic(e.encode()), w: w}
}

// H_C29_written: any sequence of reads of a file of the HDF5 writer.
func H_C29_written() { writtenReading().reads(tierInt(2, 3)) }

func writtenReading() *reading {
	as := []wattr{mkattr("p", tShort, 2)}
	w := &wgroup{attrs: []wattr{mkattr("g", tInt, 2)}, vars: []wvar{
		mkvar("x", tInt, []int{3}, []string{"x"}),
		mkvar("b", tShort, []int{2, 3}, []string{"y", "x"}),
		mkvar("c", tDouble, nil, nil),
	}, groups: []*wgroup{{name: "s", vars: []wvar{mkvar("x", tByte, []int{3}, []string{"x"})}}}}
	w.vars[1].attrs = attrMap(as)
	r := &reading{g: openHdf5(writeHdf5(w)), w: w, as: map[string][]wattr{"b": as}}
	if vh.Choose("group", 2) == 1 {
		r.g = subgroup(r.g, "s")
		r.w = w.groups[0]
		r.as = nil
	}
	return r
}

// H_C29_layouts: any sequence of reads of chunked, filtered, and compact data.
func H_C29_layouts()  { layoutReading().reads(2) }
func HT_C29_layouts() { layoutReading().reads(3) }

func layoutReading() *reading {
	f := newHfile(vh.Choose("version", 2) == 0)
	a := &hset{ty: tInt, shape: []int{3}, chunk: []int{2}, raw: rawFor("a", tInt, []int{3})}
	b := &hset{ty: tShort, shape: []int{2, 3}, raw: rawFor("b", tShort, []int{2, 3})}
	c := &hset{ty: tDouble, shape: []int{2, 2}, chunk: []int{1, 2}, raw: rawFor("c", tDouble, []int{2, 2}), filters: []hfilter{shuffled(8), summed()}}
	switch vh.Choose("kind", 3) {
	case 1:
		b.compact = true
	case 2:
		a.filters = []hfilter{summed()}
		b.chunk = []int{2, 2}
	}
	w := &wgroup{}
	for i, d := range []*hset{a, b, c} {
		w.vars = append(w.vars, wvar{name: string(rune('a' + i)), ty: d.ty, shape: d.shape, raw: d.raw, exp: decode(d.ty, d.raw, d.shape, true)})
	}
	return &reading{g: openHBytes(f.root([]string{"a", "b", "c"}, []*hset{a, b, c})), w: w, le: true}
}
