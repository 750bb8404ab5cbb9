package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/vh"
)

const nBadH = nBad + 1 + 14

// badHVar is input that the HDF5 writer cannot represent, given that what is
// in goodTree has been added before.
func badHVar(k int, name string) (string, api.Variable) {
	v := func(x any, dims ...string) (string, api.Variable) {
		return name, api.Variable{Values: x, Dimensions: dims}
	}
	if k == 1 {
		return v([][][]int32{{{1}, {2}}, {{3, 4}}}, "bx", "by")
	}
	if k <= nBad {
		return badVar(k, name)
	}
	att := func(key string, val any) (string, api.Variable) {
		return name, api.Variable{Values: []int16{1}, Dimensions: []string{"bx"}, Attributes: one1(key, val)}
	}
	switch k - nBad - 1 {
	case 0: // more names than dimensions
		return v([]int32{1, 2}, "bx", "by")
	case 1:
		return v(int32(1), "bx")
	case 2:
		return v([]string{"text", ""}, "bx", "by", "bz")
	case 3: // a dimension that has another length in another group
		return v([]int16{1, 2, 3, 4, 5}, "bnew", "sub1")
	case 4:
		return v([]int16{1, 2}, "sub1")
	case 5: // shapes that nested slices do not tell
		return v([][]int32{}, "bx", "by")
	case 6:
		return v([][][]int32{{}, {}}, "bx", "by", "bz")
	case 7:
		return v([]int32{1}, "b/x")
	case 8:
		return v([][]int32{{1}}, "bx", "")
	case 9:
		return att("CLASS", "x")
	case 10:
		return att("DIMENSION_LIST", []int32{1})
	case 11:
		return v([]string{"four", "abc"}, "bx", "g1")
	case 12:
		return att("m", map[string]int{})
	}
	return att("a", []complex64{1})
}

func one1(key string, val any) api.AttributeMap {
	return amap([]string{key}, map[string]any{key: val})
}

func goodTree() *wgroup {
	return &wgroup{
		vars:   goodVars(),
		attrs:  []wattr{mkattr("t", tInt, 2)},
		groups: []*wgroup{{name: "sub", vars: []wvar{mkvar("good1", tByte, []int{4}, []string{"sub1"}), mkvar("s2", tFloat, []int{3}, []string{"g1"})}}},
	}
}

func addGood(w api.Writer, v wvar) {
	must(w.AddVar(v.name, api.Variable{Values: v.val, Dimensions: v.dims, Attributes: v.attrs}), "AddVar")
}

// refuseCall makes one call that has to be refused.
func refuseCall(root, sub api.Writer, calls int) {
	w := root
	where := vh.Choose("where", 2)
	if where == 1 {
		w = sub
	}
	k := vh.Choose("bad", calls)
	if k <= nBadH {
		n, v := badHVar(k, "bad")
		vh.Assert(w.AddVar(n, v) != nil, "input that cannot be represented was accepted")
		return
	}
	switch k - nBadH - 1 {
	case 0:
		_, err := w.CreateGroup("good1")
		vh.Assert(err != nil, "group with the name of a variable was accepted")
	case 1:
		_, err := w.CreateGroup("a/b")
		vh.Assert(err != nil, "group with an invalid name was accepted")
	case 2:
		_, err := root.CreateGroup("g1")
		vh.Assert(err != nil, "group with the name of a dimension was accepted")
	case 3:
		err := root.AddVar("sub", api.Variable{Values: int8(1)})
		vh.Assert(err != nil, "variable with the name of a group was accepted")
	case 4:
		err := w.AddAttributes(amap([]string{"fine", "bad"}, map[string]any{"fine": int32(1), "bad": int(1)}))
		vh.Assert(err != nil, "attribute that cannot be represented was accepted")
	case 5:
		err := w.AddAttributes(amap([]string{"fine", "b/d"}, map[string]any{"fine": int32(1), "b/d": int8(1)}))
		vh.Assert(err != nil, "attribute with an invalid name was accepted")
	case 6:
		err := w.AddAttributes(one1("s", myStruct{1}))
		vh.Assert(err != nil, "attribute that cannot be represented was accepted")
	}
}

const nCalls = nBadH + 1 + 7

// h23mix makes refused calls among good ones.
func h23mix(n int) {
	fn := vh.TempFile("h.nc")
	root, err := hdf5.OpenWriter(fn)
	must(err, "OpenWriter")
	t := goodTree()
	addGood(root, t.vars[0])
	must(root.AddAttributes(attrMap(t.attrs)), "AddAttributes")
	sub, err := root.CreateGroup("sub")
	must(err, "CreateGroup")
	addGood(sub, t.groups[0].vars[0])
	for range n {
		refuseCall(root, sub, nCalls)
	}
	switch vh.Choose("again", 4) {
	case 1: // what was refused can be used
		v := mkvar("bad", tByte, []int{5}, []string{"bx"})
		addGood(root, v)
		t.vars = append(t.vars, v)
	case 2:
		v := mkvar("bad", tByte, []int{7}, []string{"bnew"})
		addGood(sub, v)
		t.groups[0].vars = append(t.groups[0].vars, v)
	case 3:
		g, err := root.CreateGroup("bad")
		must(err, "CreateGroup")
		v := mkvar("x", tByte, []int{7, 2}, []string{"by", "bz"})
		addGood(g, v)
		t.groups = append(t.groups, &wgroup{name: "bad", vars: []wvar{v}})
	}
	addGood(root, t.vars[1])
	addGood(root, t.vars[2])
	addGood(sub, t.groups[0].vars[1])
	must(root.Close(), "Close")
	g := openHdf5(fn)
	checkRootDims(g, t)
	t.walk("/", func(path string, x *wgroup) { checkGroup(subgroup(g, path), x) })
	vh.Reach("checked")
}

// H_C23_mix has one refused call, HT_C23_mix two.
func H_C23_mix()  { h23mix(1) }
func HT_C23_mix() { h23mix(2) }

// H_C23_first: the refused call is the first of all.
func H_C23_first() {
	fn := vh.TempFile("h.nc")
	root, err := hdf5.OpenWriter(fn)
	must(err, "OpenWriter")
	k := vh.Choose("bad", nBadH)
	vh.Assume(k < 9 || k > 11)
	vh.Assume(k != nBad+1+3 && k != nBad+1+4 && k != nBad+1+11)
	n, v := badHVar(k, "bad")
	vh.Assert(root.AddVar(n, v) != nil, "input that cannot be represented was accepted")
	t := goodTree()
	t.write(root)
	must(root.Close(), "Close")
	g := openHdf5(fn)
	checkRootDims(g, t)
	t.walk("/", func(path string, x *wgroup) { checkGroup(subgroup(g, path), x) })
	vh.Reach("checked")
}

// H_C23_only: nothing but refused calls.
func H_C23_only() {
	fn := vh.TempFile("h.nc")
	root, err := hdf5.OpenWriter(fn)
	must(err, "OpenWriter")
	for range 2 {
		k := vh.Choose("bad", nBadH)
		vh.Assume(k < 9 || k > 11)
		vh.Assume(k != nBad+1+3 && k != nBad+1+4 && k != nBad+1+11)
		n, v := badHVar(k, "bad")
		vh.Assert(root.AddVar(n, v) != nil, "input that cannot be represented was accepted")
	}
	must(root.Close(), "Close")
	g := openHdf5(fn)
	checkRootDims(g, &wgroup{})
	checkGroup(g, &wgroup{})
	vh.Reach("checked")
}

// H_C23_dims: two variables of any lengths share a dimension; the second is
// refused if and only if the lengths differ.
func H_C23_dims() {
	fn := vh.TempFile("h.nc")
	root, err := hdf5.OpenWriter(fn)
	must(err, "OpenWriter")
	sub, err := root.CreateGroup("sub")
	must(err, "CreateGroup")
	ws := []api.Writer{root, sub}
	t := &wgroup{groups: []*wgroup{{name: "sub"}}}
	ts := []*wgroup{t, t.groups[0]}
	lens := map[string]int{}
	for i, name := range []string{"a", "b", "c"} {
		shapes := 6
		if !vh.Thorough() {
			shapes = []int{2, 6, 4}[i]
		}
		shape := [][]int{{2}, {0}, {3}, {2, 3}, {2, 2}, {3, 2}}[vh.Choose("shape", shapes)]
		dims := [][]string{{"x"}, {"y"}}[vh.Choose("dim", 2)]
		if len(shape) == 2 {
			dims = [][]string{{"x", "y"}, {"x", "x"}}[vh.Choose("dim2", 2)]
		}
		v := mkvar(name, tByte, shape, dims)
		after := map[string]int{}
		for k, n := range lens {
			after[k] = n
		}
		ok := true
		for j, d := range dims {
			if n, has := after[d]; has && n != shape[j] {
				ok = false
			}
			after[d] = shape[j]
		}
		at := 0
		if i > 0 {
			at = vh.Choose("where", 2)
		}
		err := ws[at].AddVar(v.name, api.Variable{Values: v.val, Dimensions: v.dims})
		vh.Assert((err == nil) == ok, "dimension lengths: accepted a contradiction or refused none")
		if ok {
			lens = after
			ts[at].vars = append(ts[at].vars, v)
		}
	}
	must(root.Close(), "Close")
	g := openHdf5(fn)
	checkRootDims(g, t)
	t.walk("/", func(path string, x *wgroup) { checkGroup(subgroup(g, path), x) })
	vh.Reach("checked")
}

// H_C23_caller: calls do not change the caller's data.
func H_C23_caller() {
	fn := vh.TempFile("h.nc")
	w, err := hdf5.OpenWriter(fn)
	must(err, "OpenWriter")
	var v wvar
	switch vh.Choose("kind", 3) {
	case 0:
		sh := [][]int{{2}, {2, 3}, {1, 2, 2}}[vh.Choose("shape", 3)]
		v = mkvar("x", pickNum(), sh, dimNames("d", len(sh)))
	case 1:
		v = tvar("x", []string{vh.Str("s", 2), ""}, "d0")
		v.shape = []int{2}
	case 2:
		v = tvar("x", [][]string{{vh.Str("s", 1), "q"}, {"", "\x00r"}}, "d0", "d1")
		v.shape = []int{2, 2}
	}
	dims := append([]string(nil), v.dims...)
	given := append([]string(nil), v.dims...)
	at := attrMap([]wattr{mkattr("z", tInt, 2), mkattr("a", tDouble, -1)})
	var keep any
	if v.ty != tChar && v.raw != nil {
		keep = decode(v.ty, v.raw, v.shape, false)
	} else if x, ok := v.val.([]string); ok {
		keep = append([]string(nil), x...)
	} else {
		x := v.val.([][]string)
		keep = [][]string{append([]string(nil), x[0]...), append([]string(nil), x[1]...)}
	}
	must(w.AddVar("x", api.Variable{Values: v.val, Dimensions: given, Attributes: at}), "AddVar")
	ga := attrMap([]wattr{mkattr("y", tShort, 2)})
	must(w.AddAttributes(ga), "AddAttributes")
	must(w.Close(), "Close")
	vh.Assert(sameStrings(given, dims), "the caller's dimension names were changed")
	vh.Assert(vh.Eq(v.val, keep), "the caller's data was changed")
	vh.Assert(sameStrings(at.Keys(), []string{"z", "a"}), "the caller's attributes were changed")
	vh.Assert(sameStrings(ga.Keys(), []string{"y"}), "the caller's attributes were changed")
	vh.Reach("checked")
}

// deep makes values of any nesting, of one or two elements at each level.
func deep(depth int) any {
	n := 1 + vh.Choose("n", 2)
	switch depth {
	case 0:
		return vh.I16("x")
	case 1:
		return deep1(n)
	case 2:
		r := make([][]int16, n)
		for i := range r {
			r[i] = deep1(1 + vh.Choose("n", 2))
		}
		return r
	}
	r := make([][][]int16, n)
	for i := range r {
		r[i] = deep(2).([][]int16)
	}
	return r
}

func deep1(n int) []int16 {
	r := make([]int16, n)
	for i := range r {
		r[i] = vh.I16("x")
	}
	return r
}

// H_C23_deep: values of any nesting, with any number of dimension names, are
// either refused or read back as they are.
func H_C23_deep() {
	fn := vh.TempFile("h.nc")
	w, err := hdf5.OpenWriter(fn)
	must(err, "OpenWriter")
	x := deep(vh.Choose("depth", 4))
	dims := []string{"x", "y", "z", "u"}[:vh.Choose("dims", 5)]
	addGood(w, mkvar("before", tShort, []int{2}, []string{"two"}))
	err = w.AddVar("v", api.Variable{Values: x, Dimensions: dims})
	refused := err != nil
	after := mkvar("after", tShort, []int{2}, []string{"two"})
	addGood(w, after)
	must(w.Close(), "Close")
	g := openHdf5(fn)
	checkHVar(g, after)
	if refused {
		_, err := g.GetVariable("v")
		vh.Assert(err != nil, "refused variable is in the file")
		vh.Reach("refused")
		return
	}
	v, err := g.GetVariable("v")
	must(err, "GetVariable")
	vh.Assert(vh.Eq(v.Values, x), "value read differs from value written")
	vh.Assert(sameStrings(v.Dimensions, dims), "dimension names differ")
	vh.Reach("accepted")
}

// H_C23_deepattr does the same with attributes.
func H_C23_deepattr() {
	fn := vh.TempFile("h.nc")
	w, err := hdf5.OpenWriter(fn)
	must(err, "OpenWriter")
	x := deep(vh.Choose("depth", 4))
	global := vh.Choose("global", 2) == 1
	if global {
		err = w.AddAttributes(one1("t", x))
	} else {
		err = w.AddVar("v", api.Variable{Values: int8(1), Attributes: one1("t", x)})
	}
	refused := err != nil
	after := mkvar("after", tShort, []int{2}, []string{"two"})
	addGood(w, after)
	if w.Close() != nil {
		vh.Reach("refused by Close")
		return
	}
	g := openHdf5(fn)
	checkHVar(g, after)
	a := g.Attributes()
	if !global && !refused {
		v, err := g.GetVariable("v")
		must(err, "GetVariable")
		a = v.Attributes
	}
	got, ok := a.Get("t")
	vh.Assert(ok == !refused, "attribute is there or isn't, against what was said")
	if refused {
		vh.Reach("refused")
		return
	}
	// a list of one is the same as what is in it
	switch s := x.(type) {
	case []int16:
		if len(s) == 1 {
			x = s[0]
		}
	case [][]int16:
		if len(s) == 1 {
			x = s[0]
		}
	case [][][]int16:
		if len(s) == 1 {
			x = s[0]
		}
	}
	vh.Assert(vh.Eq(got, x), "attribute read differs from the one written")
	vh.Reach("accepted")
}

// H_C23_close: what only Close can find out is refused there.
func H_C23_close() {
	fn := vh.TempFile("h.nc")
	w, err := hdf5.OpenWriter(fn)
	must(err, "OpenWriter")
	addGood(w, mkvar("before", tShort, []int{2}, []string{"two"}))
	bad := api.Variable{Values: vh.I16("x")}
	switch vh.Choose("kind", 5) {
	case 0:
		bad.Attributes = one1("big", make([]int32, 20000))
	case 1:
		bad.Attributes = one1("big", vh.Str("s", 1)+string(make([]byte, 70000)))
	case 2:
		bad.Attributes = one1("big", make([][]int16, 5000))
	case 3:
		bad = api.Variable{Values: [][]string{{"a"}, {"b", vh.Str("s", 1)}}, Dimensions: []string{"x", "y"}}
	case 4:
		err = w.AddAttributes(one1("big", make([]float64, 9000)))
	}
	if err == nil {
		err = w.AddVar("v", bad)
	}
	if err == nil {
		err = w.Close()
	}
	vh.Assert(err != nil, "what cannot be represented was accepted")
	vh.Assert(vh.OpenFiles() <= 1, "files left open")
	vh.Reach("refused")
}
