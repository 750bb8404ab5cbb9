package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/vh"
)

// wdim is a dimension that is to be reported.
type wdim struct {
	name string
	n    uint64
}

// dims adds the dimensions used in a tree.
func (g *wgroup) dims(list []wdim) []wdim {
	for _, v := range g.vars {
		for i, d := range v.dims {
			found := false
			for _, x := range list {
				found = found || x.name == d
			}
			if !found {
				list = append(list, wdim{d, uint64(v.shape[i])})
			}
		}
	}
	for _, s := range g.groups {
		list = s.dims(list)
	}
	return list
}

// walk gives all groups of the tree with their absolute paths.
func (g *wgroup) walk(path string, f func(path string, g *wgroup)) {
	f(path, g)
	for _, s := range g.groups {
		p := path + "/" + s.name
		if path == "/" {
			p = "/" + s.name
		}
		s.walk(p, f)
	}
}

// checkGroup compares one group.
func checkGroup(g api.Group, w *wgroup) {
	var subs []string
	for _, s := range w.groups {
		subs = append(subs, s.name)
	}
	vh.Assert(sameSet(g.ListSubgroups(), subs), "list of subgroups differs")
	checkAttrs(g.Attributes(), w.attrs)
	checkVars(g, w.vars)
}

// checkRootDims compares the dimensions of the file.
func checkRootDims(g api.Group, w *wgroup) {
	want := w.dims(nil)
	var names []string
	for _, d := range want {
		names = append(names, d.name)
	}
	vh.Assert(sameSet(g.ListDimensions(), names), "list of dimensions differs")
	for _, d := range want {
		n, ok := g.GetDimension(d.name)
		vh.Assert(ok && n == d.n, "length of a dimension differs")
	}
	_, ok := g.GetDimension("nosuch")
	vh.Assert(!ok, "dimension which isn't there was found")
}

func subgroup(g api.Group, path string) api.Group {
	s, err := g.GetGroup(path)
	must(err, "GetGroup")
	return s
}

// checkTree compares a whole file, reaching each group by its absolute path
// from every group, and by its relative path from those above it.
func checkTree(root api.Group, w *wgroup) {
	checkRootDims(root, w)
	checkGroup(root, w)
	type at struct {
		path string
		w    *wgroup
		g    api.Group
	}
	var all []at
	w.walk("/", func(path string, x *wgroup) {
		g := subgroup(root, path)
		checkGroup(g, x)
		all = append(all, at{path, x, g})
	})
	for _, a := range all {
		for _, b := range all {
			g := subgroup(a.g, b.path)
			checkSame(g, b.w)
			g.Close()
		}
		a.w.walk("", func(path string, x *wgroup) {
			if path == "" {
				return
			}
			g := subgroup(a.g, path[1:])
			checkSame(g, x)
			g.Close()
		})
		for _, bad := range []string{"nosuch", "/nosuch", a.path + "/nosuch/x"} {
			_, err := a.g.GetGroup(bad)
			vh.Assert(err != nil, "group which isn't there was found")
		}
		for _, v := range a.w.vars {
			_, err := a.g.GetGroup(v.name)
			vh.Assert(err != nil, "variable was returned as a group")
		}
		_, err := a.g.GetVariable("nosuch")
		vh.Assert(err != nil, "variable which isn't there was found")
	}
	for _, a := range all {
		a.g.Close()
	}
	vh.Reach("checked")
}

// checkSame tells groups apart by their lists.
func checkSame(g api.Group, w *wgroup) {
	var vars, subs []string
	for _, v := range w.vars {
		vars = append(vars, v.name)
	}
	for _, s := range w.groups {
		subs = append(subs, s.name)
	}
	vh.Assert(sameSet(g.ListSubgroups(), subs), "list of subgroups differs")
	vh.Assert(sameSet(g.ListVariables(), vars), "list of variables differs")
	for _, v := range w.vars {
		got, err := g.GetVariable(v.name)
		must(err, "GetVariable")
		vh.Assert(vh.Eq(got.Values, v.exp), "value read differs from value written")
	}
}

// shapes of trees: each group has the number of the group above it
var trees = [][]int{
	{-1},
	{-1, 0},
	{-1, 0, 0},
	{-1, 0, 1},
	{-1, 0, 1, 2},
	{-1, 0, 0, 1, 2},
	{-1, 0, 1, 1, 0},
}

var groupNames = []string{"", "g", "ga", "g", "a", "gag"}

// mktree makes a tree of groups. Groups in different places can have the same name,
// and names that begin with another's.
func mktree(shape []int, vars int) *wgroup {
	gs := make([]*wgroup, len(shape))
	for i, up := range shape {
		n := string(rune('0' + i))
		gs[i] = &wgroup{name: groupNames[i]}
		if i > 0 {
			gs[up].groups = append(gs[up].groups, gs[i])
		}
		switch (i + vars) % 3 {
		case 0:
			gs[i].vars = []wvar{mkvar("v", tInt, []int{2}, []string{"x"}), mkvar("u"+n, tShort, nil, nil)}
			gs[i].attrs = []wattr{mkattr("at", tShort, 2), mkattr("aa"+n, tDouble, -1)}
		case 1:
			gs[i].vars = []wvar{mkvar("x", tFloat, []int{2}, []string{"x"}), mkvar("v", tByte, []int{2, 3}, []string{"x", "y"})}
		case 2:
			gs[i].attrs = []wattr{mkattr("at", tInt, -1)}
		}
	}
	for i, up := range shape {
		// siblings have different names
		for j := range i {
			if i > 0 && shape[j] == up && j > 0 {
				vh.Assert(gs[j].name != gs[i].name, "harness: names of siblings")
			}
		}
	}
	return gs[0]
}

func h13trees(list [][]int) {
	w := mktree(list[vh.Choose("tree", len(list))], vh.Choose("vars", 3))
	g := openHdf5(writeHdf5(w))
	checkTree(g, w)
	g.Close()
}

func H_C13_trees() { h13trees(trees) }

// H_C13_names has groups, variables and dimensions of any names.
func H_C13_names() {
	a, b, c := symName("a"), symName("b"), symName("c")
	vh.Assume(a != b)
	w := &wgroup{groups: []*wgroup{
		{name: a, vars: []wvar{mkvar("v", tShort, []int{2}, []string{"DD"})}, groups: []*wgroup{{name: c}}},
		{name: b, vars: []wvar{mkvar("v", tInt, nil, nil)}, groups: []*wgroup{{name: c, attrs: []wattr{mkattr("t", tByte, -1)}}}},
	}}
	v := symName("v")
	vh.Assume(v != a && c != "v")
	w.vars = []wvar{mkvar("u", tInt, []int{2}, []string{"DD"})}
	w.vars[0].name = v
	vh.Assume(v != b)
	g := openHdf5(writeHdf5(w))
	checkRootDims(g, w)
	w.walk("/", func(path string, x *wgroup) { checkGroup(subgroup(g, path), x) })
	for _, s := range w.groups {
		up := subgroup(g, s.name)
		checkGroup(subgroup(up, c), s.groups[0])
		checkSame(subgroup(up, "/"+b), w.groups[1])
	}
	vh.Reach("checked")
}

// H_C13_dims has dimensions first used in any of several groups.
func H_C13_dims() {
	mk := func(name string) []wvar {
		switch vh.Choose("vars", 5) {
		case 0:
			return nil
		case 1:
			return []wvar{mkvar(name, tShort, []int{3}, []string{"x"})}
		case 2:
			return []wvar{mkvar(name, tInt, []int{2, 3}, []string{"z", "x"})}
		case 3:
			return []wvar{mkvar("x", tByte, []int{3}, []string{"x"})}
		}
		return []wvar{mkvar("x", tDouble, []int{2, 2}, []string{"z", "z"}), mkvar(name, tByte, []int{2, 1}, []string{"z", name})}
	}
	w := &wgroup{vars: mk("p"), groups: []*wgroup{
		{name: "a", vars: mk("q"), groups: []*wgroup{{name: "b", vars: mk("r")}}}}}
	g := openHdf5(writeHdf5(w))
	checkRootDims(g, w)
	w.walk("/", func(path string, x *wgroup) { checkGroup(subgroup(g, path), x) })
	vh.Reach("checked")
}

// H_C13_again: CreateGroup with the name of a group that is there gives that group.
func H_C13_again() {
	fn := vh.TempFile("h.nc")
	hw, err := hdf5.OpenWriter(fn)
	must(err, "OpenWriter")
	depth := vh.Choose("depth", 2)
	at := hw
	if depth == 1 {
		at, err = hw.CreateGroup("top")
		must(err, "CreateGroup")
	}
	v1, v2 := mkvar("v1", tShort, []int{2}, []string{"x"}), mkvar("v2", tInt, []int{2}, []string{"x"})
	for _, v := range []wvar{v1, v2} {
		s, err := at.CreateGroup("g")
		must(err, "CreateGroup")
		must(s.AddVar(v.name, api.Variable{Values: v.val, Dimensions: v.dims}), "AddVar")
	}
	must(hw.Close(), "Close")
	w := &wgroup{groups: []*wgroup{{name: "g", vars: []wvar{v1, v2}}}}
	if depth == 1 {
		w.groups[0] = &wgroup{name: "top", groups: w.groups[:1:1]}
		w.groups[0].groups = []*wgroup{{name: "g", vars: []wvar{v1, v2}}}
	}
	g := openHdf5(fn)
	checkTree(g, w)
}

// etree encodes a tree of groups, independently of the writer.
type etree struct {
	f       *hfile
	way     int // 0 links in messages, 1 symbol tables, 2 dense links
	leafLen int
	nodeLen int
}

func (e *etree) put(w *wgroup) uint64 {
	var links []hlink
	for _, v := range w.vars {
		links = append(links, hlink{v.name, e.f.dataset(&hset{ty: v.ty, shape: v.shape, raw: v.raw})})
	}
	for _, s := range w.groups {
		links = append(links, hlink{s.name, e.put(s)})
	}
	var attrs []hmsg
	for i, a := range w.attrs {
		ds := dspace()
		if a.n != 1 {
			ds = dspace(a.n)
		}
		ver := 3
		if e.f.v1 {
			ver = 1
			ds = dspace1(a.n)
		}
		attrs = append(attrs, hmsg{ty: 12, body: attrMsg(ver, a.name, dtOf(a.ty, false), ds, a.raw), co: i})
	}
	switch e.way {
	case 1:
		sorted := append([]hlink(nil), links...)
		for i := range sorted {
			for j := i; j > 0 && sorted[j].name < sorted[j-1].name; j-- {
				sorted[j], sorted[j-1] = sorted[j-1], sorted[j]
			}
		}
		return e.f.oldGroup(sorted, e.leafLen, e.nodeLen, attrs...)
	case 2:
		return e.f.denseGroup(links, attrs...)
	}
	return e.f.group(links, attrs...)
}

// letree makes little-endian variables and attributes of the tree.
func letree(w *wgroup) {
	for i := range w.vars {
		v := &w.vars[i]
		v.dims = nil
		v.exp = decode(v.ty, v.raw, v.shape, true)
	}
	for i := range w.attrs {
		a := &w.attrs[i]
		if a.n == 1 {
			a.exp = decode(a.ty, a.raw, nil, true)
		} else {
			a.exp = decode(a.ty, a.raw, []int{a.n}, true)
		}
	}
	for _, s := range w.groups {
		letree(s)
	}
}

func h13read(list [][]int) {
	w := mktree(list[vh.Choose("tree", len(list))], vh.Choose("vars", 3))
	letree(w)
	e := &etree{f: newHfile(vh.Choose("version", 2) == 0), way: vh.Choose("links", 3), leafLen: 8, nodeLen: 32}
	if e.way == 1 && vh.Choose("small", 2) == 1 {
		e.leafLen, e.nodeLen = 1, 2
	}
	e.f.split = vh.Choose("split", 3)
	g := openHBytes(e.f.finish(e.put(w)))
	w.walk("/", func(path string, x *wgroup) {
		s := subgroup(g, path)
		checkGroup(s, x)
		for _, y := range x.groups {
			checkSame(subgroup(s, y.name), y)
		}
		s.Close()
	})
	g.Close()
	vh.Reach("checked")
}

// H_C13_read reads trees that are encoded in all the ways the format has for groups.
func H_C13_read()  { h13read(trees[2:5]) }
func HT_C13_read() { h13read(trees) }

func hdense(n int) {
	f := newHfile(false)
	f.dense = dense{[]fheap{smallHeap(32), smallHeap(40), bigHeap(32)}[vh.Choose("heap", 3)], 45, 20}
	switch vh.Choose("tree", 3) {
	case 1:
		f.dense.leaf, f.dense.inner = 3, 2
	case 2:
		f.dense.leaf, f.dense.inner = 2, 1
	}
	var vars []wvar
	var links []hlink
	for i := 0; i < n; i++ {
		name := "variable_" + string(rune('a'+i%26)) + string(rune('a'+i/26))
		v := mkvar(name, []int{tInt, tShort, tByte}[i%3], nil, nil)
		v.exp = decode(v.ty, v.raw, nil, true)
		vars = append(vars, v)
		links = append(links, hlink{name, f.dataset(&hset{ty: v.ty, raw: v.raw})})
	}
	g := openHBytes(f.finish(f.denseGroup(links)))
	checkVars(g, vars)
	vh.Reach("checked")
}

// H_C13_dense has groups whose links are in fractal heaps of one and more blocks,
// nested ones too, indexed by B-trees of one and more levels.
func H_C13_dense() {
	// 2 are in one block; 10 fill three direct blocks; 30 and 80 take indirect blocks
	hdense([]int{2, 10, 30, 80}[vh.Choose("links", tierInt(3, 4))])
}

// named makes three variables with the names of dimensions, their own or others, or none.
func named() *wgroup {
	n := 3 // lengths which are the same do not tell dimensions apart
	if vh.Choose("square", 2) == 0 {
		n = 2
	}
	w := &wgroup{groups: []*wgroup{{name: "sub"}}}
	for i, name := range []string{"x", "y", "v"} {
		k := vh.Choose("dims", 6)
		if k == 5 {
			continue
		}
		dims := [][]string{{}, {"x"}, {"y"}, {"y", "x"}, {"x", "x"}}[k]
		var shape []int
		for _, d := range dims {
			if d == "x" {
				shape = append(shape, 2)
			} else {
				shape = append(shape, n)
			}
		}
		v := mkvar(name, []int{tByte, tShort, tInt}[i], shape, dims)
		if i == 2 && vh.Choose("sub", 2) == 1 {
			w.groups[0].vars = append(w.groups[0].vars, v)
		} else {
			w.vars = append(w.vars, v)
		}
	}
	return w
}

// H_C13_named: variables with the names of dimensions they have or have not.
func H_C13_named() {
	w := named()
	g := openHdf5(writeHdf5(w))
	checkRootDims(g, w)
	w.walk("/", func(path string, x *wgroup) { checkGroup(subgroup(g, path), x) })
	vh.Reach("checked")
}

// H_C14_named has the same in the bytes of the file.
func H_C14_named() { structural(named(), nil) }
