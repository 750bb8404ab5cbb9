package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
	"github.com/batchatco/go-native-netcdf/vh"
)

// task is what one goroutine does with a file of its own, step by step.
type task []func()

func (t task) run() {
	for _, s := range t {
		s()
	}
}

const nTasks = 9

func newTask(k int, name string) task {
	switch k {
	case 0, 1:
		return writing(k == 0, name)
	case 2:
		return reads2(classicBytes(name))
	case 3:
		f := newHfile(true)
		sh := []int{3}
		a := &hset{ty: tInt, shape: sh, chunk: []int{2}, raw: rawFor(name, tInt, sh), filters: []hfilter{shuffled(4), summed()}}
		b := &hset{ty: tShort, shape: sh, raw: rawFor(name, tShort, sh), fill: fixedBytes(2, 7), compact: true}
		c := &hset{ty: tByte, shape: []int{2, 2}, raw: rawFor(name, tByte, []int{2, 2}), chunk: []int{1, 2}}
		return reads2(f.root([]string{"a", "b", "c"}, []*hset{a, b, c}),
			exp("a", decode(tInt, a.raw, sh, true)), exp("b", decode(tShort, b.raw, sh, true)), exp("c", decode(tByte, c.raw, c.shape, true)))
	case 4, 5, 6: // user types
		t := utypes([]int{8, 3, 7}[k-4], 1)
		u := newUfile(k == 5)
		v := t.value(u.h, name)
		m := hmsg{ty: 12, body: attrMsg(1, "a", t.encode(), dspace(1), v.raw)}
		at := u.f.dataset(&hset{dt: t.encode(), shape: []int{1}, raw: v.raw, attrs: []hmsg{m}})
		return reads2(u.encode([]hlink{{"x", at}, {"y_t", u.committed(t)}}))
	case 7:
		_, b := denseFile(dense{smallHeap(32), 2, 2}, 3)
		return reads2(b)
	}
	b := badHBase(3)
	b[96+9] ^= 0x55
	return task{func() {
		g, err := netcdf.New(&memReader{b: b})
		if err == nil {
			touch(g, 1)
			g.Close()
		}
	}, func() {
		_, err := netcdf.New(&memReader{b: []byte("neither of the formats")})
		vh.Assert(err != nil, "not a netCDF file")
	}}
}

// exp says what a variable must be read as.
func exp(name string, val any) wvar { return wvar{name: name, exp: val} }

func writing(classic bool, name string) task {
	fn := vh.TempFile("f.nc")
	av := vh.I16(name)
	attrs := func() api.AttributeMap {
		m, err := util.NewOrderedMap([]string{"k", "l"}, map[string]any{"k": av, "l": "text"})
		must(err, "NewOrderedMap")
		m.Add("m", int32(av))
		return m
	}
	vars := []wvar{
		mkvar("a", tInt, []int{2}, []string{"x"}),
		mkvar("b", tShort, []int{2, 2}, []string{"y", "x"}),
		{name: "s", val: []string{"one", "two"}, exp: []string{"one", "two"}, dims: []string{"x"}},
	}
	if classic {
		vars[2] = mkvar("s", tChar, []int{2}, []string{"x"})
	}
	var w, sub api.Writer
	var g api.Group
	t := task{func() {
		var err error
		if classic {
			w, err = cdf.OpenWriter(fn)
		} else {
			w, err = hdf5.OpenWriter(fn)
		}
		must(err, "OpenWriter")
	}}
	for i, v := range vars {
		t = append(t, func() {
			x := api.Variable{Values: v.val, Dimensions: v.dims}
			if i == 1 {
				x.Attributes = attrs()
			}
			must(w.AddVar(v.name, x), "AddVar")
		})
	}
	t = append(t, func() {
		must(w.AddAttributes(attrs()), "AddAttributes")
		vh.Assert(w.AddVar("a/b", api.Variable{Values: int8(1)}) != nil, "a name with a slash")
	})
	if !classic {
		t = append(t, func() {
			var err error
			sub, err = w.CreateGroup("sub")
			must(err, "CreateGroup")
			must(sub.AddVar("c", api.Variable{Values: av}), "AddVar")
			must(sub.Close(), "Close")
		})
	}
	checkAttr := func(a api.AttributeMap) {
		vh.Assert(sameStrings(a.Keys(), []string{"k", "l", "m"}), "attributes differ")
		k, _ := a.Get("k")
		m, _ := a.Get("m")
		vh.Assert(vh.Eq(k, av) && vh.Eq(m, int32(av)), "attribute differs")
	}
	t = append(t, func() {
		must(w.Close(), "Close")
	}, func() {
		var err error
		g, err = netcdf.Open(fn)
		must(err, "Open")
	})
	for _, v := range vars {
		t = append(t, func() {
			checkHVar(g, v)
			if v.name == "b" {
				vg, err := g.GetVarGetter("b")
				must(err, "GetVarGetter")
				checkAttr(vg.Attributes())
			}
		})
	}
	return append(t, func() {
		checkAttr(g.Attributes())
		if !classic {
			s, err := g.GetGroup("sub")
			must(err, "GetGroup")
			c, err := s.GetVariable("c")
			must(err, "GetVariable")
			vh.Assert(vh.Eq(c.Values, av), "value read differs from value written")
			s.Close()
		}
		g.Close()
	})
}

func classicBytes(name string) ([]byte, wvar, wvar, wvar) {
	e := &enc{version: 5, numrecs: 2}
	e.gattrs = []wattr{mkattr("g", tChar, 3)}
	e.add("r", tShort, []int{3}, true)
	e.add("s", tUByte, nil, true)
	e.add("t", tInt, []int{2}, false)
	b := e.encode()
	return b, exp("r", e.expect(0)), exp("s", e.expect(1)), exp("t", e.expect(2))
}

// reads2 reads a file, then what is given again.
func reads2(b []byte, vars ...wvar) task {
	var g api.Group
	t := task{func() {
		var err error
		g, err = netcdf.New(&memReader{b: b})
		must(err, "New")
		for _, t := range g.ListTypes() {
			g.GetType(t)
			g.GetGoType(t)
		}
	}, func() {
		touch(g, 1)
	}}
	for _, v := range vars {
		t = append(t, func() {
			x, err := g.GetVariable(v.name)
			must(err, "GetVariable")
			vh.Assert(vh.Eq(x.Values, v.exp), "value read differs from what is in the file")
		})
	}
	return append(t, func() { g.Close() })
}

// H_C30_pairs: two tasks at the same time access no memory in common, but to read it or with a lock.
func H_C30_pairs() {
	i := vh.Choose("first", nTasks)
	a, b := newTask(i, "a"), newTask(vh.Choose("second", nTasks), "b")
	vh.Parallel(a.run, b.run)
	vh.Reach("both done")
}

// H_C30_steps: the steps of two tasks in any order, of which quickly three pieces are.
func H_C30_steps() {
	few := []int{0, 1, 2, 3, 4}
	i := vh.Choose("first", len(few))
	j := vh.Choose("second", i+1)
	a, b := newTask(few[i], "a"), newTask(few[j], "b")
	switches := tierInt(2, 3)
	for len(a) > 0 && len(b) > 0 && switches > 0 {
		n := 1 + vh.Choose("steps", len(a))
		a[:n].run()
		a, b = b, a[n:]
		switches--
	}
	a.run()
	b.run()
	vh.Reach("both done")
}
