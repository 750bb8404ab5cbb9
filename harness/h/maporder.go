package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/vh"
)

// Go iterates over maps in any order, another one each time. Natively everything is done
// several times, because there the order can't be chosen.

// anyOrder chooses the order of some of the iterations that follow: of all of them
// (reversed), or of any n of them.
func anyOrder(n int) {
	k := vh.Choose("order", 2)
	if k == 0 {
		vh.MapOrder(2)
	} else {
		vh.MapOrder(2 + n)
	}
}

func tries() int {
	if vh.Symbolic() {
		return 1
	}
	return 64
}

// orderTree has groups with several of everything that is kept in maps.
func orderTree() *wgroup {
	strs := func(s ...string) wattr { return wattr{name: "a" + s[0], val: s, exp: s} }
	level := func(n string) *wgroup {
		g := &wgroup{name: "g" + n}
		g.vars = []wvar{
			{name: "s" + n, shape: []int{2}, val: []string{"p" + n, "longer"}, exp: []string{"p" + n, "longer"}, dims: []string{"x"}},
			mkvar("x", tShort, []int{2}, []string{"x"}),
			mkvar("m"+n, tByte, []int{2, 3}, []string{"x", "y"}),
			mkvar("y", tInt, []int{3}, []string{"y"}),
		}
		g.attrs = []wattr{strs("1"+n, "one"), strs("2" + n), mkattr("n", tInt, 2)}
		g.attrs[1].exp = "2" + n
		g.attrs[1].val = "2" + n
		g.vars[2].attrs = attrMap([]wattr{strs("l"+n, "m", "")})
		return g
	}
	w := level("")
	switch vh.Choose("tree", 4) {
	case 1:
		w.groups = []*wgroup{level("a")}
	case 2:
		w.groups = []*wgroup{level("a"), level("b")}
	case 3: // with different dimensions and without coordinate variables
		w.vars = []wvar{mkvar("d", tByte, []int{2, 3}, []string{"d", "e"}), mkvar("v", tShort, []int{3, 4}, []string{"e", "f"}), mkvar("w", tInt, []int{4, 1}, []string{"f", "k"})}
		w.groups = []*wgroup{{name: "g", vars: []wvar{mkvar("e", tByte, []int{3}, []string{"e"}), mkvar("u", tInt, []int{5, 1}, []string{"z", "k"})}}, {name: "h"}}
	}
	return w
}

// H_C39_written: files are right in whatever order the writer goes over its maps.
func H_C39_written() {
	w := orderTree()
	vattrs := map[string][]wattr{}
	w.walk("", func(path string, g *wgroup) {
		if len(g.vars) == 4 {
			l := "l" + g.vars[0].name[1:]
			vattrs[path+"/"+g.vars[2].name] = []wattr{{name: "a" + l, val: []string{l, "m", ""}, exp: []string{l, "m", ""}}}
		}
	})
	orders := func(g api.Group) [][]string {
		var r [][]string
		w.walk("/", func(path string, x *wgroup) {
			s := subgroup(g, path)
			r = append(r, s.ListVariables(), s.ListSubgroups(), s.ListDimensions())
			s.Close()
		})
		return r
	}
	g := openHdf5(writeHdf5(w))
	first := orders(g)
	g.Close()
	for range tries() {
		fn := vh.TempFile("o.nc")
		x, err := hdf5.OpenWriter(fn)
		must(err, "OpenWriter")
		anyOrder(tierInt(1, 2))
		w.write(x)
		err = x.Close()
		vh.MapOrder(0)
		must(err, "Close")
		b := readFile(fn)
		parseHdf5(b).checkFile(w, vattrs)
		g := openHBytes(b)
		vh.Assert(vh.Eq(orders(g), first), "the order of names depends on the order in maps")
		checkRootDims(g, w)
		w.walk("/", func(path string, x *wgroup) { checkGroup(subgroup(g, path), x) })
		g.Close()
	}
	vh.Reach("checked")
}

// H_C39_read: files are read the same, and lists are in the same order, in whatever order the
// reader goes over its maps.
func H_C39_read() {
	k := vh.Choose("file", nOddFiles+4)
	vh.Assume(vh.Thorough() || k == 1 || k == 6 || k == 8 || k >= nOddFiles)
	var b []byte
	if k < nOddFiles {
		b = oddFile(k)
	} else {
		b = orderFile(k - nOddFiles)
	}
	plain, err := netcdf.New(&memReader{b: b})
	must(err, "New")
	rs := allReads(plain, "/", 2)
	for i := range rs {
		rs[i].exp, err = rs[i].do(plain)
		must(err, rs[i].what)
	}
	plain.Close()
	for range tries() {
		what := vh.Choose("what", len(rs)+1)
		if what == len(rs) {
			anyOrder(tierInt(1, 2))
		}
		g, err := netcdf.New(&memReader{b: b})
		must(err, "New")
		vh.MapOrder(0)
		for i, r := range rs {
			if i == what {
				anyOrder(tierInt(1, 2))
			} else if what < len(rs) {
				continue
			}
			got, err := r.do(g)
			vh.MapOrder(0)
			must(err, r.what)
			vh.Assert(vh.Eq(got, r.exp), "what is read depends on the order in maps: "+r.what)
		}
		g.Close()
		if !vh.Symbolic() {
			continue
		}
		vh.Reach("read")
	}
}

// orderFile has files with many names.
func orderFile(k int) []byte {
	x, y := &sdim{name: "x", n: 2, id: 0}, &sdim{name: "y", n: 3, id: 1}
	z := &sdim{name: "x", n: 1, id: 2}
	s := &scales{root: &sgroup{dims: []*sdim{x, y}}}
	switch k {
	case 0, 1:
		sub := &sgroup{name: "g", dims: []*sdim{z}}
		s.root.groups = []*sgroup{sub, {name: "h"}}
		s.variable(s.root, "x", tByte, x)
		s.variable(s.root, "v", tInt, y, x)
		s.variable(s.root, "y", tShort, x)
		s.variable(sub, "x", tByte, z, y)
		s.variable(sub, "w", tInt, x)
		if k == 0 {
			s.lists, s.numbers, s.refs = true, true, 1
		} else {
			s.v1, s.numbers = true, true
		}
		return s.encode()
	case 2: // types in groups, with the same contents
		u := newUfile(false)
		u.h.same = true
		t := utypes(0, 1)
		v := t.value(u.h, "u")
		set := func() uint64 { return u.f.dataset(&hset{dt: t.encode(), shape: []int{1}, raw: v.raw}) }
		return u.encode([]hlink{{"v", set()}, {"b_t", u.committed(t)}, {"a_t", u.committed(t)}, {"e_t", u.committed(utypes(2, 1))}, {"w", set()}})
	}
	return readFile(writeHdf5(orderTree()))
}

var _ api.Group
