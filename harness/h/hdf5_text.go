package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/util"
	"github.com/batchatco/go-native-netcdf/vh"
)

// text is a string of n bytes, none of them NUL.
func text(name string, n int) string {
	s := vh.Str(name, n)
	for i := 0; i < n; i++ {
		vh.Assume(s[i] != 0)
	}
	return s
}

func texts(name string, n, maxLen int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = text(name, vh.Choose("strlen", maxLen+1))
	}
	return r
}

func tvar(name string, val any, dims ...string) wvar {
	return wvar{name: name, val: val, exp: val, dims: dims}
}

func tierInt(quick, thorough int) int {
	if vh.Thorough() {
		return thorough
	}
	return quick
}

func H_C11_scalar() {
	v := []wvar{tvar("s", text("s", vh.Choose("len", tierInt(20, 70)))), tvar("t", text("t", vh.Choose("len", 3)))}
	checkHdf5(writeHdf5(hvars(v)), v)
}

func H_C11_list() {
	n := vh.Choose("n", 4)
	v := []wvar{tvar("s", texts("s", n, tierInt(2, 4)), "d")}
	checkHdf5(writeHdf5(hvars(v)), v)
}

func H_C11_long() {
	v := []wvar{tvar("s", []string{text("s", vh.Choose("len", tierInt(18, 40))), text("s", 1)}, "d")}
	checkHdf5(writeHdf5(hvars(v)), v)
}

func H_C11_2d() {
	val := [][]string{texts("s", 2, 1), texts("t", 2, 1)}
	v := []wvar{tvar("s", val, "d", "e")}
	checkHdf5(writeHdf5(hvars(v)), v)
}

func H_C11_3d() {
	val := [][][]string{{{text("a", 1), text("b", 2)}}, {{text("c", 0), text("d", 1)}}, {{text("e", 3), text("f", 1)}}}
	v := []wvar{tvar("s", val, "d", "e", "f")}
	checkHdf5(writeHdf5(hvars(v)), v)
}

func H_C11_empty() {
	var v []wvar
	switch vh.Choose("shape", 3) {
	case 0:
		v = append(v, tvar("s", []string{}, "d"))
	case 1:
		v = append(v, tvar("s", [][]string{{}, {}}, "d", "e"))
	case 2:
		v = append(v, tvar("s", [][]string{{""}, {""}}, "d", "e"))
	}
	v = append(v, tvar("t", texts("t", 1, 2), "f"))
	checkHdf5(writeHdf5(hvars(v)), v)
}

// H_C11_mixed has text in several variables, a coordinate variable among them,
// and in attributes, next to numbers.
func H_C11_mixed() {
	a := []wattr{{name: "s", val: text("s", 2), exp: nil}, {name: "l", val: []string{text("l", 1), text("l", 2)}}}
	for i := range a {
		a[i].exp = a[i].val
	}
	v := []wvar{
		tvar("x", []string{text("x", 1), text("x", 2)}, "x"),
		tvar("y", []string{text("y", 2), text("y", 1)}, "x"),
		mkvar("n", tDouble, []int{2}, []string{"x"}),
		tvar("z", text("z", 2)),
	}
	k := vh.Choose("attrs", 4)
	v[k].attrs = attrMap(a)
	fn := writeHdf5(hvars(v))
	checkHdf5(fn, v)
	g := openHdf5(fn)
	got, err := g.GetVariable(v[k].name)
	must(err, "GetVariable")
	checkAttrs(got.Attributes, a)
	g.Close()
}

// H_C11_equal has equal strings, and strings like those the writer uses itself.
func H_C11_equal() {
	s := text("s", 1)
	u := text("u", 9)
	v := []wvar{tvar("d", []string{s, u, s}, "d"), tvar("e", []string{"__dimref:d", u, s}, "d"), tvar("f", [][]string{{u, "d"}}, "one", "two")}
	checkHdf5(writeHdf5(hvars(v)), v)
}

func number(i int) string {
	s := ""
	for ; i > 0; i /= 10 {
		s = string(rune('0'+i%10)) + s
	}
	return s
}

// H_C11_many has more strings than fit in the smallest heap.
func H_C11_many() {
	n := tierInt(200, 600)
	l := make([]string, n)
	for i := range l {
		l[i] = "string " + number(i)
	}
	for _, i := range []int{0, n / 2, n - 1} {
		l[i] = text("s", 20)
	}
	v := []wvar{tvar("s", l, "d"), tvar("t", texts("t", 2, 1), "e")}
	checkHdf5(writeHdf5(hvars(v)), v)
}

// H_C11_groups has text in groups.
func H_C11_groups() {
	v := []wvar{tvar("s", texts("s", 2, 1), "d"), tvar("t", text("t", 2))}
	w := []wvar{tvar("s", texts("s", 2, 1), "d"), tvar("t", text("t", 1))}
	fn := writeHdf5(&wgroup{vars: v, groups: []*wgroup{{name: "g", vars: w}}})
	g := openHdf5(fn)
	checkVars(g, v)
	s, err := g.GetGroup("g")
	must(err, "GetGroup")
	checkVars(s, w)
	s.Close()
	g.Close()
	vh.Reach("checked")
}

// ---- attributes

// hattr makes an attribute; a list of strings when ty is tStrings.
const tStrings = 0

func hattr(name string, ty, n int) wattr {
	switch ty {
	case tStrings:
		if n < 0 {
			n = 1
		}
		v := make([]string, n)
		for i := range v {
			v[i] = text(name, vh.Choose("strlen", 3))
		}
		a := wattr{name: name, val: v, exp: v}
		if n == 1 {
			a.exp = v[0]
		}
		return a
	case tChar:
		if n < 0 {
			n = 1
		}
		s := text(name, n)
		return wattr{name: name, val: s, exp: s}
	}
	return mkattr(name, ty, n)
}

// hplace puts attributes somewhere in a file with groups and coordinate
// variables, reads the file, and compares them.
func hplace(as []wattr) {
	other := []wattr{{name: "other", val: int8(7), exp: int8(7)}}
	g := &wgroup{vars: []wvar{
		mkvar("x", tShort, []int{2}, []string{"x"}),
		mkvar("v", tInt, []int{2, 1}, []string{"x", "y"}),
		mkvar("s", tDouble, nil, nil),
	}, groups: []*wgroup{{name: "g", vars: []wvar{mkvar("v", tInt, []int{2}, []string{"x"})}}}}
	where := vh.Choose("where", 6)
	var all [6][]wattr
	for i := range all {
		if i == where {
			all[i] = as
		} else if i%2 == 0 {
			all[i] = other
		}
	}
	g.attrs, g.groups[0].attrs = all[0], all[1]
	vs := []*wvar{&g.vars[0], &g.vars[1], &g.vars[2], &g.groups[0].vars[0]}
	for i, v := range vs {
		v.attrs = attrMap(all[i+2])
	}
	fn := writeHdf5(g)
	r := openHdf5(fn)
	checkAttrs(r.Attributes(), all[0])
	s, err := r.GetGroup("g")
	must(err, "GetGroup")
	checkAttrs(s.Attributes(), all[1])
	for i := range vs {
		from := r
		if i == 3 {
			from = s
		}
		got, err := from.GetVariable(vs[i].name)
		must(err, "GetVariable")
		checkAttrs(got.Attributes, all[i+2])
		vg, err := from.GetVarGetter(vs[i].name)
		must(err, "GetVarGetter")
		checkAttrs(vg.Attributes(), all[i+2])
	}
	s.Close()
	r.Close()
	vh.Reach("checked")
}

func H_C12_one() {
	ty := vh.Choose("type", 12)
	n := attrLens[vh.Choose("len", len(attrLens))]
	if ty == tStrings {
		vh.Assume(n <= 2)
	}
	hplace([]wattr{hattr("att", ty, n)})
}

func H_C12_two() {
	lens := []int{-1, 2}
	a := hattr("zz", 1+vh.Choose("type", 11), lens[vh.Choose("len", 2)])
	tb := []int{tStrings, tChar, tByte, tDouble}[vh.Choose("type", 4)]
	b := hattr("aaa", tb, lens[vh.Choose("len", 2)])
	hplace([]wattr{a, b})
}

// H_C12_order: order is kept, whatever the names are.
func H_C12_order() {
	vh.MapOrder(2 * vh.Choose("maporder", 2))
	var as []wattr
	for i := 0; i < 3; i++ {
		n := symName("n")
		for _, a := range as {
			vh.Assume(a.name != n)
		}
		a := hattr("x", tByte, -1)
		a.name = n
		as = append(as, a)
	}
	hplace(as)
}

// H_C12_many has many attributes.
func H_C12_many() {
	n := tierInt(14, 60)
	var as []wattr
	for i := 0; i < n; i++ {
		k := (i * 11) % n
		as = append(as, hattr("a"+number(k+1), 1+(i%11), 1+i%3))
	}
	hplace(as)
}

// H_C12_map: attributes given as a map that has had keys added and hidden.
func H_C12_map() {
	m, err := util.NewOrderedMap([]string{"b"}, map[string]any{"b": vh.I16("b")})
	must(err, "NewOrderedMap")
	c := vh.I32("c")
	m.Add("c", c)
	m.Add("a", "text")
	m.Hide("b")
	v := mkvar("v", tInt, []int{2}, []string{"x"})
	v.attrs = m
	g := openHdf5(writeHdf5(hvars([]wvar{v})))
	got, err := g.GetVariable("v")
	must(err, "GetVariable")
	checkAttrs(got.Attributes, []wattr{{name: "c", exp: c}, {name: "a", exp: "text"}})
	g.Close()
	vh.Reach("checked")
}

// H_C12_anyorder: whatever order maps are iterated in.
func H_C12_anyorder() {
	as := []wattr{hattr("c", tByte, -1), hattr("a", tByte, -1), hattr("d", tByte, -1), hattr("b", tByte, -1)}
	fn := writeHdf5(&wgroup{attrs: as, vars: []wvar{{name: "v", val: int8(1), attrs: attrMap(as)}}})
	g := openHdf5(fn)
	vh.MapOrder(1)
	m := g.Attributes()
	vh.MapOrder(0)
	checkAttrs(m, as)
	vh.MapOrder(1)
	v, err := g.GetVariable("v")
	vh.MapOrder(0)
	must(err, "GetVariable")
	checkAttrs(v.Attributes, as)
	g.Close()
	vh.Reach("checked")
}

// deepTexts makes groups in groups of the same name, with text and lists of text at all levels.
func deepTexts() *wgroup {
	name := []string{"g", "h"}[vh.Choose("name", 2)]
	sym := vh.Choose("symbolic", 4)
	level := func(n string, k int) *wgroup {
		list := func(s ...string) wattr { return wattr{name: "a" + s[0], val: s, exp: s} }
		other := []string{"fixed", "another"}[k%2]
		if k == sym {
			other = text("s", 2)
		}
		as := []wattr{list(n+"1", "same", other), {name: "b", val: other, exp: other}}
		v := tvar("s", []string{n + "3", "same", other}, "d")
		v.attrs = attrMap([]wattr{list(n+"4", other, "same"), hattr("d", tInt, 2)})
		return &wgroup{name: n, vars: []wvar{v, tvar("t", n+"5")}, attrs: as}
	}
	root, top, low := level("", 1), level("g", 2), level(name, 3)
	root.groups, top.groups = []*wgroup{top}, []*wgroup{low}
	if vh.Choose("beside", 2) == 1 {
		top.groups = append(top.groups, level("x", 0))
	}
	return root
}

func h12nested() {
	w := deepTexts()
	g := openHdf5(writeHdf5(w))
	w.walk("/", func(path string, x *wgroup) {
		s := subgroup(g, path)
		checkGroup(s, x)
		for _, v := range x.vars {
			got, err := s.GetVariable(v.name)
			must(err, "GetVariable")
			if v.attrs == nil {
				vh.Assert(len(got.Attributes.Keys()) == 0, "attributes of a variable differ")
				continue
			}
			vh.Assert(sameStrings(got.Attributes.Keys(), v.attrs.Keys()), "attributes of a variable differ")
			for _, k := range v.attrs.Keys() {
				a, _ := got.Attributes.Get(k)
				b, _ := v.attrs.Get(k)
				vh.Assert(vh.Eq(a, b), "an attribute of a variable differs")
			}
		}
		s.Close()
	})
	g.Close()
	vh.Reach("checked")
}

func H_C11_nested() { h12nested() }
func H_C12_nested() { h12nested() }
