package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/vh"
)

// Names and paths of any bytes are looked up.

func listed(list []string, s string) bool {
	found := false
	for _, x := range list {
		found = vh.Or(found, x == s)
	}
	return found
}

// lookups has everything found by a name that is listed, and nothing else.
func lookups(g api.Group, s string, op int) {
	switch op {
	case 0:
		v, err := g.GetVariable(s)
		vh.Assert((err == nil) == listed(g.ListVariables(), s), "a variable is found or not, other than listed")
		vh.Assert((v != nil) == (err == nil), "neither variable nor error, or both")
	case 1:
		v, err := g.GetVarGetter(s)
		vh.Assert((err == nil) == listed(g.ListVariables(), s), "a getter is found or not, other than listed")
		vh.Assert((v != nil) == (err == nil), "neither getter nor error, or both")
	case 2:
		_, ok := g.GetDimension(s)
		vh.Assert(ok == listed(g.ListDimensions(), s), "a dimension is found or not, other than listed")
	case 3:
		_, ok := g.GetType(s)
		vh.Assert(ok == listed(g.ListTypes(), s), "a type is found or not, other than listed")
		_, ok = g.GetGoType(s)
		vh.Assert(ok == listed(g.ListTypes(), s), "a type is found or not, other than listed")
	case 4:
		a := g.Attributes()
		_, ok := a.Get(s)
		vh.Assert(ok == listed(a.Keys(), s), "an attribute is found or not, other than listed")
		_, ok = a.GetType(s)
		vh.Assert(ok == listed(a.Keys(), s), "an attribute's type is found or not, other than listed")
		_, ok = a.GetGoType(s)
		vh.Assert(ok == listed(a.Keys(), s), "an attribute's type is found or not, other than listed")
	}
	vh.Reach("looked up")
}

func lookupVars() []wvar {
	vars := []wvar{mkvar("a", tShort, []int{2}, []string{"x"}), mkvar("x", tByte, []int{2}, []string{"x"}),
		mkvar("ab", tInt, []int{3, 2}, []string{"y", "x"}), mkvar("abc", tByte, nil, nil)}
	vars[2].attrs = amap([]string{"u", "ux"}, map[string]any{"u": int32(1), "ux": "text"})
	return vars
}

// H_C38_names: variables, dimensions and attributes.
func H_C38_names() {
	fn := vh.TempFile("l.nc")
	kind := netcdf.FileKind(vh.Choose("kind", 2))
	w, err := netcdf.OpenWriter(fn, kind)
	must(err, "OpenWriter")
	ws := []api.Writer{w}
	if kind != netcdf.KindCDF {
		sub, err := w.CreateGroup("g")
		must(err, "CreateGroup")
		deep, err := sub.CreateGroup("g")
		must(err, "CreateGroup")
		ws = append(ws, sub, deep)
	}
	at := vh.Choose("group", len(ws))
	must(ws[at].AddAttributes(amap([]string{"u", "xu", "xuy"}, map[string]any{"u": int32(1), "xu": 1.5, "xuy": "text"})), "AddAttributes")
	for _, v := range lookupVars() {
		addGood(ws[at], v)
	}
	for i := len(ws) - 1; i > 0; i-- {
		if i != at {
			addGood(ws[i], mkvar("b", tByte, []int{4}, []string{"z"}))
		}
	}
	must(w.Close(), "Close")
	root, err := netcdf.Open(fn)
	must(err, "Open")
	g := subgroup(root, []string{"/", "/g", "/g/g"}[at])
	s := vh.Str("name", vh.Choose("len", 4))
	op := vh.Choose("op", 6)
	if op < 5 {
		lookups(g, s, op)
	} else {
		v, err := g.GetVarGetter("ab")
		must(err, "GetVarGetter")
		_, ok := v.Attributes().Get(s)
		vh.Assert(ok == vh.Or(s == "u", s == "ux"), "an attribute is found or not, other than listed")
	}
	g.Close()
	root.Close()
}

// H_C38_types: named types, of which some are in other groups.
func H_C38_types() {
	u := newUfile(vh.Choose("v1", 2) == 1)
	a, b := utypes(0, 1), utypes(2, 1)
	ta, tb := u.committed(a), u.committed(b)
	val := a.value(u.h, "x")
	x := u.f.dataset(&hset{dt: a.encode(), shape: []int{1}, raw: val.raw})
	g := u.finish([]hlink{{"t", ta}, {"ta", tb}, {"x", x}})
	vh.Assert(sameSet(g.ListTypes(), []string{"t", "ta"}), "types differ")
	lookups(g, vh.Str("name", vh.Choose("len", 4)), vh.Choose("op", 5))
	g.Close()
}

// H_C38_paths: paths of any bytes, from every group.
func H_C38_paths() {
	fn := vh.TempFile("p.nc")
	w, err := netcdf.OpenWriter(fn, netcdf.KindHDF5)
	must(err, "OpenWriter")
	paths := []string{"/", "/a", "/a/a", "/a/b", "/ab", "/b"}
	subs := map[string]api.Writer{"/": w}
	for i, p := range paths {
		if i > 0 {
			up, n := split(p)
			subs[p], err = subs[up].CreateGroup(n)
			must(err, "CreateGroup")
		}
		addGood(subs[p], wvar{name: "v" + number(i), val: int8(i), exp: int8(i)})
	}
	must(w.Close(), "Close")
	root, err := netcdf.Open(fn)
	must(err, "Open")
	from := vh.Choose("from", 3)
	g := subgroup(root, paths[from])
	s := vh.Str("path", vh.Choose("len", tierInt(8, 10)))
	at := paths[from]
	if len(s) > 0 && s[0] == '/' {
		at = "/"
	}
	name := ""
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != '/' {
			name += s[i : i+1]
			continue
		}
		if name == "" {
			continue
		}
		if at != "/" {
			at += "/"
		}
		at += name
		name = ""
	}
	want := -1
	for i, p := range paths {
		if at == p {
			want = i
		}
	}
	got, err := g.GetGroup(s)
	if len(s) == 0 {
		vh.Assert(err != nil || has(got.ListVariables(), "v"+number(from)), "another group")
		vh.Reach("empty")
		return
	}
	vh.Assert((err == nil) == (want >= 0), "a group is found or not, other than its path says")
	if err == nil {
		vh.Assert(sameStrings(got.ListVariables(), []string{"v" + number(want)}), "another group")
		v, err := got.GetVariable("v" + number(want))
		must(err, "GetVariable")
		vh.Assert(vh.Eq(v.Values, int8(want)), "another group's variable")
		got.Close()
		vh.Reach("found")
	}
	g.Close()
	root.Close()
	vh.Reach("looked up")
}

// split has the path of the group above and the name in it.
func split(p string) (string, string) {
	for i := len(p) - 1; i > 0; i-- {
		if p[i] == '/' {
			return p[:i], p[i+1:]
		}
	}
	return "/", p[1:]
}
