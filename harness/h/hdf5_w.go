package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/vh"
)

// wgroup is a group to be written.
type wgroup struct {
	name   string
	attrs  []wattr
	vars   []wvar
	groups []*wgroup
}

func (g *wgroup) write(w api.Writer) {
	for _, v := range g.vars {
		must(w.AddVar(v.name, api.Variable{Values: v.val, Dimensions: v.dims, Attributes: v.attrs}), "AddVar")
	}
	if g.attrs != nil {
		must(w.AddAttributes(attrMap(g.attrs)), "AddAttributes")
	}
	for _, s := range g.groups {
		sw, err := w.CreateGroup(s.name)
		must(err, "CreateGroup")
		s.write(sw)
		must(sw.Close(), "Close of a group")
	}
}

func writeHdf5(root *wgroup) string {
	fn := vh.TempFile("h.nc")
	w, err := hdf5.OpenWriter(fn)
	must(err, "OpenWriter")
	root.write(w)
	must(w.Close(), "Close")
	return fn
}

func hvars(vars []wvar) *wgroup { return &wgroup{vars: vars} }

func has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if has(a[:i], a[i]) || !has(b, a[i]) {
			return false
		}
	}
	return true
}

func checkHVar(g api.Group, v wvar) {
	got, err := g.GetVariable(v.name)
	must(err, "GetVariable")
	vh.Assert(vh.Eq(got.Values, v.exp), "value read differs from value written")
	vh.Assert(sameStrings(got.Dimensions, v.dims), "dimension names differ")
}

// checkVars compares the variables of one group.
func checkVars(g api.Group, vars []wvar) {
	var want []string
	for _, v := range vars {
		want = append(want, v.name)
	}
	vh.Assert(sameSet(g.ListVariables(), want), "list of variables differs")
	for _, v := range vars {
		checkHVar(g, v)
	}
}

func openHdf5(fn string) api.Group {
	g, err := hdf5.Open(fn)
	must(err, "Open")
	return g
}

func checkHdf5(fn string, vars []wvar) {
	g := openHdf5(fn)
	checkVars(g, vars)
	g.Close()
	vh.Reach("checked")
}

// numeric types
var numTypes = []int{tByte, tShort, tInt, tFloat, tDouble, tUByte, tUShort, tUInt, tInt64, tUInt64}

func pickNum() int { return numTypes[vh.Choose("type", len(numTypes))] }

func H_C10_single() {
	shape := shapes1[vh.Choose("shape", len(shapes1))]
	v := []wvar{mkvar("x", pickNum(), shape, dimNames("d", len(shape)))}
	checkHdf5(writeHdf5(hvars(v)), v)
}

// H_C10_pair has two variables over the same or different dimensions.
func H_C10_pair() {
	sh := [][]int{{}, {3}, {2, 3}, {3, 2}}
	names := map[int]string{2: "two", 3: "three"}
	mk := func(name string) wvar {
		s := sh[vh.Choose("shape", len(sh))]
		var d []string
		for _, n := range s {
			d = append(d, names[n])
		}
		return mkvar(name, pickNum(), s, d)
	}
	v := []wvar{mk("b"), mk("a")}
	checkHdf5(writeHdf5(hvars(v)), v)
}

// permuted gives the numbers below n in any order.
func permuted(n int) []int {
	var r []int
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		k := vh.Choose("perm", n)
		vh.Assume(!used[k])
		used[k] = true
		r = append(r, k)
	}
	return r
}

func h10coord(n int) {
	all := []wvar{
		mkvar("lat", tDouble, []int{2}, []string{"lat"}),
		mkvar("temp", pickNum(), []int{2, 3}, []string{"lat", "lon"}),
		mkvar("lon", tFloat, []int{3}, []string{"lon"}),
		mkvar("time", tInt, []int{2}, []string{"time"}),
		mkvar("a", tShort, []int{2}, []string{"zzz"}),
	}[:n]
	var v []wvar
	for _, k := range permuted(n) {
		v = append(v, all[k])
	}
	checkHdf5(writeHdf5(hvars(v)), v)
}

// H_C10_coord has coordinate variables: named as their dimension.
func H_C10_coord()  { h10coord(3) }
func HT_C10_coord() { h10coord(5) }

// H_C10_coord2 has variables named as a dimension which are not its coordinate
// variable, because they are scalars, or have other dimensions.
func H_C10_coord2() {
	shape := [][]int{{}, {2}, {3}, {2, 3}, {3, 2}}[vh.Choose("shape", 5)]
	names := map[int]string{2: "x", 3: "y"}
	var d []string
	for _, n := range shape {
		d = append(d, names[n])
	}
	v := []wvar{
		mkvar("x", pickNum(), shape, d),
		mkvar("v", tInt, []int{2}, []string{"x"}),
	}
	if vh.Choose("order", 2) == 1 {
		v[0], v[1] = v[1], v[0]
	}
	checkHdf5(writeHdf5(hvars(v)), v)
}

// H_C10_same has variables that use one dimension twice.
func H_C10_same() {
	v := []wvar{mkvar("m", pickNum(), []int{2, 2}, []string{"x", "x"}),
		mkvar("n", pickNum(), []int{2, 3, 2}, []string{"x", "y", "x"})}
	checkHdf5(writeHdf5(hvars(v)), v)
}

func h10many(n int) {
	var v []wvar
	start := vh.Choose("start", len(numTypes))
	for i := 0; i < n; i++ {
		k := (i * 7) % n
		shape := shapes1[(start+i*2)%8]
		name := "v" + string(rune('0'+k/10)) + string(rune('0'+k%10))
		v = append(v, mkvar(name, numTypes[(start+i)%len(numTypes)], shape, dimNames(name+"d", len(shape))))
	}
	checkHdf5(writeHdf5(hvars(v)), v)
}

func H_C10_many()  { h10many(9) }
func HT_C10_many() { h10many(40) }

// H_C10_empty has an innermost dimension of length zero.
func H_C10_empty() {
	shape := [][]int{{0}, {2, 0}, {3, 2, 0}}[vh.Choose("shape", 3)]
	v := []wvar{mkvar("e", pickNum(), shape, dimNames("d", len(shape))), mkvar("f", tShort, []int{2}, []string{"f"})}
	checkHdf5(writeHdf5(hvars(v)), v)
}

// H_C10_names has arbitrary names.
func H_C10_names() {
	a, b, d := symName("a"), symName("b"), symName("d")
	vh.Assume(a != b)
	v := []wvar{mkvar("a", tShort, []int{2}, []string{d}), mkvar("b", tInt, []int{2}, []string{d})}
	v[0].name, v[1].name = a, b
	checkHdf5(writeHdf5(hvars(v)), v)
}

// symName is a name of one or two letters.
func symName(what string) string {
	s := vh.Str(what, 1+vh.Choose("len", 2))
	for i := 0; i < len(s); i++ {
		vh.Assume(vh.And(s[i] >= 'a', s[i] <= 'z'))
	}
	return s
}
