package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/vh"
)

type myStruct struct{ A int32 }

// badVar is input that neither format can represent.
const nBad = 19

func badVar(k int, name string) (string, api.Variable) {
	i := func() int32 { return vh.I32("bad") }
	v := func(x interface{}, dims ...string) (string, api.Variable) {
		return name, api.Variable{Values: x, Dimensions: dims}
	}
	switch k {
	case 0:
		return v([][]int32{{i(), i()}, {i()}}, "bx", "by")
	case 1:
		return v([][]int32{{i()}, {i(), i()}})
	case 2:
		return v([][][]int16{{{1, 2}, {3, 4}}, {{5, 6}}}, "bx", "by", "bz")
	case 3:
		return v([][][]float64{{{1, 2}, {3, 4}}, {{5, 6}, {7}}}, "bx", "by", "bz")
	case 4:
		return v(int(i()))
	case 5:
		return v(nil, "bx")
	case 6:
		return v(myStruct{i()}, "bx")
	case 7:
		return v([]bool{true, false}, "bx")
	case 8:
		return v([]int{1, 2}, "bx")
	case 9: // a name that is taken
		return "good1", api.Variable{Values: []int32{i()}, Dimensions: []string{"bx"}}
	case 10: // a dimension with another length
		return v([]int32{i()}, "g1")
	case 11: // the same, after a dimension that is new
		return v([][]int32{{i(), i()}}, "bnew", "g1")
	case 12: // one dimension with two lengths
		return v([][]int32{{i(), i(), i()}, {i(), i(), i()}}, "bx", "bx")
	case 13:
		n, x := v([]int32{i()}, "bx")
		return "bad/" + n, x
	case 14:
		n, x := v([]int32{i()}, "bx")
		x.Attributes = amap([]string{"bad/name"}, map[string]interface{}{"bad/name": int32(1)})
		return n, x
	case 15:
		n, x := v([]uint8{1}, "bx")
		x.Attributes = amap([]string{"att"}, map[string]interface{}{"att": int(1)})
		return n, x
	case 16:
		return v([][]string{{"a", "b"}, {"c"}}, "bx", "by", "bz")
	case 17: // more dimension names than dimensions
		return v([]int32{i(), i()}, "bx", "by")
	case 18:
		return v(i(), "g1")
	}
	return v(map[string]int32{"a": 1}, "bx")
}

func goodVars() []wvar {
	return []wvar{
		mkvar("good1", tShort, []int{3}, []string{"g1"}),
		mkvar("good2", tInt, []int{2, 3}, []string{"g2", "g1"}),
		mkvar("good3", tDouble, nil, nil),
	}
}

func addRefused(w api.Writer, k int, name string) {
	n, v := badVar(k, name)
	vh.Assert(w.AddVar(n, v) != nil, "input that cannot be represented was accepted")
}

func checkDims(g api.Group, exp []string) {
	ds := g.ListDimensions()
	vh.Assert(len(ds) == len(exp), "number of dimensions differs")
	for _, d := range exp {
		found := false
		for _, x := range ds {
			found = found || x == d
		}
		vh.Assert(found, "dimension is missing")
	}
}

func h09mix(second int) {
	fn := vh.TempFile("c.nc")
	w, err := cdf.OpenWriter(fn)
	must(err, "OpenWriter")
	vars := goodVars()
	add := func(v wvar) {
		must(w.AddVar(v.name, api.Variable{Values: v.val, Dimensions: v.dims}), "AddVar")
	}
	add(vars[0])
	addRefused(w, vh.Choose("bad", nBad+1), "bad")
	add(vars[1])
	if second > 0 {
		addRefused(w, vh.Choose("bad", nBad+1), "bad")
	}
	if vh.Choose("again", 2) == 1 {
		// the refused name can be used
		v := mkvar("bad", tByte, []int{5}, []string{"bx"})
		add(v)
		vars = []wvar{vars[0], vars[1], v, vars[2]}
	}
	add(vars[len(vars)-1])
	must(w.Close(), "Close")
	checkClassic(fn, vars)
	g, err := cdf.Open(fn)
	must(err, "Open")
	if len(vars) == 4 {
		checkDims(g, []string{"g1", "g2", "bx"})
	} else {
		checkDims(g, []string{"g1", "g2"})
	}
}

func H_C09_mix()  { h09mix(0) }
func HT_C09_mix() { h09mix(1) }

// H_C09_firstbad: the refused call is the first.
func H_C09_firstbad() {
	fn := vh.TempFile("c.nc")
	w, err := cdf.OpenWriter(fn)
	must(err, "OpenWriter")
	k := vh.Choose("bad", nBad+1)
	vh.Assume(k != 9 && k != 10 && k != 11)
	addRefused(w, k, "bad")
	vars := goodVars()
	for _, v := range vars {
		must(w.AddVar(v.name, api.Variable{Values: v.val, Dimensions: v.dims}), "AddVar")
	}
	must(w.Close(), "Close")
	checkClassic(fn, vars)
}

// H_C09_attrs: refused global attributes.
func H_C09_attrs() {
	fn := vh.TempFile("c.nc")
	w, err := cdf.OpenWriter(fn)
	must(err, "OpenWriter")
	good := []wattr{mkattr("ok", 1+vh.Choose("type", 11), -1)}
	vars := goodVars()
	must(w.AddVar("good1", api.Variable{Values: vars[0].val, Dimensions: vars[0].dims}), "AddVar")
	first := vh.Choose("first", 2) == 1
	if first {
		must(w.AddAttributes(attrMap(good)), "AddAttributes")
	}
	switch vh.Choose("bad", 3) {
	case 0:
		err = w.AddAttributes(amap([]string{"x/y"}, map[string]interface{}{"x/y": int32(1)}))
		vh.Assert(err != nil, "invalid attribute name accepted")
	case 1:
		err = w.AddAttributes(amap([]string{"okay", " x"}, map[string]interface{}{"okay": int32(1), " x": int8(1)}))
		vh.Assert(err != nil, "invalid attribute name accepted")
	case 2:
		err = w.AddAttributes(amap([]string{"t"}, map[string]interface{}{"t": []interface{}{int(1), true}[vh.Choose("val", 2)]}))
		if err == nil {
			err = w.Close()
			vh.Assert(err != nil, "attribute of unsupported type accepted")
			vh.Reach("close refused")
			return
		}
	}
	if !first {
		must(w.AddAttributes(attrMap(good)), "AddAttributes")
	}
	must(w.Close(), "Close")
	checkClassic(fn, vars[:1])
	g, err := cdf.Open(fn)
	must(err, "Open")
	checkAttrs(g.Attributes(), good)
}

// H_C09_close: what cannot be represented is refused by Close at the latest.
func H_C09_close() {
	fn := vh.TempFile("c.nc")
	w, err := cdf.OpenWriter(fn)
	must(err, "OpenWriter")
	var x interface{}
	switch vh.Choose("kind", 5) {
	case 0:
		x = [][]int32{{}, {}}
	case 1:
		x = [][]int32{}
	case 2:
		x = []string{}
	case 3:
		x = [][][]int16{{{}}}
	case 4:
		x = [][]string{{}}
	}
	err = w.AddVar("x", api.Variable{Values: x})
	if err == nil {
		err = w.Close()
	}
	vh.Assert(err != nil, "empty inner dimension accepted")
	vh.Reach("refused")
}

// H_C09_caller: calls do not change the caller's data.
func H_C09_caller() {
	fn := vh.TempFile("c.nc")
	w, err := cdf.OpenWriter(fn)
	must(err, "OpenWriter")
	ty := 1 + vh.Choose("type", 11)
	sh := [][]int{{2}, {2, 3}, {1, 2, 2}}[vh.Choose("shape", 3)]
	v := mkvar("x", ty, sh, nil)
	back := []string{"p", "q", "r", "s"}
	n := vh.Choose("ndims", len(sh)+1)
	if n > 0 && vh.Choose("blank", 2) == 1 {
		back[vh.Choose("which", n)] = ""
	}
	keep := append([]string(nil), back...)
	must(w.AddVar("x", api.Variable{Values: v.val, Dimensions: back[:n]}), "AddVar")
	must(w.Close(), "Close")
	vh.Assert(sameStrings(back, keep), "AddVar changed the caller's dimension names")
	vh.Assert(vh.Eq(v.val, decode(ty, v.raw, sh, false)), "AddVar changed the caller's data")
	g, err := cdf.Open(fn)
	must(err, "Open")
	got, err := g.GetVariable("x")
	must(err, "GetVariable")
	vh.Assert(vh.Eq(got.Values, v.exp), "values differ")
	vh.Assert(len(got.Dimensions) == len(sh), "rank differs")
	for i := 0; i < n; i++ {
		if keep[i] != "" {
			vh.Assert(got.Dimensions[i] == keep[i], "dimension name differs")
		}
	}
	vh.Reach("checked")
}

// badAttr is an attribute that the classic format has no type for.
func badAttr(k int) any {
	x := vh.I32("bad")
	return []any{nil, int(x), []int{int(x)}, true, []bool{true}, uint(1), [][]int32{{x}}, [2]int32{x, x},
		complex64(1), myStruct{x}, map[string]int32{}, &x, []string{"a", "bc"}, []any{x}, []any{}, myInt(x), []myInt{1}}[k]
}

type myInt int32

const nBadAttrs = 17

// H_C09_badattr: one attribute that has no type, among others.
func H_C09_badattr() {
	fn := vh.TempFile("c.nc")
	w, err := cdf.OpenWriter(fn)
	must(err, "OpenWriter")
	vars := goodVars()
	add := func(v wvar) {
		must(w.AddVar(v.name, api.Variable{Values: v.val, Dimensions: v.dims}), "AddVar")
	}
	add(vars[0])
	old := vh.Choose("old", 2) == 1
	good := []wattr{mkattr("ok", []int{tShort, tInt64}[vh.Choose("type", 2)], -1)}
	if old {
		must(w.AddAttributes(attrMap(good)), "AddAttributes")
	}
	n := 1 + vh.Choose("n", 3)
	at := vh.Choose("at", n)
	var keys []string
	vals := map[string]any{}
	other := []any{int32(1), uint64(2), "text", []float64{1, 2}}[vh.Choose("good", 4)]
	for i := range n {
		k := "k" + number(i+1)
		keys = append(keys, k)
		if i == at {
			vals[k] = badAttr(vh.Choose("bad", nBadAttrs))
		} else {
			vals[k] = other
		}
	}
	am := amap(keys, vals)
	if vh.Choose("variable", 2) == 1 {
		err = w.AddVar("bad", api.Variable{Values: []uint16{1, 2}, Dimensions: []string{"bx"}, Attributes: am})
	} else {
		err = w.AddAttributes(am)
	}
	vh.Assert(err != nil, "attribute of unsupported type accepted")
	add(vars[1])
	add(vars[2])
	must(w.Close(), "Close")
	checkClassic(fn, vars)
	g, err := cdf.Open(fn)
	must(err, "Open")
	checkDims(g, []string{"g1", "g2"})
	if !old {
		good = nil
	}
	checkAttrs(g.Attributes(), good)
	g.Close()
}

// H_C09_badname: names of variables, dimensions and attributes that are not names.
func H_C09_badname() {
	name := []string{"", "a/b", "\xff", "a\x00", " a", "a ", "/", "a\n", "\xc3", "_x", "_a/"}[vh.Choose("name", 11)]
	fn := vh.TempFile("c.nc")
	w, err := cdf.OpenWriter(fn)
	must(err, "OpenWriter")
	vars := goodVars()
	must(w.AddVar("good1", api.Variable{Values: vars[0].val, Dimensions: vars[0].dims}), "AddVar")
	x := []int32{vh.I32("x")}
	switch vh.Choose("what", 5) {
	case 0:
		err = w.AddVar(name, api.Variable{Values: x, Dimensions: []string{"bx"}})
	case 1:
		vh.Assume(name != "" && name != "_x")
		err = w.AddVar("bad", api.Variable{Values: x, Dimensions: []string{name}})
	case 2:
		vh.Assume(name != "" && name != "_x")
		err = w.AddVar("bad", api.Variable{Values: [][]int32{x}, Dimensions: []string{"new", name}})
	case 3:
		err = w.AddVar("bad", api.Variable{Values: x, Dimensions: []string{"bx"}, Attributes: one1(name, x)})
	case 4:
		err = w.AddAttributes(amap([]string{"okay", name}, map[string]any{"okay": x, name: x}))
	}
	vh.Assert(err != nil, "an invalid name was accepted")
	must(w.AddVar("good2", api.Variable{Values: vars[1].val, Dimensions: vars[1].dims}), "AddVar")
	must(w.Close(), "Close")
	checkClassic(fn, vars[:2])
	g, err := cdf.Open(fn)
	must(err, "Open")
	checkDims(g, []string{"g1", "g2"})
	g.Close()
}
