package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/vh"
)

// wvar is a variable to be written and what must be read back.
type wvar struct {
	name  string
	ty    int
	shape []int
	val   any
	exp   any    // as read back
	raw   []byte // external data, big-endian, without padding
	dims  []string
	attrs api.AttributeMap
}

// mkvar makes a rectangular variable with arbitrary contents.
func mkvar(name string, ty int, shape []int, dims []string) wvar {
	raw := rawFor(name, ty, shape)
	v := decode(ty, raw, shape, false)
	return wvar{name: name, ty: ty, shape: shape, val: v, exp: v, raw: raw, dims: dims}
}

func pad0(s string, n int) string {
	for len(s) < n {
		s += "\x00"
	}
	return s
}

// mkstr makes a string of length l.
func mkstr(name string, l int) string { return vh.Str(name, l) }

func writeClassic(vars []wvar, gattrs api.AttributeMap) string {
	fn := vh.TempFile("c.nc")
	w, err := cdf.OpenWriter(fn)
	must(err, "OpenWriter")
	for _, v := range vars {
		must(w.AddVar(v.name, api.Variable{Values: v.val, Dimensions: v.dims, Attributes: v.attrs}), "AddVar")
	}
	if gattrs != nil {
		must(w.AddAttributes(gattrs), "AddAttributes")
	}
	must(w.Close(), "Close")
	return fn
}

func checkVar(g api.Group, v wvar) {
	got, err := g.GetVariable(v.name)
	must(err, "GetVariable")
	vh.Assert(vh.Eq(got.Values, v.exp), "value read differs from value written")
	if len(v.dims) == len(v.shape) {
		vh.Assert(sameStrings(got.Dimensions, v.dims), "dimension names differ")
	} else {
		vh.Assert(len(got.Dimensions) == len(v.shape), "number of dimensions differs")
	}
	for i, d := range got.Dimensions {
		n, ok := g.GetDimension(d)
		vh.Assert(ok, "dimension not listed")
		vh.Assert(n == uint64(v.shape[i]), "dimension length differs")
	}
}

func checkClassic(fn string, vars []wvar) {
	g, err := cdf.Open(fn)
	must(err, "Open")
	names := g.ListVariables()
	vh.Assert(len(names) == len(vars), "number of variables differs")
	for i := range names {
		vh.Assert(names[i] == vars[i].name, "variable list or order differs")
	}
	for _, v := range vars {
		checkVar(g, v)
	}
	g.Close()
	vh.Reach("checked")
}

var shapes1 = [][]int{{}, {1}, {2}, {3}, {5}, {2, 3}, {3, 1}, {1, 1}, {2, 2, 3}, {1, 3, 1}, {2, 1, 2, 3}, {2, 1, 2, 1, 2}, {1, 2, 1, 2, 1, 2}}

func classicSingle() []wvar {
	ty := 1 + vh.Choose("type", 11)
	shape := shapes1[vh.Choose("shape", len(shapes1))]
	var dims []string
	if vh.Choose("named", 2) == 1 {
		dims = dimNames("d", len(shape))
	} else if ty == tChar && len(shape) == 1 && shape[0] == 1 {
		// without a dimension a one-byte string is a scalar character
		v := mkvar("x", ty, nil, nil)
		return []wvar{v}
	}
	return []wvar{mkvar("x", ty, shape, dims)}
}

func classicPair(shapes [][]int) []wvar {
	a, b := 1+vh.Choose("type", 11), 1+vh.Choose("type", 11)
	sa, sb := shapes[vh.Choose("shape", len(shapes))], shapes[vh.Choose("shape", len(shapes))]
	return []wvar{mkvar("va", a, sa, dimNames("p", len(sa))), mkvar("vb", b, sb, dimNames("q", len(sb)))}
}

// classicShared has three variables sharing dimensions.
func classicShared() []wvar {
	ty := func() int { return []int{tByte, tShort, tDouble, tUShort, tChar}[vh.Choose("type", 5)] }
	v := []wvar{
		mkvar("t", ty(), []int{3}, []string{"y"}),
		mkvar("u", ty(), []int{2, 3}, []string{"x", "y"}),
		mkvar("w", ty(), []int{3, 2}, []string{"y", "x"}),
	}
	if vh.Bool("swap") {
		v[0], v[2] = v[2], v[0]
	}
	return v
}

// classicStrings has text of various lengths.
func classicStrings() []wvar {
	var v wvar
	switch vh.Choose("kind", 4) {
	case 3: // the longest can be anywhere
		n := []int{17, 33, 70}[vh.Choose("n", 3)]
		at := []int{n - 1, n - 2, 0, n / 2}[vh.Choose("longest", 4)]
		var val, exp []string
		var raw []byte
		for i := range n {
			k := i % 3
			if i == at {
				k = 3 + vh.Choose("len", 3)
			}
			val = append(val, mkstr("s", k))
		}
		for _, s := range val {
			exp = append(exp, pad0(s, len(val[at])))
			raw = append(raw, pad0(s, len(val[at]))...)
		}
		v = wvar{name: "s", ty: tChar, shape: []int{n, len(val[at])}, val: val, exp: exp, raw: raw}
	case 0:
		n := vh.Choose("len", 6)
		s := mkstr("s", n+2)
		v = wvar{name: "s", ty: tChar, shape: []int{n + 2}, val: s, exp: s, raw: []byte(s)}
	case 1:
		n := 1 + vh.Choose("n", 3)
		var val, exp []string
		max := 0
		for i := 0; i < n; i++ {
			s := mkstr("s", vh.Choose("len", 4))
			if len(s) > max {
				max = len(s)
			}
			val = append(val, s)
		}
		vh.Assume(max > 0)
		var raw []byte
		for _, s := range val {
			exp = append(exp, pad0(s, max))
			raw = append(raw, pad0(s, max)...)
		}
		v = wvar{name: "s", ty: tChar, shape: []int{n, max}, val: val, exp: exp, raw: raw}
	case 2:
		var val, exp [][]string
		max := 0
		for i := 0; i < 2; i++ {
			var row []string
			for j := 0; j < 2; j++ {
				s := mkstr("s", vh.Choose("len", 4))
				if len(s) > max {
					max = len(s)
				}
				row = append(row, s)
			}
			val = append(val, row)
		}
		vh.Assume(max > 0)
		var raw []byte
		for _, r := range val {
			var row []string
			for _, s := range r {
				row = append(row, pad0(s, max))
				raw = append(raw, pad0(s, max)...)
			}
			exp = append(exp, row)
		}
		v = wvar{name: "s", ty: tChar, shape: []int{2, 2, max}, val: val, exp: exp, raw: raw}
	}
	after := mkvar("after", tInt, []int{2}, []string{"k"})
	return []wvar{v, after}
}

// classicEmpty has empty one-dimensional variables between others.
func classicEmpty() []wvar {
	var vars []wvar
	n := 0
	for _, nm := range []string{"a", "b", "c"} {
		ty := []int{tByte, tShort, tInt, tDouble, tUByte, tInt64}[vh.Choose("type", 6)]
		if vh.Choose("empty", 2) == 1 {
			n++
			vars = append(vars, mkvar(nm, ty, []int{0}, []string{"e" + nm}))
		} else {
			vars = append(vars, mkvar(nm, ty, []int{3}, []string{"d" + nm}))
		}
	}
	vh.Assume(n == 1)
	return vars
}

// classicMany has many variables of differing sizes.
func classicMany(n int) []wvar {
	var vars []wvar
	start := vh.Choose("start", 11)
	for i := 0; i < n; i++ {
		ty := 1 + (start+i*3)%11
		shape := shapes1[(start+i*2)%8]
		nm := "v" + string(rune('a'+i%26)) + string(rune('a'+i/26))
		for len(nm) < 2+i%5 {
			nm += "x"
		}
		vars = append(vars, mkvar(nm, ty, shape, dimNames(nm, len(shape))))
	}
	return vars
}

var pairShapes = [][]int{{}, {1}, {3}, {2, 3}}
var pairShapesT = [][]int{{}, {1}, {2}, {3}, {2, 3}, {3, 1, 1}, {2, 2, 2}}

func H_C01_single()  { v := classicSingle(); checkClassic(writeClassic(v, nil), v) }
func H_C01_pair()    { v := classicPair(pairShapes); checkClassic(writeClassic(v, nil), v) }
func HT_C01_pair()   { v := classicPair(pairShapesT); checkClassic(writeClassic(v, nil), v) }
func H_C01_shared()  { v := classicShared(); checkClassic(writeClassic(v, nil), v) }
func H_C01_strings() { v := classicStrings(); checkClassic(writeClassic(v, nil), v) }
func H_C01_empty()   { v := classicEmpty(); checkClassic(writeClassic(v, nil), v) }
func H_C01_many()    { v := classicMany(9); checkClassic(writeClassic(v, nil), v) }
func HT_C01_many()   { v := classicMany(40); checkClassic(writeClassic(v, nil), v) }
