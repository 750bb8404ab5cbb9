package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/vh"
)

// faulty writes a file while the file system takes only a certain number of
// bytes, which can be any number.
func faulty(classic bool, w *wgroup, limit int) {
	vh.Assume(limit >= 0)
	vh.LimitFileSize(limit)
	fn := vh.TempFile("f.nc")
	var hw api.Writer
	var err error
	if classic {
		hw, err = cdf.OpenWriter(fn)
	} else {
		hw, err = hdf5.OpenWriter(fn)
	}
	if err != nil {
		vh.Reach("refused by OpenWriter")
		return
	}
	bad := false
	keep := func(err error) { bad = bad || err != nil }
	var put func(hw api.Writer, w *wgroup)
	put = func(hw api.Writer, w *wgroup) {
		for _, v := range w.vars {
			keep(hw.AddVar(v.name, api.Variable{Values: v.val, Dimensions: v.dims, Attributes: v.attrs}))
		}
		if w.attrs != nil {
			keep(hw.AddAttributes(attrMap(w.attrs)))
		}
		for _, s := range w.groups {
			sw, err := hw.CreateGroup(s.name)
			keep(err)
			if err == nil {
				put(sw, s)
			}
		}
	}
	put(hw, w)
	keep(hw.Close())
	vh.Assert(vh.OpenFiles() == 0, "file is left open")
	if bad {
		vh.Assert(limit < 1<<20, "refused with room enough")
		vh.Reach("refused")
		return
	}
	vh.LimitFileSize(1 << 40)
	// everything is reported as written, so it has to be there
	if classic {
		checkClassic(fn, w.vars)
		return
	}
	g := openHdf5(fn)
	w.walk("/", func(path string, x *wgroup) { checkGroup(subgroup(g, path), x) })
	vh.Reach("checked")
}

func faultTree(classic bool) *wgroup {
	w := &wgroup{
		vars: []wvar{
			mkvar("a", 1+vh.Choose("type", 11), []int{3}, []string{"x"}),
			mkvar("b", tShort, []int{2, 3}, []string{"y", "x"}),
			mkvar("c", tDouble, nil, nil),
		},
		attrs: []wattr{mkattr("t", tInt, 2)},
	}
	if classic {
		w.vars = append(w.vars, mkvar("d", tByte, []int{1}, []string{"z"}))
		return w
	}
	if w.vars[0].ty == tChar {
		w.vars[0] = tvar("a", text("s", 3))
	}
	w.groups = []*wgroup{{name: "g", vars: []wvar{mkvar("d", tByte, []int{1}, []string{"z"})}}}
	return w
}

// H_C25_classic: a small classic file, and a file system that is full after any number of bytes.
func H_C25_classic() { faulty(true, faultTree(true), int(vh.U32("limit"))) }

func H_C25_hdf5() { faulty(false, faultTree(false), int(vh.U32("limit"))) }

// bigTree is more than is buffered, so that data is written before Close.
func bigTree(n int) *wgroup {
	x := make([]int32, n)
	for i := range x {
		x[i] = int32(i)
	}
	x[n/2] = vh.I32("x")
	v := mkvar("a", tShort, []int{3}, []string{"s"})
	return &wgroup{vars: []wvar{v, {name: "big", shape: []int{n}, dims: []string{"n"}, val: x, exp: x}, mkvar("z", tInt, nil, nil)}}
}

// H_C25_big has files of several writes.
func H_C25_big() {
	classic := vh.Choose("classic", 2) == 1
	limit := int(vh.U32("limit"))
	if classic {
		// near the places where one write ends and another begins
		near := []int{0, 4096, 8192, 12288}[vh.Choose("near", 4)]
		vh.Assume(vh.Or(vh.And(limit >= near-3, limit <= near+3), limit > 12400))
	}
	faulty(classic, bigTree([]int{900, 3000}[vh.Choose("size", 2)]), limit)
}

// H_C25_strings has text, and lists in attributes.
func H_C25_strings() {
	classic := vh.Choose("classic", 2) == 1
	v := mkvar("v", tByte, []int{2}, []string{"d"})
	chars := func(name string, n int) wattr {
		s := text(name, n)
		return wattr{name, tChar, n, s, s, []byte(s)}
	}
	v.attrs = attrMap([]wattr{mkattr("p", tDouble, 3), chars("q", 5)})
	w := &wgroup{vars: []wvar{v}, attrs: []wattr{chars("g", 4)}}
	if !classic {
		w.vars = append(w.vars, tvar("s", []string{text("s", 2), text("s", 0), text("s", 5)}, "n"))
	}
	faulty(classic, w, int(vh.U32("limit")))
}
