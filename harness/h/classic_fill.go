package h

import (
	"reflect"

	"github.com/batchatco/go-native-netcdf/vh"
)

// the default fill values of the netCDF specification, big-endian
var defFill = [][]byte{nil,
	{0x81}, {0}, {0x80, 0x01}, {0x80, 0, 0, 1},
	{0x7c, 0xf0, 0, 0}, {0x47, 0x9e, 0, 0, 0, 0, 0, 0},
	{0xff}, {0xff, 0xff}, {0xff, 0xff, 0xff, 0xff},
	{0x80, 0, 0, 0, 0, 0, 0, 2}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe},
}

// truncated cuts the file to n bytes and checks every variable.
func (e *enc) checkTruncated(n int, user []byte) {
	b := e.b[:n]
	g := openClassic(b)
	for i := range e.vars {
		v := &e.vars[i]
		fill := defFill[v.ty]
		if user != nil && len(v.attrs) > 0 {
			fill = user
		}
		sz := tSize[v.ty]
		exp := append([]byte(nil), v.raw...)
		partial := -1
		slot := v.slot()
		for k := 0; k < len(exp)/sz; k++ {
			at := e.begin[i] + k*sz
			if v.rec {
				at = e.begin[i] + (k*sz/slot)*e.recsize() + k*sz%slot
			}
			if at+sz > n {
				copy(exp[k*sz:], fill)
				if at < n {
					partial = k // only part of it is in the file
				}
			}
		}
		vg, err := g.GetVarGetter(v.name)
		must(err, "GetVarGetter")
		got, err := vg.Values()
		must(err, "Values")
		if partial < 0 {
			vh.Assert(vh.Eq(got, decode(v.ty, exp, e.shape(v), false)), "missing data is not the fill value, or present data is lost")
		} else if len(e.shape(v)) == 1 {
			// the partial element may be anything, what follows may not
			n := int(vg.Len()) - partial - 1
			got = reflect.ValueOf(got).Slice(partial+1, int(vg.Len())).Interface()
			vh.Assert(vh.Eq(got, decode(v.ty, exp[(partial+1)*sz:], []int{n}, false)), "missing data after a partial element is not the fill value")
		}
		if len(e.shape(v)) > 0 && partial < 0 {
			b := vh.Choose("from", int(vg.Len())+1)
			got, err = vg.GetSlice(int64(b), vg.Len())
			must(err, "GetSlice")
			sh := append([]int{int(vg.Len()) - b}, e.shape(v)[1:]...)
			vh.Assert(vh.Eq(got, decode(v.ty, exp[b*prod(sh[1:])*sz:], sh, false)), "slice of missing data is not the fill value")
		}
	}
	vh.Reach("checked")
}

func fillVar(e *enc, ty int, inner []int, rec bool) []byte {
	e.add("x", ty, inner, rec)
	if vh.Choose("userfill", 2) == 0 {
		return nil
	}
	a := mkattr("_FillValue", ty, -1)
	e.vars[len(e.vars)-1].attrs = []wattr{a}
	return a.raw
}

func H_C07_fixed() {
	e := &enc{version: []int{2, 5}[vh.Choose("version", 2)]}
	e.add("w", tInt, []int{2}, false)
	ty := pickType(e.version)
	user := fillVar(e, ty, [][]int{{}, {3}, {2, 2}}[vh.Choose("shape", 3)], false)
	e.encode()
	from := e.begin[0]
	e.checkTruncated(from+vh.Choose("cut", len(e.b)-from+1), user)
}

func H_C07_record() {
	e := &enc{version: []int{1, 5}[vh.Choose("version", 2)], numrecs: 2}
	ty := pickType(e.version)
	user := fillVar(e, ty, [][]int{{}, {3}}[vh.Choose("shape", 2)], true)
	if vh.Choose("more", 2) == 1 {
		e.add("y", tShort, nil, true)
	}
	e.encode()
	from := e.begin[0]
	e.checkTruncated(from+vh.Choose("cut", len(e.b)-from+1), user)
}

// H_C07_twotypes: each variable has its own fill value.
func H_C07_twotypes() {
	e := &enc{version: 5}
	user := fillVar(e, pickType(5), []int{2}, false)
	e.add("y", pickType(5), []int{2}, false)
	e.encode()
	e.checkTruncated(e.begin[0], user)
}

func HT_C07_long() {
	e := &enc{version: 5}
	ty := pickType(5)
	user := fillVar(e, ty, []int{9}, false)
	e.encode()
	from := e.begin[0]
	e.checkTruncated(from+tSize[ty]*vh.Choose("cut", 10), user)
}
