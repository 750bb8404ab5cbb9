package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/vh"
)

// sub gives the bytes of the box [b,e) of row-major data.
func sub(raw []byte, size int, shape, b, e []int) []byte {
	if len(shape) == 0 {
		return raw[:size]
	}
	step := size * prod(shape[1:])
	var r []byte
	for i := b[0]; i < e[0]; i++ {
		r = append(r, sub(raw[i*step:(i+1)*step], size, shape[1:], b[1:], e[1:])...)
	}
	return r
}

func diff(b, e []int) []int {
	r := make([]int, len(b))
	for i := range b {
		r[i] = e[i] - b[i]
	}
	return r
}

// checkSlice1 takes a slice with arbitrary bounds and compares it with the
// part of the raw data it stands for.
func checkSlice1(vg api.VarGetter, ty int, raw []byte, shape []int, le bool) {
	n := int64(1)
	if len(shape) > 0 {
		n = int64(shape[0])
	}
	vh.Assert(vg.Len() == n, "Len is wrong")
	b, e := vh.I64("begin"), vh.I64("end")
	ok := b >= 0 && b <= e && e <= n
	if ok {
		b, e = int64(vh.Concrete(int(b))), int64(vh.Concrete(int(e))) // one path for each valid pair
	}
	got, err := vg.GetSlice(b, e)
	if !ok {
		vh.Assert(err != nil, "slice with invalid bounds is not an error")
		vh.Reach("invalid")
		return
	}
	if len(shape) == 0 && e == b {
		return // an empty range of a scalar has no meaning
	}
	must(err, "GetSlice")
	bi, ei := int(b), int(e)
	step := prod(shape) * tSize[ty] / max(int(n), 1)
	var exp any
	if len(shape) == 0 {
		exp = decode(ty, raw, shape, le)
	} else {
		exp = decode(ty, raw[bi*step:ei*step], append([]int{ei - bi}, shape[1:]...), le)
	}
	vh.Assert(vh.Eq(got, exp), "slice differs from the same range of the whole")
	vh.Reach("valid")
}

// checkSliceMD does the same with arbitrary multi-dimensional bounds.
func checkSliceMD(vg api.VarGetter, ty int, raw []byte, shape []int, le bool, rank int) {
	b, e := make([]int64, rank), make([]int64, rank)
	ok := rank == len(shape)
	for i := range b {
		b[i], e[i] = vh.I64("b"), vh.I64("e")
	}
	for i := 0; i < rank && ok; i++ {
		ok = b[i] >= 0 && b[i] <= e[i] && e[i] <= int64(shape[i])
	}
	if ok {
		for i := range b {
			b[i], e[i] = int64(vh.Concrete(int(b[i]))), int64(vh.Concrete(int(e[i])))
		}
	}
	b0, e0 := append([]int64(nil), b...), append([]int64(nil), e...)
	got, err := vg.GetSliceMD(b, e)
	for i := range b {
		vh.Assert(vh.And(b[i] == b0[i], e[i] == e0[i]), "GetSliceMD changed its arguments")
	}
	if !ok {
		vh.Assert(err != nil, "multi-dimensional slice with invalid bounds is not an error")
		vh.Reach("invalid")
		return
	}
	must(err, "GetSliceMD")
	bi, ei := make([]int, rank), make([]int, rank)
	for i := range b {
		bi[i], ei[i] = int(b[i]), int(e[i])
	}
	exp := decode(ty, sub(raw, tSize[ty], shape, bi, ei), diff(bi, ei), le)
	vh.Assert(vh.Eq(got, exp), "multi-dimensional slice differs from the same part of the whole")
	vh.Reach("valid")
}

func classicSliceFile(shapes [][]int) (*enc, api.VarGetter) {
	e := &enc{version: []int{2, 5}[vh.Choose("version", 2)], numrecs: 3}
	e.add("before", tShort, []int{2}, false)
	sh := shapes[vh.Choose("shape", len(shapes))]
	ty := pickType(e.version)
	kind := vh.Choose("kind", 3)
	if kind > 0 {
		vh.Assume(len(sh) > 0)
		e.numrecs = sh[0]
		e.add("x", ty, sh[1:], true)
		if kind == 2 {
			e.add("other", tInt, nil, true)
		}
	} else {
		e.add("x", ty, sh, false)
	}
	e.add("after", tInt, []int{3}, false)
	g := openClassic(e.encode())
	vg, err := g.GetVarGetter("x")
	must(err, "GetVarGetter")
	return e, vg
}

func h06slice(shapes [][]int) {
	e, vg := classicSliceFile(shapes)
	v := &e.vars[1]
	checkSlice1(vg, v.ty, v.raw, e.shape(v), false)
}

func H_C06_slice()  { h06slice([][]int{{}, {3}, {2, 3}, {2, 1, 2}}) }
func HT_C06_slice() { h06slice([][]int{{1}, {5}, {3, 2}, {4, 1}, {3, 2, 2}, {1, 2, 2, 2}}) }

func h06md(shapes [][]int) {
	e, vg := classicSliceFile(shapes)
	v := &e.vars[1]
	checkSliceMD(vg, v.ty, v.raw, e.shape(v), false, len(e.shape(v)))
}

func H_C06_md()  { h06md([][]int{{}, {3}, {2, 3}}) }
func HT_C06_md() { h06md([][]int{{4}, {3, 2}, {1, 3}, {2, 2, 2}}) }

// H_C06_md3 slices three-dimensional variables.
func H_C06_md3() {
	e := &enc{version: 5}
	ty := []int{tByte, tChar, tShort, tDouble, tUInt}[vh.Choose("type", 5)]
	e.add("x", ty, []int{2, 1, 2}, false)
	g := openClassic(e.encode())
	vg, err := g.GetVarGetter("x")
	must(err, "GetVarGetter")
	checkSliceMD(vg, ty, e.vars[0].raw, []int{2, 1, 2}, false, 3)
}

// H_C06_rank uses bounds of the wrong rank.
func H_C06_rank() {
	e, vg := classicSliceFile([][]int{{}, {3}, {2, 3}, {2, 1, 2}})
	v := &e.vars[1]
	rank := vh.Choose("rank", 5)
	vh.Assume(rank != len(e.shape(v)))
	checkSliceMD(vg, v.ty, v.raw, e.shape(v), false, rank)
	b := make([]int64, rank)
	_, err := vg.GetSliceMD(b, make([]int64, len(e.shape(v))))
	vh.Assert(err != nil, "bounds of different ranks are not an error")
	_, err = vg.GetSliceMD(make([]int64, len(e.shape(v))), b)
	vh.Assert(err != nil, "bounds of different ranks are not an error")
}

// H_C06_values: Values and GetVariable are the whole.
func H_C06_values() {
	e, vg := classicSliceFile([][]int{{}, {3}, {2, 3}, {2, 1, 2}, {1}})
	x, err := vg.Values()
	must(err, "Values")
	vh.Assert(vh.Eq(x, e.expect(1)), "Values differs")
	y, err := vg.GetSlice(0, vg.Len())
	must(err, "GetSlice")
	vh.Assert(vh.Eq(y, e.expect(1)), "whole slice differs")
	vh.Reach("checked")
}
