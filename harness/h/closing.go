package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/vh"
)

// handle is a group that was obtained, and what is in it.
type handle struct {
	g    api.Group
	w    *wgroup
	path string
	open bool
}

func (h *handle) check() {
	checkSame(h.g, h.w)
	checkAttrs(h.g.Attributes(), h.w.attrs)
}

// closings opens and closes groups in any order.
func closings(paths []string, steps int, b []byte, root *wgroup) {
	m := &memReader{b: b}
	rg, err := netcdf.New(m)
	must(err, "New")
	find := func(path string) *wgroup {
		var r *wgroup
		root.walk("/", func(p string, w *wgroup) {
			if p == path {
				r = w
			}
		})
		return r
	}
	hs := []*handle{{rg, root, "/", true}}
	isOpen := func() bool {
		for _, h := range hs {
			if h.open {
				return true
			}
		}
		return false
	}
	closeOne := func() {
		h := hs[vh.Choose("close", len(hs))]
		h.g.Close()
		h.open = false
	}
	for range steps {
		if vh.Choose("step", 2) == 0 {
			h := hs[vh.Choose("from", len(hs))]
			vh.Assume(h.open)
			path := paths[vh.Choose("to", len(paths))]
			g, err := h.g.GetGroup(path)
			must(err, "GetGroup")
			hs = append(hs, &handle{g, find(path), path, true})
		} else {
			closeOne()
		}
		owned(m, isOpen())
		if !isOpen() {
			break
		}
		for _, h := range hs {
			if h.open {
				h.check()
			}
		}
	}
	if isOpen() {
		// the rest in the order they were opened, or in the opposite order
		back := vh.Choose("order", 2) == 1
		for i := range hs {
			h := hs[i]
			if back {
				h = hs[len(hs)-1-i]
			}
			if h.open {
				owned(m, true)
				h.check()
				h.g.Close()
				h.open = false
				owned(m, isOpen())
			}
		}
	}
	for _, h := range hs {
		h.g.Close()
	}
	owned(m, false)
	vh.Reach("checked")
}

func closeClassic(steps int) {
	w := &wgroup{vars: []wvar{mkvar("a", tInt, []int{2}, []string{"x"}), mkvar("b", tShort, nil, nil)},
		attrs: []wattr{mkattr("t", tShort, 2)}}
	b := readFile(writeClassic(w.vars, attrMap(w.attrs)))
	closings([]string{"/"}, steps, b, w)
}

func H_C28_classic()  { closeClassic(5) }
func HT_C28_classic() { closeClassic(6) }

func closeHdf5(steps int) {
	w := &wgroup{vars: []wvar{mkvar("a", tInt, []int{2}, []string{"x"})},
		groups: []*wgroup{{name: "g", vars: []wvar{mkvar("b", tShort, nil, nil)}, attrs: []wattr{mkattr("t", tShort, 2)},
			groups: []*wgroup{{name: "h", vars: []wvar{mkvar("c", tByte, []int{2}, []string{"x"})}}}}}}
	b := readFile(writeHdf5(w))
	closings([]string{"/", "/g", "/g/h"}, steps, b, w)
}

func H_C28_hdf5()  { closeHdf5(4) }
func HT_C28_hdf5() { closeHdf5(5) }

// H_C28_getters: what was obtained from a group stays usable while the group is open,
// whatever happens to the others.
func H_C28_getters() {
	classic := vh.Choose("classic", 2) == 1
	w := &wgroup{vars: []wvar{mkvar("a", tInt, []int{2}, []string{"x"}), mkvar("b", tShort, []int{2, 2}, []string{"x", "x"})},
		attrs: []wattr{mkattr("t", tShort, 2)}}
	var b []byte
	paths := []string{"/"}
	if classic {
		b = readFile(writeClassic(w.vars, attrMap(w.attrs)))
	} else {
		w.groups = []*wgroup{{name: "g", vars: []wvar{mkvar("a", tShort, []int{2}, []string{"x"}), mkvar("b", tDouble, []int{2}, []string{"x"})}}}
		b = readFile(writeHdf5(w))
		paths = append(paths, "/g")
	}
	m := &memReader{b: b}
	root, err := netcdf.New(m)
	must(err, "New")
	path := paths[vh.Choose("path", len(paths))]
	g := subgroup(root, path)
	at := w
	if path == "/g" {
		at = w.groups[0]
	}
	var got []api.VarGetter
	for _, v := range at.vars {
		vg, err := g.GetVarGetter(v.name)
		must(err, "GetVarGetter")
		got = append(got, vg)
	}
	attrs := g.Attributes()
	others := []api.Group{root, subgroup(g, paths[len(paths)-1]), subgroup(root, "/")}
	check := func() {
		checkAttrs(attrs, at.attrs)
		for i, v := range at.vars {
			vh.Assert(sameStrings(got[i].Dimensions(), v.dims), "dimension names differ")
			x, err := got[i].Values()
			must(err, "Values")
			vh.Assert(vh.Eq(x, v.exp), "value read differs from value written")
			_, err = got[i].GetSlice(1, 2)
			must(err, "GetSlice")
		}
	}
	check()
	for _, k := range permuted(3) {
		others[k].Close()
		if vh.Choose("twice", 2) == 1 {
			others[k].Close()
		}
		owned(m, true)
		check()
		checkSame(g, at)
	}
	g.Close()
	owned(m, false)
	vh.Reach("checked")
}
