package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/vh"
)

// readsWell reads everything there is in a file, telling if there was no error.
func readsWell(b []byte) bool {
	g, err := hdf5.New(&memReader{b: b})
	if err != nil {
		return false
	}
	defer g.Close()
	return groupReadsWell(g)
}

func groupReadsWell(g api.Group) bool {
	g.Attributes()
	for _, v := range g.ListVariables() {
		if _, err := g.GetVariable(v); err != nil {
			return false
		}
		vg, err := g.GetVarGetter(v)
		if err != nil {
			return false
		}
		if _, err := vg.Values(); err != nil {
			return false
		}
	}
	for _, s := range g.ListSubgroups() {
		sg, err := g.GetGroup(s)
		if err != nil || !groupReadsWell(sg) {
			return false
		}
		sg.Close()
	}
	return true
}

// damaged reads a file that has one byte changed in a block of some kind.
func damaged(f *hfile, b []byte, kinds ...string) {
	var in []hblock
	for _, x := range f.blocks {
		for _, k := range kinds {
			if x.kind == k {
				in = append(in, x)
			}
		}
	}
	vh.Assert(readsWell(append([]byte(nil), b...)), "the undamaged file can't be read")
	x := in[vh.Choose("block", len(in))]
	damage(b, x.at+vh.Choose("at", x.len), "change")
	vh.Assert(!readsWell(b), "a changed byte was not detected")
	vh.Reach("detected")
}

func damage(b []byte, at int, name string) {
	d := vh.U8(name)
	vh.Assume(d != 0)
	b[at] ^= d
}

// smallFile has a dataset with an attribute, and a group.
func smallFile(split int, tracked bool) (*hfile, []byte) {
	f := newHfile(false)
	f.split, f.tracked = split, tracked
	att := hmsg{ty: 12, body: attrMsg(3, "a", dtFixed(4, true, false), dspace(2), fixedBytes(8, 5))}
	d := &hset{ty: tShort, shape: []int{2}, raw: fixedBytes(4, 1)}
	d.attrs = []hmsg{att}
	x := f.dataset(d)
	sub := f.group(nil, att)
	return f, f.finish(f.group([]hlink{{"x", x}, {"g", sub}}, att))
}

// H_C19_super: any byte of the superblock.
func H_C19_super() {
	f, b := smallFile(0, false)
	damaged(f, b, "super")
}

// H_C19_header: any byte of any object header.
func H_C19_header() {
	f, b := smallFile(0, vh.Choose("tracked", 2) == 1)
	damaged(f, b, "OHDR")
}

// H_C19_continued: any byte of a header or continuation of it.
func H_C19_continued() {
	f, b := smallFile(1+vh.Choose("split", 3), false)
	damaged(f, b, "OHDR", "OCHK")
}

func denseFile(d dense, n int) (*hfile, []byte) {
	f := newHfile(false)
	f.dense = d
	var names []string
	var msgs []hmsg
	var links []hlink
	for i := 0; i < n; i++ {
		nm := string(rune('a' + i))
		names = append(names, nm)
		msgs = append(msgs, hmsg{ty: 12, co: i, body: attrMsg(3, nm, dtFixed(2, true, false), dspace(), fixedBytes(2, byte(i)))})
		x := f.dataset(&hset{ty: tByte, shape: []int{1}, raw: fixedBytes(1, byte(i))})
		links = append(links, hlink{nm, x})
	}
	return f, f.finish(f.denseGroup(links, f.denseAttrs(d, names, msgs)))
}

// H_C19_dense: any byte of the blocks of dense links and attributes.
func H_C19_dense() {
	n := 6
	if vh.Thorough() {
		n = 14
	}
	f, b := denseFile(dense{smallHeap(32 + 8*vh.Choose("wide", 2)), 2, 2}, n)
	damaged(f, b, "FRHP", "FHIB", "BTHD", "BTLF", "BTIN")
}

// H_C19_direct: any byte of the blocks that dense links and attributes are in.
func H_C19_direct() {
	n := 4
	if vh.Thorough() {
		n = 10
	}
	f, b := denseFile(dense{smallHeap(32), 2, 2}, n)
	damaged(f, b, "FHDB")
}
