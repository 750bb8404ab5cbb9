package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/vh"
)

func level(n int64) int {
	if vh.Or(n < 0, n > 2) {
		return 3
	}
	return int(n)
}

// H_C37_levels: the level that was set is the one that is returned later.
func H_C37_levels() {
	vh.Assert(cdf.SetLogLevel(2) == 2, "the level isn't 2 at first")
	vh.Assert(hdf5.SetLogLevel(2) == 2, "the level isn't 2 at first")
	c, h := 2, 2
	for range 3 {
		n := vh.I64("level")
		if vh.Choose("package", 2) == 0 {
			vh.Assert(cdf.SetLogLevel(int(n)) == c, "another level than the one set before")
			c = level(n)
		} else {
			vh.Assert(hdf5.SetLogLevel(int(n)) == h, "another level than the one set before")
			h = level(n)
		}
	}
	vh.Reach("set")
	cdf.SetLogLevel(2)
	hdf5.SetLogLevel(2)
}

// reads has the results of all read operations of a file.
func reads(b []byte, paths []aread) (bool, []any, []bool) {
	g, err := netcdf.New(&memReader{b: b})
	if err != nil {
		return false, nil, nil
	}
	var vals []any
	var oks []bool
	for _, r := range paths {
		x, err := r.do(g)
		vals, oks = append(vals, x), append(oks, err == nil)
	}
	g.Close()
	return true, vals, oks
}

// H_C37_read: files good and bad are read the same whatever the level.
func H_C37_read() {
	k := vh.Choose("file", nOddFiles)
	b := oddFile(k)
	good, err := netcdf.New(&memReader{b: b})
	must(err, "New")
	rs := allReads(good, "/", 1)
	good.Close()
	switch vh.Choose("bad", 4) {
	case 1:
		n := len(b)
		b = b[:[]int{8, n / 2, n - 1}[vh.Choose("to", 3)]]
	case 2:
		c := append([]byte(nil), b...)
		at := len(c) * vh.Choose("at", tierInt(8, 32)) / tierInt(8, 32)
		c[at] ^= []byte{1, 0xff}[vh.Choose("with", tierInt(1, 2))]
		b = c
	case 3: // operations on what is not there
		for i := range 3 {
			rs = append(rs, aread{what: "nothing", do: func(g api.Group) (any, error) {
				switch i {
				case 0:
					return g.GetVariable("none")
				case 1:
					return g.GetVarGetter("none")
				}
				return g.GetGroup("none")
			}})
		}
	}
	ok, vals, oks := reads(b, rs)
	n := []int{0, 1, 3}[vh.Choose("level", 3)]
	cdf.SetLogLevel(n)
	hdf5.SetLogLevel(n)
	ok2, vals2, oks2 := reads(b, rs)
	vh.Assert(ok == ok2, "a file is opened or not depending on the level")
	for i := range vals {
		vh.Assert(oks[i] == oks2[i], "an error depends on the level: "+rs[i].what)
		vh.Assert(!oks[i] || vh.Eq(vals[i], vals2[i]), "what is read depends on the level: "+rs[i].what)
	}
	vh.Assert(cdf.SetLogLevel(2) == n, "reading has changed the level")
	vh.Assert(hdf5.SetLogLevel(2) == n, "reading has changed the level")
	vh.Reach("compared")
}

// H_C37_write: what is written and refused is the same whatever the level.
func H_C37_write() {
	kind := netcdf.FileKind(vh.Choose("kind", 2))
	bad := vh.Choose("bad", nBad+2) - 1
	vh.Assume(bad != 1 || kind == netcdf.KindCDF)
	vars := goodVars()
	var files [2][]byte
	n := []int{0, 1, 3}[vh.Choose("level", 3)]
	for i := range files {
		fn := vh.TempFile("w" + number(i+1))
		w, err := netcdf.OpenWriter(fn, kind)
		must(err, "OpenWriter")
		for _, v := range vars {
			must(w.AddVar(v.name, api.Variable{Values: v.val, Dimensions: v.dims}), "AddVar")
		}
		if bad >= 0 {
			name, v := badVar(bad, "bad")
			err := w.AddVar(name, v)
			vh.Assert(err != nil, "input that cannot be represented was accepted")
		}
		must(w.Close(), "Close")
		files[i] = readFile(fn)
		cdf.SetLogLevel(n)
		hdf5.SetLogLevel(n)
	}
	vh.Assert(vh.Eq(files[0], files[1]), "what is written depends on the level")
	cdf.SetLogLevel(2)
	hdf5.SetLogLevel(2)
	vh.Reach("compared")
}
