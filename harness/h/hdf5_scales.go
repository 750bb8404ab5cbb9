package h

import (
	"fmt"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/vh"
)

// Dimensions and variables as the NetCDF C library stores them in HDF5 files.

type sdim struct {
	name      string
	n, id     int
	unlimited bool
}

type svar struct {
	name string
	ty   int
	dims []*sdim
	raw  []byte
}

type sgroup struct {
	name   string
	dims   []*sdim
	vars   []*svar
	groups []*sgroup
}

func (v *svar) shape() []int {
	var r []int
	for _, d := range v.dims {
		r = append(r, d.n)
	}
	return r
}

func (v *svar) names() []string {
	var r []string
	for _, d := range v.dims {
		r = append(r, d.name)
	}
	return r
}

// scales is a file of them.
type scales struct {
	v1      bool
	numbers bool // all variables have the numbers of their dimensions, as from newer libraries
	refs    int  // REFERENCE_LIST: 0 none, 1 with signed numbers, 2 unsigned
	lists   bool // DIMENSION_LIST; without it, there have to be numbers
	root    *sgroup

	u    *ufile
	addr map[string]uint64
}

func (g *sgroup) coordinate(d *sdim) *svar {
	for _, v := range g.vars {
		if v.name == d.name && len(v.dims) > 0 && v.dims[0] == d {
			return v
		}
	}
	return nil
}

func (g *sgroup) dim(name string) *sdim {
	for _, d := range g.dims {
		if d.name == name {
			return d
		}
	}
	return nil
}

func (g *sgroup) walk(f func(g *sgroup, path string)) {
	var down func(g *sgroup, path string)
	down = func(g *sgroup, path string) {
		f(g, path)
		for _, s := range g.groups {
			down(s, path+s.name+"/")
		}
	}
	down(g, "/")
}

// encode makes the file twice: objects refer to each other by addresses, which are known only then.
func (s *scales) encode() []byte {
	s.addr = map[string]uint64{}
	var b []byte
	for range 2 {
		s.u = newUfile(s.v1)
		root := s.put(s.root, "/")
		copy(s.u.f.b[s.u.heapB:], s.u.h.encode())
		b = s.u.f.finish(root)
	}
	return b
}

func (s *scales) attr(list *[]hmsg, name string, dt, ds, data []byte) {
	ver := 3
	if s.v1 {
		ver = 1
	}
	*list = append(*list, hmsg{ty: 12, body: attrMsg(ver, name, dt, ds, data), co: len(*list)})
}

func (s *scales) text(list *[]hmsg, name, val string) {
	s.attr(list, name, dtStr(len(val)+1), dspace(), append([]byte(val), 0))
}

func (s *scales) dimid(list *[]hmsg, d *sdim) {
	s.attr(list, "_Netcdf4Dimid", dtFixed(4, true, false), dspace(), (&lb{}).u32(uint32(d.id)).b)
}

// dimids has the numbers of all dimensions.
func (s *scales) dimids(list *[]hmsg, v *svar) {
	l := &lb{}
	for _, d := range v.dims {
		l.u32(uint32(d.id))
	}
	s.attr(list, "_Netcdf4Coordinates", dtFixed(4, true, false), dspace(len(v.dims)), l.b)
}

// users is the REFERENCE_LIST of a scale: the variables with this dimension.
func (s *scales) users(list *[]hmsg, d *sdim) {
	l, n := &lb{}, 0
	s.root.walk(func(g *sgroup, path string) {
		for _, v := range g.vars {
			if g.dim(v.name) != nil && g.coordinate(g.dim(v.name)) == v {
				continue
			}
			for i, x := range v.dims {
				if x == d {
					l.u64(s.addr[path+v.name+"?"]).u32(uint32(i)).u32(0)
					n++
				}
			}
		}
	})
	if n == 0 || s.refs == 0 || !s.lists {
		return
	}
	ref := (&lb{}).u8(0x17, 0, 0, 0).u32(8).b
	dt := (&lb{}).u8(0x36, 2, 0, 0).u32(16).name("dataset").u8(0).bytes(ref).name("dimension").u8(8)
	dt.bytes(dtFixed(4, s.refs == 1, false))
	s.attr(list, "REFERENCE_LIST", dt.b, dspace(n), l.b)
}

func (s *scales) put(g *sgroup, path string) uint64 {
	var links []hlink
	add := func(name, key string, d *hset) {
		if s.v1 && d.space == nil {
			d.ds1 = true
		}
		a := s.u.f.dataset(d)
		s.addr[path+key] = a
		links = append(links, hlink{name, a})
	}
	space := func(d *hset, dims []*sdim) {
		ds := (&lb{}).u8(2, len(dims), 1, 1)
		some := false
		for _, x := range dims {
			ds.u64(uint64(x.n))
		}
		for _, x := range dims {
			if x.unlimited {
				some = true
				ds.u64(undef)
			} else {
				ds.u64(uint64(x.n))
			}
		}
		if some {
			d.space = ds.b
			d.chunk = make([]int, len(dims))
			for i := range d.chunk {
				d.chunk[i] = 2
			}
		}
	}
	for _, d := range g.dims {
		if g.coordinate(d) != nil {
			continue
		}
		x := &hset{ty: tFloat, be: true, shape: []int{d.n}, absent: true, raw: make([]byte, 4*d.n)}
		space(x, []*sdim{d})
		s.text(&x.attrs, "CLASS", "DIMENSION_SCALE")
		s.text(&x.attrs, "NAME", fmt.Sprintf("This is a netCDF dimension but not a netCDF variable.%10d", d.n))
		s.users(&x.attrs, d)
		s.dimid(&x.attrs, d)
		add(d.name, d.name, x)
	}
	for _, v := range g.vars {
		x := &hset{ty: v.ty, shape: v.shape(), raw: v.raw}
		space(x, v.dims)
		name := v.name
		d := g.dim(name)
		if d != nil && g.coordinate(d) == v {
			s.text(&x.attrs, "CLASS", "DIMENSION_SCALE")
			s.text(&x.attrs, "NAME", name)
			s.users(&x.attrs, d)
			if len(v.dims) > 1 || s.numbers {
				s.dimids(&x.attrs, v)
			}
			s.dimid(&x.attrs, d)
			s.addr[path+v.name] = 0
			s.units(x)
			add(name, name, x)
			continue
		}
		if d != nil {
			name = "_nc4_non_coord_" + name
		}
		s.units(x)
		if len(v.dims) > 0 {
			if s.lists {
				var refs []byte
				for _, y := range v.dims {
					refs = append(refs, s.u.h.ref(1, (&lb{}).u64(s.addr[s.home(y)+y.name]).b)...)
				}
				dt := (&lb{}).u8(0x19, 0, 0, 0).u32(16).u8(0x17, 0, 0, 0).u32(8).b
				s.attr(&x.attrs, "DIMENSION_LIST", dt, dspace(len(v.dims)), refs)
			}
			if s.numbers || !s.lists {
				s.dimids(&x.attrs, v)
				s.dimid(&x.attrs, v.dims[0])
			}
		}
		add(name, v.name+"?", x)
	}
	for _, c := range g.groups {
		links = append(links, hlink{c.name, s.put(c, path+c.name+"/")})
	}
	var attrs []hmsg
	if path == "/" {
		s.text(&attrs, "_NCProperties", "version=2,netcdf=4.9.2,hdf5=1.10.10")
	}
	if s.v1 {
		return s.u.f.oldGroup(links, 8, 32, attrs...)
	}
	return s.u.f.group(links, attrs...)
}

func (s *scales) units(x *hset) {
	s.attr(&x.attrs, "units", dtFixed(2, true, false), dspace(), []byte{1, 2})
}

// home is the path of the group which has the dimension.
func (s *scales) home(d *sdim) string {
	at := ""
	s.root.walk(func(g *sgroup, path string) {
		for _, x := range g.dims {
			if x == d {
				at = path
			}
		}
	})
	return at
}

func (s *scales) check() {
	root := openHBytes(s.encode())
	s.root.walk(func(w *sgroup, path string) {
		g := subgroup(root, path)
		var dims, vars, groups []string
		for _, d := range w.dims {
			dims = append(dims, d.name)
			n, ok := g.GetDimension(d.name)
			vh.Assert(ok && n == uint64(d.n), "length of a dimension differs")
		}
		for _, v := range w.vars {
			vars = append(vars, v.name)
		}
		for _, c := range w.groups {
			groups = append(groups, c.name)
		}
		vh.Assert(sameSet(g.ListDimensions(), dims), "list of dimensions differs")
		vh.Assert(sameSet(g.ListVariables(), vars), "list of variables differs")
		vh.Assert(sameSet(g.ListSubgroups(), groups), "list of groups differs")
		vh.Assert(len(g.Attributes().Keys()) == 0, "attributes of a group that it has not")
		vh.Assert(len(g.ListTypes()) == 0, "types that are not there")
		for _, v := range w.vars {
			x, err := g.GetVariable(v.name)
			must(err, "GetVariable")
			vh.Assert(vh.Eq(x.Values, decode(v.ty, v.raw, v.shape(), true)), "values differ")
			vh.Assert(sameStrings(x.Dimensions, v.names()), "dimensions of a variable differ")
			vh.Assert(sameStrings(x.Attributes.Keys(), []string{"units"}), "attributes of a variable differ")
			vg, err := g.GetVarGetter(v.name)
			must(err, "GetVarGetter")
			vh.Assert(sameStrings(vg.Dimensions(), v.names()), "dimensions of a getter differ")
			vh.Assert(sameStrings(vg.Attributes().Keys(), []string{"units"}), "attributes of a getter differ")
			var shape []int64
			for _, n := range v.shape() {
				shape = append(shape, int64(n))
			}
			vh.Assert(len(shape) == 0 || vh.Eq(vg.Shape(), shape), "shape of a getter differs")
		}
		for _, d := range w.dims {
			if w.coordinate(d) == nil && !has(vars, d.name) {
				_, err := g.GetVariable(d.name)
				vh.Assert(err != nil, "a dimension is read as a variable")
			}
		}
	})
	vh.Reach("checked")
	root.Close()
}

var _ api.Group

func (s *scales) variable(g *sgroup, name string, ty int, dims ...*sdim) {
	v := &svar{name: name, ty: ty, dims: dims}
	v.raw = rawFor(name, ty, v.shape())
	g.vars = append(g.vars, v)
}

// style is one of the ways of several versions of the library.
func (s *scales) style(n int) {
	switch vh.Choose("style", n) {
	case 0:
		s.lists, s.refs, s.numbers = true, 2, true
	case 1:
		s.lists, s.refs = true, 1
	case 2: // without references, an option of the library
		s.numbers = true
	case 3:
		s.lists, s.refs, s.numbers, s.v1 = true, 1, true, true
	case 4:
		s.lists, s.v1 = true, true
	}
}

// H_C36_named: three variables with the names of dimensions or without, with their own
// or other dimensions.
func H_C36_named() {
	x, y := &sdim{name: "x", n: 2, id: 0}, &sdim{name: "y", n: 3 - vh.Choose("square", 2), id: 1}
	s := &scales{root: &sgroup{dims: []*sdim{x, y}}}
	s.style(tierInt(3, 5))
	for i, name := range []string{"x", "y", "v"} {
		k := vh.Choose("dims", 6+i/2)
		if k == 5 {
			continue
		}
		dims := [][]*sdim{{}, {x}, {y}, {y, x}, {x, y}, {}, {x, x}}[k]
		s.variable(s.root, name, []int{tByte, tShort, tInt}[i], dims...)
	}
	s.check()
}

// H_C36_groups: dimensions of a group and those above, with names that come again.
func H_C36_groups() {
	a := &sgroup{name: "a", groups: []*sgroup{{name: "b"}}}
	b := a.groups[0]
	s := &scales{root: &sgroup{groups: []*sgroup{a, {name: "x"}}}}
	s.root.groups[1].name = "c"
	s.style(tierInt(2, 5))
	id := vh.Choose("first", 2) * 7
	scopes := []*sgroup{s.root, a, b}
	visible := map[string]*sdim{}
	for i, g := range scopes {
		for j, name := range []string{"x", "y"} {
			if vh.Choose("has", 2) == 1 {
				d := &sdim{name: name, n: 1 + (i+j)%3, id: id}
				id++
				g.dims = append(g.dims, d)
				visible[name] = d
			}
		}
		var dims []*sdim
		if visible["x"] != nil {
			dims = append(dims, visible["x"])
			if vh.Choose("coordinate", 2) == 1 {
				s.variable(g, "x", tShort, visible["x"])
			}
		}
		if visible["y"] != nil {
			dims = append(dims, visible["y"])
		}
		s.variable(g, "v", tInt, dims...)
	}
	s.check()
}

// H_C36_records: dimensions without a limit, of several variables.
func H_C36_records() {
	n := vh.Choose("records", 4)
	t := &sdim{name: "t", n: n, id: 0, unlimited: true}
	x := &sdim{name: "x", n: 1 + vh.Choose("x", 2), id: 1, unlimited: vh.Choose("both", 2) == 1}
	s := &scales{root: &sgroup{dims: []*sdim{t, x}}}
	s.style(tierInt(3, 5))
	ty := pickNum()
	if vh.Choose("coordinate", 2) == 1 {
		s.variable(s.root, "t", ty, t)
	}
	switch vh.Choose("dims", 4) {
	case 0:
		s.variable(s.root, "v", ty, t, x)
	case 1:
		s.variable(s.root, "v", ty, x, t)
		vh.Assume(n > 0)
	case 2:
		s.variable(s.root, "x", ty, x, t)
		vh.Assume(n > 0)
	case 3:
		s.variable(s.root, "x", ty, t)
		s.variable(s.root, "w", tByte, x)
	}
	s.check()
}

// H_C36_many has more dimensions, of which many are of one variable.
func H_C36_many() {
	s := &scales{root: &sgroup{}}
	s.style(tierInt(3, 5))
	n := tierInt(6, 10)
	for i := range n {
		s.root.dims = append(s.root.dims, &sdim{name: "d" + number(i+1), n: 1 + i%2, id: i})
	}
	var dims []*sdim
	k := vh.Choose("first", n)
	step := 1 + vh.Choose("step", 3)
	for i := range 1 + vh.Choose("rank", 5) {
		dims = append(dims, s.root.dims[(k+i*step)%n])
	}
	s.variable(s.root, "v", tShort, dims...)
	s.variable(s.root, "d"+number(1+vh.Choose("coordinate", n)), tByte, s.root.dims[k])
	s.check()
}
