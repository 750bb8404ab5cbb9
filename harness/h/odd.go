package h

import (
	"errors"
	"io"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/vh"
)

// oddReader is a reader that does what io.Reader allows but files seldom do,
// or that fails.
type oddReader struct {
	memReader
	calls int
	at    uint16 // the call at which it happens
	also  uint16 // and another one, if not zero
	kind  int
}

const (
	oddPiece  = iota // one call returns one byte only
	oddPieces        // no call returns more than a few bytes
	oddEOF           // the last bytes come with io.EOF
	oddEmpty         // one call returns nothing
	oddHere          // kinds before this one are no errors
	oddFail          // one call fails
	oddFails         // calls fail from this one on
	oddPart          // one call returns one byte and an error
	nOdd
)

var errOdd = errors.New("the disk is on fire")

// now is whether it happens at this call.
func (o *oddReader) now() bool {
	o.calls++
	if o.kind == oddFails {
		return o.calls >= int(o.at)
	}
	return o.calls == int(o.at) || o.also > 0 && o.calls == int(o.also)
}

func (o *oddReader) Read(p []byte) (int, error) {
	now := o.now()
	switch {
	case len(p) == 0:
	case o.kind == oddEOF && o.pos < int64(len(o.b)) && o.pos+int64(len(p)) >= int64(len(o.b)):
		n, _ := o.memReader.Read(p)
		return n, io.EOF
	case o.kind == oddPieces && len(p) > int(o.at):
		p = p[:o.at]
	case !now:
	case o.kind == oddPiece:
		p = p[:1]
	case o.kind == oddEmpty:
		return 0, nil
	case o.kind == oddFail || o.kind == oddFails:
		return 0, errOdd
	case o.kind == oddPart:
		n, _ := o.memReader.Read(p[:1])
		return n, errOdd
	}
	return o.memReader.Read(p)
}

func (o *oddReader) Seek(off int64, whence int) (int64, error) {
	if o.now() && (o.kind == oddFail || o.kind == oddFails) {
		return 0, errOdd
	}
	return o.memReader.Seek(off, whence)
}

// aread is one read operation, and what it returns on a good reader.
type aread struct {
	what string
	do   func(root api.Group) (any, error)
	exp  any
}

// allReads are the reads that can be made on a group.
func allReads(g api.Group, path string, depth int) []aread {
	var rs []aread
	add := func(what string, f func(g api.Group) (any, error)) {
		rs = append(rs, aread{what: path + " " + what, do: func(root api.Group) (any, error) {
			g, err := root.GetGroup(path)
			if err != nil {
				return nil, err
			}
			defer g.Close()
			return f(g)
		}})
	}
	attrs := func(a api.AttributeMap) []any {
		var r []any
		for _, k := range a.Keys() {
			v, _ := a.Get(k)
			r = append(r, k, v)
		}
		return r
	}
	strs := func(s []string) []string { return append([]string{}, s...) }
	add("lists", func(g api.Group) (any, error) {
		r := []any{strs(g.ListVariables()), strs(g.ListSubgroups()), strs(g.ListDimensions()), strs(g.ListTypes())}
		for _, t := range g.ListTypes() {
			ty, _ := g.GetType(t)
			r = append(r, ty)
		}
		for _, d := range g.ListDimensions() {
			n, _ := g.GetDimension(d)
			r = append(r, n)
		}
		return append(r, attrs(g.Attributes())), nil
	})
	for _, v := range g.ListVariables() {
		add(v, func(g api.Group) (any, error) {
			x, err := g.GetVariable(v)
			if err != nil {
				return nil, err
			}
			return []any{x.Values, strs(x.Dimensions), attrs(x.Attributes)}, nil
		})
		add("getter of "+v, func(g api.Group) (any, error) {
			x, err := g.GetVarGetter(v)
			if err != nil {
				return nil, err
			}
			n := x.Shape()
			if len(n) == 0 {
				return x.Values()
			}
			b, e := make([]int64, len(n)), append([]int64{}, n...)
			b[len(n)-1] = n[len(n)-1] / 2
			s, err := x.GetSliceMD(b, e)
			if err != nil {
				return nil, err
			}
			t, err := x.GetSlice(n[0]/2, n[0])
			return []any{s, t, n, x.Type(), x.GoType(), attrs(x.Attributes())}, err
		})
	}
	if depth > 0 {
		for _, s := range g.ListSubgroups() {
			sg, err := g.GetGroup(s)
			must(err, "GetGroup")
			rs = append(rs, allReads(sg, path+s+"/", depth-1)...)
			sg.Close()
		}
	}
	return rs
}

const nOddFiles = 11

func oddFile(k int) []byte {
	f := newHfile(true)
	switch k {
	case 0:
		b, _, _, _ := classicBytes("r")
		return b
	case 1: // data that is not in the file, at the end
		e := &enc{version: 1}
		e.gattrs = []wattr{mkattr("g", tChar, 3)}
		e.add("a", tDouble, []int{2}, false)
		e.add("b", tShort, []int{4}, false)
		b := e.encode()
		return b[:len(b)-4]
	case 2: // contiguous
		sh := []int{2, 3}
		a := &hset{ty: tInt, shape: sh, raw: rawFor("a", tInt, sh)}
		b := &hset{ty: tShort, shape: sh, raw: rawFor("b", tShort, sh), fill: fixedBytes(2, 7)}
		return f.root([]string{"a", "b"}, []*hset{a, b})
	case 3: // chunked
		sh := []int{3}
		a := &hset{ty: tInt, shape: sh, chunk: []int{2}, raw: rawFor("a", tInt, sh)}
		return f.root([]string{"a"}, []*hset{a})
	case 4: // chunked and filtered
		sh := []int{3}
		a := &hset{ty: tShort, shape: sh, chunk: []int{2}, raw: rawFor("a", tShort, sh), filters: []hfilter{shuffled(2), summed()}}
		b := &hset{ty: tShort, shape: sh, chunk: []int{2}, raw: rawFor("b", tShort, sh), filters: []hfilter{shuffled(2)}}
		return f.root([]string{"a", "b"}, []*hset{a, b})
	case 5: // deflated
		sh := []int{3}
		a := &hset{ty: tShort, shape: sh, chunk: []int{2}, raw: rawFor("a", tShort, sh), filters: []hfilter{shuffled(2), deflated()}}
		b := &hset{ty: tShort, shape: sh, chunk: []int{2}, raw: rawFor("b", tShort, sh), filters: []hfilter{deflated()}}
		return f.root([]string{"a", "b"}, []*hset{a, b})
	case 6, 7: // a user type, with a heap
		t := utypes(k, 1)
		u := newUfile(true)
		u.h.same = true
		v := t.value(u.h, "u")
		m := hmsg{ty: 12, body: attrMsg(1, "a", t.encode(), dspace(1), v.raw)}
		at := u.f.dataset(&hset{dt: t.encode(), shape: []int{1}, raw: v.raw, attrs: []hmsg{m}})
		return u.encode([]hlink{{"x", at}, {"y_t", u.committed(t)}})
	}
	if k == 8 {
		_, b := denseFile(dense{smallHeap(32), 2, 2}, 3)
		return b
	}
	if k == 9 {
		return badHBase(9)
	}
	_, b := smallFile(0, false)
	return b
}

// odd reads a file from an odd reader.
func odd(k, kind int, twice bool) {
	b := oddFile(k)
	plain, err := netcdf.New(&memReader{b: b})
	must(err, "New")
	rs := allReads(plain, "/", 1)
	for i := range rs {
		rs[i].exp, err = rs[i].do(plain)
		must(err, rs[i].what)
	}
	plain.Close()
	at := vh.U16("at")
	if kind == oddPieces {
		at = uint16([]int{1, 3, 7}[vh.Choose("piece", 3)])
	}
	last := at
	var also uint16
	if twice {
		also = vh.U16("also")
		vh.Assume(also > at)
		last = also
	}
	o := &oddReader{memReader: memReader{b: b}, at: at, also: also, kind: kind}
	g, err := netcdf.New(o)
	if err != nil {
		vh.Assert(kind > oddHere, "a file can't be opened")
		vh.Assert(o.calls >= int(at), "a file can't be opened")
		vh.Assert(o.closed == 0, "closed")
		vh.Reach("not opened")
		return
	}
	for pass := 0; pass < 2; pass++ {
		for _, r := range rs {
			before := o.calls
			got, err := r.do(g)
			if err != nil {
				vh.Assert(kind > oddHere && o.calls >= int(at), "can't be read: "+r.what)
				vh.Assert(kind == oddFails || before < int(last), "can't be read after another read failed: "+r.what)
				continue
			}
			vh.Assert(vh.Eq(got, r.exp), "other data: "+r.what)
		}
	}
	g.Close()
	vh.Assert(o.closed == 1, "not closed")
	vh.Reach("read")
}

func H_C31_classic() { odd(vh.Choose("file", 2), vh.Choose("kind", nOdd), false) }
func H_C31_hdf5()    { odd(2+vh.Choose("file", nOddFiles-2), vh.Choose("kind", nOdd), false) }

// HT_C31_twice has it happen at two calls.
func HT_C31_twice() {
	kinds := []int{oddPiece, oddEmpty, oddFail, oddPart}
	odd(vh.Choose("file", nOddFiles), kinds[vh.Choose("kind", len(kinds))], true)
}
