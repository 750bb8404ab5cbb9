package h

import (
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/vh"
)

// Places for a name.
const (
	nmVar = iota
	nmGlobalAttr
	nmVarAttr
	nmClassic // the number of places in classic files
)

const (
	nmGroup = nmClassic + iota
	nmGroupVar
	nmGroupAttr
	nmSubgroup
	nmAll
)

func one(name string) api.AttributeMap {
	return amap([]string{name}, map[string]interface{}{name: int32(7)})
}

// tryName puts a name in a file, and gives whether it is accepted. If it is, it has to be read back.
func tryName(classic bool, place int, name string) bool {
	fn := vh.TempFile("n.nc")
	var w api.Writer
	var err error
	if classic {
		w, err = cdf.OpenWriter(fn)
	} else {
		w, err = hdf5.OpenWriter(fn)
	}
	must(err, "OpenWriter")
	at := w
	if place == nmGroupVar || place == nmGroupAttr || place == nmSubgroup {
		at, err = w.CreateGroup("G")
		must(err, "CreateGroup")
	}
	switch place {
	case nmVar, nmGroupVar:
		err = at.AddVar(name, api.Variable{Values: int32(7)})
	case nmGlobalAttr, nmGroupAttr:
		err = at.AddAttributes(one(name))
	case nmVarAttr:
		err = at.AddVar("v", api.Variable{Values: int32(7), Attributes: one(name)})
	case nmGroup, nmSubgroup:
		_, err = at.CreateGroup(name)
	}
	accepted := err == nil
	if classic && place != nmVar {
		// there has to be a variable
		must(w.AddVar("w", api.Variable{Values: int8(1)}), "AddVar")
	}
	must(w.Close(), "Close")
	var g api.Group
	if classic {
		g, err = cdf.Open(fn)
	} else {
		g, err = hdf5.Open(fn)
	}
	must(err, "Open")
	if place == nmGroupVar || place == nmGroupAttr || place == nmSubgroup {
		g = subgroup(g, "G")
	}
	var got []string
	switch place {
	case nmVar, nmGroupVar:
		got = g.ListVariables()
		if accepted {
			v, err := g.GetVariable(name)
			must(err, "GetVariable")
			vh.Assert(vh.Eq(v.Values, int32(7)), "value differs")
		}
	case nmGlobalAttr, nmGroupAttr:
		got = g.Attributes().Keys()
	case nmVarAttr:
		if accepted {
			v, err := g.GetVariable("v")
			must(err, "GetVariable")
			got = v.Attributes.Keys()
			x, ok := v.Attributes.Get(name)
			vh.Assert(ok && vh.Eq(x, int32(7)), "attribute differs")
		}
	case nmGroup, nmSubgroup:
		got = g.ListSubgroups()
		if accepted {
			_, err := g.GetGroup(name)
			must(err, "GetGroup")
		}
	}
	if accepted {
		vh.Assert(len(got) == 1, "number of names differs")
		vh.Assert(got[0] == name, "name read differs from name written")
	} else {
		vh.Assert(len(got) == 0, "name was refused, but is in the file")
	}
	g.Close()
	vh.Reach("checked")
	return accepted
}

func pickPlace() (bool, int) {
	k := vh.Choose("place", nmClassic+nmAll)
	if k < nmClassic {
		return true, k
	}
	return false, k - nmClassic
}

func alnum(b byte) bool {
	return vh.Or(vh.Or(vh.And(b >= '0', b <= '9'), vh.And(b >= 'A', b <= 'Z')), vh.And(b >= 'a', b <= 'z'))
}

func plain(b byte) bool { return vh.And(vh.And(b >= ' ', b < 0x7f), b != '/') }

// reserved names are how dimensions are represented in HDF5 files.
func reserved(classic bool, place int, name string) bool {
	if classic || (place != nmGlobalAttr && place != nmVarAttr && place != nmGroupAttr) {
		return false
	}
	return vh.Or(vh.Or(name == "CLASS", name == "NAME"), vh.Or(name == "DIMENSION_LIST", name == "REFERENCE_LIST"))
}

// H_C24_ascii tries all names of ASCII characters up to some length.
func H_C24_ascii() {
	classic, place := pickPlace()
	s := vh.Str("name", vh.Choose("len", tierInt(5, 7)))
	valid := len(s) > 0
	for i := 0; i < len(s); i++ {
		vh.Assume(s[i] < 0x80)
		if i == 0 {
			valid = vh.And(valid, alnum(s[i]))
		} else {
			valid = vh.And(valid, plain(s[i]))
		}
		if i == len(s)-1 {
			valid = vh.And(valid, s[i] != ' ')
		}
	}
	valid = vh.And(valid, !reserved(classic, place, s))
	ok := tryName(classic, place, s)
	vh.Assert(ok == valid, "name is not accepted exactly when it is valid")
}

// H_C24_reserved has the names which represent dimensions.
func H_C24_reserved() {
	_, place := pickPlace()
	name := []string{"CLASS", "NAME", "DIMENSION_LIST", "REFERENCE_LIST"}[vh.Choose("name", 4)]
	for _, classic := range []bool{true, false} {
		if classic && place >= nmClassic {
			continue
		}
		vh.Assert(tryName(classic, place, name) == !reserved(classic, place, name), "reserved name")
	}
}

func between(r uint32, lo, hi uint32) bool { return vh.And(r >= lo, r <= hi) }

// classes of characters in two ranges of Unicode
func runeClass(r uint32) (start, control, space bool) {
	or := func(x ...bool) bool {
		t := false
		for _, b := range x {
			t = vh.Or(t, b)
		}
		return t
	}
	start = or(r == 0xaa, r == 0xb5, r == 0xba, between(r, 0xc0, 0xd6), between(r, 0xd8, 0xf6), between(r, 0xf8, 0x24f),
		between(r, 0xb2, 0xb3), r == 0xb9, between(r, 0xbc, 0xbe))
	control = or(between(r, 0x80, 0x9f), r == 0xad, between(r, 0x200b, 0x200f), between(r, 0x202a, 0x202e),
		between(r, 0x2060, 0x2064), between(r, 0x2066, 0x206f))
	space = or(r == 0xa0, between(r, 0x2000, 0x200a), r == 0x2028, r == 0x2029, r == 0x202f, r == 0x205f)
	return
}

// H_C24_unicode has a character that is not ASCII in any place of the name.
func H_C24_unicode() {
	classic, place := pickPlace()
	r := vh.U32("rune")
	var c []byte
	if vh.Choose("bytes", 2) == 0 {
		vh.Assume(between(r, 0x80, 0x24f))
		c = []byte{byte(0xc0 | r>>6), byte(0x80 | r&63)}
	} else {
		vh.Assume(vh.And(between(r, 0x2000, 0x206f), r != 0x2065))
		c = []byte{byte(0xe0 | r>>12), byte(0x80 | r>>6&63), byte(0x80 | r&63)}
	}
	before, after := vh.Choose("before", 2), vh.Choose("after", 2)
	var b []byte
	if before == 1 {
		b = append(b, 'a')
	}
	b = append(b, c...)
	if after == 1 {
		b = append(b, 'b')
	}
	start, control, space := runeClass(r)
	valid := !control
	if before == 0 {
		valid = vh.And(valid, start)
	}
	if after == 0 {
		valid = vh.And(valid, !space)
	}
	vh.Assert(tryName(classic, place, string(b)) == valid, "name is not accepted exactly when it is valid")
}

// H_C24_bytes has names of any bytes: those accepted are read back.
func H_C24_bytes() {
	classic, place := pickPlace()
	s := vh.Str("name", 1+vh.Choose("len", tierInt(2, 3)))
	ok := tryName(classic, place, s)
	first := s[0]
	vh.Assert(!vh.And(ok, vh.And(first < 0x80, !alnum(first))), "name that begins with neither a letter nor a digit was accepted")
	for i := 0; i < len(s); i++ {
		vh.Assert(!vh.And(ok, vh.Or(s[i] < ' ', s[i] == '/')), "name with a control character or a slash was accepted")
	}
}

// H_C24_long has long names.
func H_C24_long() {
	classic, place := pickPlace()
	n := []int{63, 64, 65, 127, 128, 254, 255, 256, 257, 300, 1000}[vh.Choose("len", 11)]
	b := make([]byte, n)
	for i := range b {
		b[i] = 'x'
	}
	b[n-1] = vh.U8("last")
	vh.Assume(plain(b[n-1]))
	vh.Assert(tryName(classic, place, string(b)) == (b[n-1] != ' '), "long name is not accepted exactly when it is valid")
}
