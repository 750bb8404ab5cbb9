package h

import (
	"errors"

	"github.com/batchatco/go-native-netcdf/netcdf/util"
	"github.com/batchatco/go-native-netcdf/vh"
)

// mapModel is what an ordered map should be.
type mapModel struct {
	keys   []string
	vals   []any
	hidden []string // also keys that are not there yet
}

func (m *mapModel) find(k string) int {
	for i, x := range m.keys {
		if x == k {
			return i
		}
	}
	return -1
}

func (m *mapModel) add(k string, v any) {
	if i := m.find(k); i >= 0 {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (m *mapModel) visible() []string {
	r := []string{}
	for _, k := range m.keys {
		if !has(m.hidden, k) {
			r = append(r, k)
		}
	}
	return r
}

func (m *mapModel) check(om *util.OrderedMap, other string) {
	keys := om.Keys()
	want := m.visible()
	vh.Assert(len(keys) == len(want), "number of visible keys differs")
	for i := range want {
		vh.Assert(keys[i] == want[i], "keys or their order differ")
	}
	for i, k := range m.keys {
		v, ok := om.Get(k)
		vh.Assert(ok, "key that was added is not found")
		vh.Assert(vh.Eq(v, m.vals[i]), "value is not the last one given")
		t, ok := om.GetType(k)
		gt, gok := om.GetGoType(k)
		vh.Assert(ok && gok, "type of a value is not found")
		_, isInt := m.vals[i].(int32)
		if isInt {
			vh.Assert(t == "int" && gt == "int32", "type is not that of the value")
		} else {
			vh.Assert(t == "double(2)" && gt == "[]float64", "type is not that of the value")
		}
	}
	if m.find(other) < 0 {
		v, ok := om.Get(other)
		vh.Assert(!ok && v == nil, "key that was not added is found")
		_, ok = om.GetType(other)
		_, gok := om.GetGoType(other)
		vh.Assert(!ok && !gok, "type of a key that was not added is found")
	}
}

func mapKey(name string) string { return vh.Str(name, vh.Choose("length", 2)) }

func mapVal() any {
	if vh.Choose("kind", 2) == 0 {
		return vh.I32("value")
	}
	return []float64{vh.F64("value"), 1}
}

// construct makes a map of n different keys.
func construct(n int) (*util.OrderedMap, *mapModel) {
	m := &mapModel{}
	vals := map[string]any{}
	for range n {
		k := mapKey("key")
		vh.Assume(m.find(k) < 0)
		v := mapVal()
		m.add(k, v)
		vals[k] = v
	}
	om, err := util.NewOrderedMap(append([]string(nil), m.keys...), vals)
	must(err, "NewOrderedMap")
	return om, m
}

func h22ops(start, steps int) {
	om, m := construct(start)
	for range steps {
		k := mapKey("key")
		if vh.Choose("op", 2) == 0 {
			v := mapVal()
			om.Add(k, v)
			m.add(k, v)
		} else {
			om.Hide(k)
			m.hidden = append(m.hidden, k)
		}
	}
	m.check(om, mapKey("other"))
	vh.Reach("checked")
}

// H_C22_ops: any operations with any keys.
func H_C22_ops()  { h22ops(vh.Choose("start", 2), 3) }
func HT_C22_ops() { h22ops(vh.Choose("start", 3), 4) }

// H_C22_start starts from larger maps.
func H_C22_start() { h22ops(2, 2) }

// H_C22_each checks after each operation, as results may be kept inside.
func H_C22_each() {
	om, m := construct(1)
	m.check(om, "zz")
	for range 3 {
		k := []string{m.keys[0], "b", "c"}[vh.Choose("which", 3)]
		vh.Assume(k == m.keys[0] || m.keys[0] != "b" && m.keys[0] != "c")
		if vh.Choose("op", 2) == 0 {
			v := mapVal()
			om.Add(k, v)
			m.add(k, v)
		} else {
			om.Hide(k)
			m.hidden = append(m.hidden, k)
		}
		m.check(om, "zz")
	}
	vh.Reach("checked")
}

// H_C22_new: keys and values that match, or don't.
func H_C22_new() {
	n, k := vh.Choose("keys", 4), vh.Choose("values", 4)
	var keys []string
	for range n {
		keys = append(keys, vh.Str("key", vh.Choose("length", 2)))
	}
	vals := map[string]any{}
	var names []string
	for range k {
		s := vh.Str("name", vh.Choose("length", 2))
		vh.Assume(!has(names, s))
		names = append(names, s)
		vals[s] = vh.I32("value")
	}
	om, err := util.NewOrderedMap(keys, vals)
	match := sameSet(keys, names)
	vh.Assert((err == nil) == match, "construction: keys that match are refused, or ones that don't are accepted")
	if err != nil {
		vh.Assert(om == nil && errors.Is(err, util.ErrorKeysDontMatchValues), "refused with another error than documented")
		vh.Reach("refused")
		return
	}
	m := &mapModel{}
	for _, s := range keys {
		m.add(s, vals[s])
	}
	m.check(om, "zz")
	vh.Reach("made")
}

// H_C22_alias: neither what was given nor what was returned is shared.
func H_C22_alias() {
	keys := []string{"a", "b", "c"}
	vals := map[string]any{}
	m := &mapModel{}
	for _, k := range keys {
		v := vh.I32("value")
		vals[k] = v
		m.add(k, v)
	}
	om, err := util.NewOrderedMap(keys, vals)
	must(err, "NewOrderedMap")
	for range 2 {
		switch vh.Choose("change", 6) {
		case 0:
			keys[vh.Choose("at", 3)] = "z"
		case 1:
			vals[vh.Str("key", 1)] = vh.I32("changed")
		case 2:
			delete(vals, "b")
		case 3:
			if k := om.Keys(); len(k) > 0 {
				k[0] = "z"
				_ = append(k[:0], "y", "x")
			}
		case 4:
			om.Hide("b")
			m.hidden = append(m.hidden, "b")
		case 5:
			om.Add("d", int32(4))
			m.add("d", int32(4))
		}
	}
	m.check(om, "zz")
	vh.Reach("checked")
}

// H_C22_types: the descriptions of values of all types that attributes can have.
func H_C22_types() {
	ty := 1 + vh.Choose("type", 11)
	k := "k"
	var v any
	cdl, gt := tCDL[ty], tGo[ty]
	n := vh.Choose("length", 5) - 1
	switch {
	case ty == tChar:
		v = vh.Str("text", max(n, 0))
		cdl, gt = "string", "string"
		if n == 3 {
			v = []string{vh.Str("text", 2), vh.Str("text", 0)}
			cdl, gt = "string(2)", "[]string"
		}
	case n < 0:
		v = decode(ty, rawFor("v", ty, nil), nil, false)
	default:
		v = decode(ty, rawFor("v", ty, []int{n}), []int{n}, false)
		gt = "[]" + gt
		cdl += "(" + []string{"*", "1", "2", "3"}[n] + ")"
	}
	om, err := util.NewOrderedMap(nil, nil)
	must(err, "NewOrderedMap")
	om.Add(k, int8(1))
	om.Add(k, v)
	t, ok := om.GetType(k)
	vh.Assert(ok && t == cdl, "CDL type is not that of the value")
	t, ok = om.GetGoType(k)
	vh.Assert(ok && t == gt, "Go type is not that of the value")
	got, ok := om.Get(k)
	vh.Assert(ok && vh.Eq(got, v), "value is not the last one given")
	vh.Reach("checked")
}

// H_C22_nested: descriptions of compounds and arrays.
func H_C22_nested() {
	type in struct {
		A int16
		B [3]float64
	}
	type out struct {
		X in
		Y string
	}
	e := in{vh.I16("a"), [3]float64{vh.F64("b"), 0, 0}}
	cases := []struct {
		v       any
		cdl, gt string
	}{
		{e, "compound { short A; double(3) B; }", "struct { A int16; B [3]float64 }"},
		{[]in{e}, "compound { short A; double(3) B; }(1)", "[]struct { A int16; B [3]float64 }"},
		{[2][3]uint8{}, "ubyte(2,3)", "[2][3]uint8"},
		{[][]int64{{1, 2}, {3, vh.I64("c")}, {5, 6}}, "int64(3,2)", "[][]int64"},
		{out{e, "s"}, "compound { compound { short A; double(3) B; } X; string Y; }", "struct { X struct { A int16; B [3]float64 }; Y string }"},
		{[][]string{{"a"}, {"b"}}, "string(2,1)", "[][]string"},
	}
	c := cases[vh.Choose("case", len(cases))]
	om, err := util.NewOrderedMap([]string{"k"}, map[string]any{"k": c.v})
	must(err, "NewOrderedMap")
	t, ok := om.GetType("k")
	vh.Note("cdl " + t)
	vh.Assert(ok && t == c.cdl, "CDL type is not that of the value")
	t, ok = om.GetGoType("k")
	vh.Note("go " + t)
	vh.Assert(ok && t == c.gt, "Go type is not that of the value")
	vh.Reach("checked")
}
