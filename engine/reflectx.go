package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- a model of package reflect on the executor's values

func (in *Interp) rtype(t types.Type) Value {
	if t == nil {
		return Value{}
	}
	return Value{O: &Iface{t: in.rtypeT(), v: Value{O: t}}}
}

func (in *Interp) rtypeT() types.Type {
	pk := in.P.prog.ImportedPackage("reflect")
	return types.NewPointer(pk.Type("rtype").Type())
}

func ifaceType(v Value) types.Type {
	i, _ := v.O.(*Iface)
	if i == nil {
		return nil
	}
	t, _ := i.v.O.(types.Type)
	return t
}

func rkind(t types.Type) uint64 {
	if isReflectValue(t) {
		return 25
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func rtypeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	if s == "any" {
		s = "interface {}"
	}
	return s
}

func gosize(t types.Type) uint64 {
	return uint64(types.SizesFor("gc", "amd64").Sizeof(t))
}

func (in *Interp) rtypeMethod(t types.Type, name string, args []Value) Value {
	elem := func() types.Type {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return u.Elem()
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		case *types.Map:
			return u.Elem()
		case *types.Chan:
			return u.Elem()
		}
		in.goPanicStr("reflect: Elem of invalid type " + rtypeString(t))
		return nil
	}
	switch name {
	case "Kind":
		return Value{N: rkind(t)}
	case "Elem":
		return in.rtype(elem())
	case "Key":
		return in.rtype(t.Underlying().(*types.Map).Key())
	case "Name":
		switch x := t.(type) {
		case *types.Named:
			return mkStr(x.Obj().Name())
		case *types.Basic:
			return mkStr(x.Name())
		}
		return mkStr("")
	case "PkgPath":
		if x, ok := t.(*types.Named); ok && x.Obj().Pkg() != nil {
			return mkStr(x.Obj().Pkg().Path())
		}
		return mkStr("")
	case "String":
		return mkStr(rtypeString(t))
	case "Size":
		return Value{N: gosize(t)}
	case "Len":
		return Value{N: uint64(t.Underlying().(*types.Array).Len())}
	case "NumField":
		return Value{N: uint64(t.Underlying().(*types.Struct).NumFields())}
	case "NumMethod":
		return Value{N: uint64(in.P.prog.MethodSets.MethodSet(t).Len())}
	case "Comparable":
		return boolV(types.Comparable(t))
	case "Field":
		i := int(args[0].N)
		st := t.Underlying().(*types.Struct)
		if i >= st.NumFields() {
			in.goPanicStr("reflect: Field index out of bounds")
		}
		return in.structField(st, i)
	case "Implements":
		u := ifaceType(args[0])
		return boolV(types.Implements(t, u.Underlying().(*types.Interface)))
	case "AssignableTo":
		return boolV(types.AssignableTo(t, ifaceType(args[0])))
	case "ConvertibleTo":
		return boolV(types.ConvertibleTo(t, ifaceType(args[0])))
	case "Bits":
		return Value{N: gosize(t) * 8}
	}
	in.unsupported("reflect.Type.%s", name)
	return Value{}
}

func (in *Interp) structField(st *types.Struct, i int) Value {
	sf := in.ti(in.P.prog.ImportedPackage("reflect").Type("StructField").Type())
	a := make([]Value, sf.leaves)
	f := st.Field(i)
	a[sf.offs[0]] = mkStr(f.Name())
	if !f.Exported() && f.Pkg() != nil {
		a[sf.offs[1]] = mkStr(f.Pkg().Path())
	}
	a[sf.offs[2]] = in.rtype(f.Type())
	a[sf.offs[3]] = mkStr(st.Tag(i))
	return Value{O: a}
}

func (in *Interp) rv(v Value) *RVal {
	r, _ := v.O.(*RVal)
	return r
}

func (in *Interp) rvGet(r *RVal) Value {
	if r.adr {
		return in.load(r.ptr, in.ti(r.t))
	}
	return r.v
}

func mkRV(t types.Type, v Value) Value { return Value{O: &RVal{t: t, v: v}} }

func (in *Interp) rvIface(r *RVal) Value {
	v := in.rvGet(r)
	if types.IsInterface(r.t) {
		return v
	}
	return Value{O: &Iface{t: r.t, v: v}}
}

func (in *Interp) rvLen(r *RVal) int {
	v := in.rvGet(r)
	ti := in.ti(r.t)
	switch ti.kind {
	case KString:
		return strLen(v)
	case KSlice:
		if s, ok := v.O.(*Slice); ok {
			return s.len
		}
		return 0
	case KArray:
		return ti.n
	case KMap:
		if m, ok := v.O.(*Map); ok {
			return m.live
		}
		return 0
	case KPtr:
		if a, ok := r.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			return int(a.Len())
		}
	}
	in.valueError("Len", r)
	return 0
}

func (in *Interp) valueError(m string, r *RVal) {
	k := "zero Value"
	if r != nil {
		k = kindNames[rkind(r.t)] + " Value"
	}
	in.goPanicStr("reflect: call of reflect.Value." + m + " on " + k)
}

func (in *Interp) assignTo(r *RVal, v *RVal) Value {
	x := in.rvGet(v)
	if types.IsInterface(r.t) && !types.IsInterface(v.t) {
		if !types.Implements(v.t, r.t.Underlying().(*types.Interface)) {
			in.goPanicStr("reflect.Set: value of type " + rtypeString(v.t) + " is not assignable to type " + rtypeString(r.t))
		}
		return Value{O: &Iface{t: v.t, v: x}}
	}
	if !types.AssignableTo(v.t, r.t) {
		in.goPanicStr("reflect.Set: value of type " + rtypeString(v.t) + " is not assignable to type " + rtypeString(r.t))
	}
	return x
}

func (in *Interp) rvIndex(r *RVal, i int) Value {
	ti := in.ti(r.t)
	switch ti.kind {
	case KSlice:
		s, _ := in.rvGet(r).O.(*Slice)
		if s == nil || i < 0 || i >= s.len {
			in.goPanicStr("reflect: slice index out of range")
		}
		return Value{O: &RVal{t: r.t.Underlying().(*types.Slice).Elem(), ptr: Value{O: s.o, N: uint64(s.off + i*ti.elem.leaves)}, adr: true}}
	case KArray:
		if i < 0 || i >= ti.n {
			in.goPanicStr("reflect: array index out of range")
		}
		et := r.t.Underlying().(*types.Array).Elem()
		if r.adr {
			p := r.ptr
			p.N += uint64(i * ti.elem.leaves)
			return Value{O: &RVal{t: et, ptr: p, adr: true}}
		}
		return mkRV(et, pack(aggOf(r.v, ti), i*ti.elem.leaves, ti.elem))
	case KString:
		v := in.rvGet(r)
		if i < 0 || i >= strLen(v) {
			in.goPanicStr("reflect: string index out of range")
		}
		return mkRV(types.Typ[types.Uint8], strAt(v, i))
	}
	in.valueError("Index", r)
	return Value{}
}

type intrinsic = func(in *Interp, a []Value) Value

func (in *Interp) cint(v Value) int { return int(int64(in.conc(v, 64, "integer argument"))) }

func reflectIntrinsics(m map[string]intrinsic) {
	m["reflect.TypeOf"] = func(in *Interp, a []Value) Value {
		i, _ := a[0].O.(*Iface)
		if i == nil {
			return Value{}
		}
		if _, ok := i.v.O.(types.Type); ok {
			return in.rtype(in.rtypeT())
		}
		return in.rtype(i.t)
	}
	m["internal/reflectlite.TypeOf"] = m["reflect.TypeOf"]
	m["reflect.ValueOf"] = func(in *Interp, a []Value) Value {
		i, _ := a[0].O.(*Iface)
		if i == nil {
			return Value{}
		}
		return mkRV(i.t, i.v)
	}
	m["internal/reflectlite.ValueOf"] = m["reflect.ValueOf"]
	m["(internal/reflectlite.Value).Len"] = func(in *Interp, a []Value) Value {
		r := in.rv(a[0])
		if r == nil {
			in.valueError("Len", nil)
		}
		return Value{N: uint64(in.rvLen(r))}
	}
	m["reflect.Swapper"] = func(in *Interp, a []Value) Value {
		i, _ := a[0].O.(*Iface)
		ti := in.ti(i.t)
		if ti.kind != KSlice {
			in.valueError("Swapper", &RVal{t: i.t})
		}
		s, _ := i.v.O.(*Slice)
		return Value{O: &Closure{nat: func(in *Interp, a []Value) Value {
			x, y := in.cint(a[0]), in.cint(a[1])
			if s == nil || x < 0 || y < 0 || x >= s.len || y >= s.len {
				in.goPanicStr("reflect: slice index out of range")
			}
			k := ti.elem.leaves
			for j := 0; j < k; j++ {
				u, v := s.o.get(s.off+x*k+j), s.o.get(s.off+y*k+j)
				in.set(s.o, s.off+x*k+j, v)
				in.set(s.o, s.off+y*k+j, u)
			}
			return Value{}
		}}}
	}
	m["internal/reflectlite.Swapper"] = m["reflect.Swapper"]
	m["reflect.Indirect"] = func(in *Interp, a []Value) Value {
		r := in.rv(a[0])
		if r == nil || in.ti(r.t).kind != KPtr {
			return a[0]
		}
		return m["(reflect.Value).Elem"](in, a)
	}
	m["reflect.SliceOf"] = func(in *Interp, a []Value) Value {
		return in.rtype(types.NewSlice(ifaceType(a[0])))
	}
	m["reflect.PointerTo"] = func(in *Interp, a []Value) Value {
		return in.rtype(types.NewPointer(ifaceType(a[0])))
	}
	m["reflect.PtrTo"] = m["reflect.PointerTo"]
	m["reflect.ArrayOf"] = func(in *Interp, a []Value) Value {
		return in.rtype(types.NewArray(ifaceType(a[1]), int64(in.cint(a[0]))))
	}
	m["reflect.MapOf"] = func(in *Interp, a []Value) Value {
		return in.rtype(types.NewMap(ifaceType(a[0]), ifaceType(a[1])))
	}
	m["reflect.StructOf"] = func(in *Interp, a []Value) Value {
		s, _ := a[0].O.(*Slice)
		var fs []*types.Var
		var tags []string
		sf := in.ti(in.P.prog.ImportedPackage("reflect").Type("StructField").Type())
		if s != nil {
			for i := 0; i < s.len; i++ {
				f := in.load(Value{O: s.o, N: uint64(s.off + i*sf.leaves)}, sf)
				l := f.O.([]Value)
				nm, ok := goStr(l[sf.offs[0]])
				if !ok {
					in.unsupported("reflect.StructOf with symbolic field name")
				}
				if nm == "" || !(nm[0] >= 'A' && nm[0] <= 'Z') {
					in.goPanicStr("reflect.StructOf: field \"" + nm + "\" is unexported but missing PkgPath")
				}
				fs = append(fs, types.NewField(0, nil, nm, ifaceType(l[sf.offs[2]]), false))
				tg, _ := goStr(l[sf.offs[3]])
				tags = append(tags, tg)
			}
		}
		return in.rtype(types.NewStruct(fs, tags))
	}
	m["reflect.New"] = func(in *Interp, a []Value) Value {
		t := ifaceType(a[0])
		return mkRV(types.NewPointer(t), Value{O: in.newObj(in.ti(t))})
	}
	zero := func(in *Interp, t types.Type) Value {
		ti := in.ti(t)
		if ti.agg() {
			return Value{O: make([]Value, ti.leaves)}
		}
		return Value{}
	}
	m["reflect.Zero"] = func(in *Interp, a []Value) Value {
		t := ifaceType(a[0])
		return mkRV(t, zero(in, t))
	}
	m["reflect.MakeSlice"] = func(in *Interp, a []Value) Value {
		t := ifaceType(a[0])
		ti := in.ti(t)
		if ti.kind != KSlice {
			in.goPanicStr("reflect.MakeSlice of non-slice type")
		}
		l, c := in.cint(a[1]), in.cint(a[2])
		if l < 0 {
			in.goPanicStr("reflect.MakeSlice: negative len")
		}
		if c < l {
			in.goPanicStr("reflect.MakeSlice: len > cap")
		}
		if int64(c) > in.opt.MaxAlloc {
			in.tooBig(int64(c))
		}
		return mkRV(t, Value{O: &Slice{o: in.newArr(ti.elem, c), len: l, cap: c}})
	}
	m["reflect.MakeMap"] = func(in *Interp, a []Value) Value {
		t := ifaceType(a[0])
		return mkRV(t, Value{O: &Map{idx: map[any]int{}, kt: t.Underlying().(*types.Map).Key()}})
	}
	m["reflect.Append"] = func(in *Interp, a []Value) Value {
		r := in.rv(a[0])
		ti := in.ti(r.t)
		if ti.kind != KSlice {
			in.valueError("Append", r)
		}
		cur := in.rvGet(r)
		xs, _ := a[1].O.(*Slice)
		et := r.t.Underlying().(*types.Slice).Elem()
		if xs != nil {
			for i := 0; i < xs.len; i++ {
				x := in.rv(xs.o.get(xs.off + i))
				o := in.newArr(ti.elem, 1)
				in.store(Value{O: o}, ti.elem, in.assignTo(&RVal{t: et}, x))
				cur = in.appendSlice(ti.elem, cur, &Slice{o: o, len: 1, cap: 1})
			}
		}
		return mkRV(r.t, cur)
	}
	m["reflect.AppendSlice"] = func(in *Interp, a []Value) Value {
		r, x := in.rv(a[0]), in.rv(a[1])
		s, _ := in.rvGet(x).O.(*Slice)
		return mkRV(r.t, in.appendSlice(in.ti(r.t).elem, in.rvGet(r), s))
	}
	m["reflect.Copy"] = func(in *Interp, a []Value) Value {
		d, s := in.rv(a[0]), in.rv(a[1])
		n := min(in.rvLen(d), in.rvLen(s))
		for i := 0; i < n; i++ {
			x, y := in.rv(in.rvIndex(d, i)), in.rv(in.rvIndex(s, i))
			in.store(x.ptr, in.ti(x.t), in.rvGet(y))
		}
		return Value{N: uint64(n)}
	}
	m["reflect.DeepEqual"] = func(in *Interp, a []Value) Value { return in.deepEq(a[0], a[1]) }
	m["(reflect.Kind).String"] = func(in *Interp, a []Value) Value {
		return mkStr(kindNames[a[0].N])
	}
	V := func(name string, f func(in *Interp, r *RVal, a []Value) Value) {
		m["(reflect.Value)."+name] = func(in *Interp, a []Value) Value {
			r := in.rv(a[0])
			if r == nil {
				in.valueError(name, nil)
			}
			return f(in, r, a[1:])
		}
	}
	m["(reflect.Value).IsValid"] = func(in *Interp, a []Value) Value { return boolV(a[0].O != nil) }
	m["(reflect.Value).Kind"] = func(in *Interp, a []Value) Value {
		r := in.rv(a[0])
		if r == nil {
			return Value{}
		}
		return Value{N: rkind(r.t)}
	}
	m["(reflect.Value).String"] = func(in *Interp, a []Value) Value {
		r := in.rv(a[0])
		if r == nil {
			return mkStr("<invalid Value>")
		}
		if in.ti(r.t).kind == KString {
			return in.rvGet(r)
		}
		return mkStr("<" + rtypeString(r.t) + " Value>")
	}
	V("Type", func(in *Interp, r *RVal, a []Value) Value { return in.rtype(r.t) })
	V("Len", func(in *Interp, r *RVal, a []Value) Value { return Value{N: uint64(in.rvLen(r))} })
	V("Cap", func(in *Interp, r *RVal, a []Value) Value {
		if s, ok := in.rvGet(r).O.(*Slice); ok {
			return Value{N: uint64(s.cap)}
		}
		return Value{N: uint64(in.rvLen(r))}
	})
	V("Index", func(in *Interp, r *RVal, a []Value) Value { return in.rvIndex(r, in.cint(a[0])) })
	V("Interface", func(in *Interp, r *RVal, a []Value) Value {
		if r.ro {
			in.goPanicStr("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return in.rvIface(r)
	})
	V("CanInterface", func(in *Interp, r *RVal, a []Value) Value { return boolV(!r.ro) })
	V("Elem", func(in *Interp, r *RVal, a []Value) Value {
		v := in.rvGet(r)
		switch in.ti(r.t).kind {
		case KIface:
			i, _ := v.O.(*Iface)
			if i == nil {
				return Value{}
			}
			return mkRV(i.t, i.v)
		case KPtr:
			if v.O == nil {
				return Value{}
			}
			return Value{O: &RVal{t: r.t.Underlying().(*types.Pointer).Elem(), ptr: v, adr: true}}
		}
		in.valueError("Elem", r)
		return Value{}
	})
	V("IsNil", func(in *Interp, r *RVal, a []Value) Value {
		switch in.ti(r.t).kind {
		case KPtr, KSlice, KMap, KFunc, KIface, KChan, KUnsafe:
			return boolV(in.rvGet(r).O == nil)
		}
		in.valueError("IsNil", r)
		return Value{}
	})
	V("IsZero", func(in *Interp, r *RVal, a []Value) Value {
		ti := in.ti(r.t)
		if ti.kind == KSlice || ti.kind == KMap || ti.kind == KFunc {
			return boolV(in.rvGet(r).O == nil)
		}
		return in.eq(ti, in.rvGet(r), zero(in, r.t))
	})
	V("CanSet", func(in *Interp, r *RVal, a []Value) Value { return boolV(r.adr && !r.ro) })
	V("CanAddr", func(in *Interp, r *RVal, a []Value) Value { return boolV(r.adr) })
	V("Addr", func(in *Interp, r *RVal, a []Value) Value {
		if !r.adr {
			in.goPanicStr("reflect.Value.Addr of unaddressable value")
		}
		return mkRV(types.NewPointer(r.t), r.ptr)
	})
	V("NumField", func(in *Interp, r *RVal, a []Value) Value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			in.valueError("NumField", r)
		}
		return Value{N: uint64(st.NumFields())}
	})
	field := func(in *Interp, r *RVal, i int) Value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			in.valueError("Field", r)
		}
		if i < 0 || i >= st.NumFields() {
			in.goPanicStr("reflect: Field index out of range")
		}
		ti := in.ti(r.t)
		f := st.Field(i)
		ro := r.ro || !f.Exported()
		if r.adr {
			p := r.ptr
			p.N += uint64(ti.offs[i])
			return Value{O: &RVal{t: f.Type(), ptr: p, adr: true, ro: ro}}
		}
		return Value{O: &RVal{t: f.Type(), v: pack(aggOf(r.v, ti), ti.offs[i], ti.fields[i]), ro: ro}}
	}
	V("Field", func(in *Interp, r *RVal, a []Value) Value { return field(in, r, in.cint(a[0])) })
	V("FieldByName", func(in *Interp, r *RVal, a []Value) Value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			in.valueError("FieldByName", r)
		}
		n, _ := goStr(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return field(in, r, i)
			}
		}
		return Value{}
	})
	V("Set", func(in *Interp, r *RVal, a []Value) Value {
		x := in.rv(a[0])
		if !r.adr || r.ro {
			in.goPanicStr("reflect.Value.Set using unaddressable value")
		}
		if x == nil {
			in.valueError("Set", nil)
		}
		in.store(r.ptr, in.ti(r.t), in.assignTo(r, x))
		return Value{}
	})
	setScalar := func(name string, f func(in *Interp, r *RVal, v Value) Value) {
		V(name, func(in *Interp, r *RVal, a []Value) Value {
			if !r.adr || r.ro {
				in.goPanicStr("reflect.Value." + name + " using unaddressable value")
			}
			in.store(r.ptr, in.ti(r.t), f(in, r, a[0]))
			return Value{}
		})
	}
	setScalar("SetInt", func(in *Interp, r *RVal, v Value) Value {
		if k := rkind(r.t); k < 2 || k > 6 {
			in.valueError("SetInt", r)
		}
		return in.convert(in.ti(types.Typ[types.Int64]), in.ti(r.t), v)
	})
	setScalar("SetUint", func(in *Interp, r *RVal, v Value) Value {
		if k := rkind(r.t); k < 7 || k > 12 {
			in.valueError("SetUint", r)
		}
		return in.convert(in.ti(types.Typ[types.Uint64]), in.ti(r.t), v)
	})
	setScalar("SetFloat", func(in *Interp, r *RVal, v Value) Value {
		if k := rkind(r.t); k != 13 && k != 14 {
			in.valueError("SetFloat", r)
		}
		return in.convert(in.ti(types.Typ[types.Float64]), in.ti(r.t), v)
	})
	setScalar("SetString", func(in *Interp, r *RVal, v Value) Value {
		if rkind(r.t) != 24 {
			in.valueError("SetString", r)
		}
		return v
	})
	setScalar("SetBool", func(in *Interp, r *RVal, v Value) Value { return v })
	setScalar("SetBytes", func(in *Interp, r *RVal, v Value) Value { return v })
	V("SetLen", func(in *Interp, r *RVal, a []Value) Value {
		s, _ := in.rvGet(r).O.(*Slice)
		n := in.cint(a[0])
		if s == nil || n < 0 || n > s.cap {
			in.goPanicStr("reflect: slice length out of range in SetLen")
		}
		in.store(r.ptr, in.ti(r.t), Value{O: &Slice{o: s.o, off: s.off, len: n, cap: s.cap}})
		return Value{}
	})
	V("Int", func(in *Interp, r *RVal, a []Value) Value {
		if k := rkind(r.t); k < 2 || k > 6 {
			in.valueError("Int", r)
		}
		return in.convert(in.ti(r.t), in.ti(types.Typ[types.Int64]), in.rvGet(r))
	})
	V("Uint", func(in *Interp, r *RVal, a []Value) Value {
		if k := rkind(r.t); k < 7 || k > 12 {
			in.valueError("Uint", r)
		}
		return in.convert(in.ti(r.t), in.ti(types.Typ[types.Uint64]), in.rvGet(r))
	})
	V("Float", func(in *Interp, r *RVal, a []Value) Value {
		if k := rkind(r.t); k != 13 && k != 14 {
			in.valueError("Float", r)
		}
		return in.convert(in.ti(r.t), in.ti(types.Typ[types.Float64]), in.rvGet(r))
	})
	V("Bool", func(in *Interp, r *RVal, a []Value) Value { return in.rvGet(r) })
	V("Bytes", func(in *Interp, r *RVal, a []Value) Value { return in.rvGet(r) })
	V("CanInt", func(in *Interp, r *RVal, a []Value) Value { k := rkind(r.t); return boolV(k >= 2 && k <= 6) })
	V("CanUint", func(in *Interp, r *RVal, a []Value) Value { k := rkind(r.t); return boolV(k >= 7 && k <= 12) })
	V("CanFloat", func(in *Interp, r *RVal, a []Value) Value { k := rkind(r.t); return boolV(k == 13 || k == 14) })
	V("Slice", func(in *Interp, r *RVal, a []Value) Value {
		i, j := in.cint(a[0]), in.cint(a[1])
		v := in.rvGet(r)
		switch ti := in.ti(r.t); ti.kind {
		case KString:
			if i < 0 || j < i || j > strLen(v) {
				in.goPanicStr("reflect.Value.Slice: string slice index out of bounds")
			}
			return mkRV(r.t, strSlice(v, i, j))
		case KSlice:
			s, _ := v.O.(*Slice)
			c := 0
			if s != nil {
				c = s.cap
			}
			if i < 0 || j < i || j > c {
				in.goPanicStr("reflect.Value.Slice: slice index out of bounds")
			}
			if s == nil {
				return mkRV(r.t, v)
			}
			return mkRV(r.t, Value{O: &Slice{o: s.o, off: s.off + i*ti.elem.leaves, len: j - i, cap: c - i}})
		case KArray:
			if !r.adr {
				in.goPanicStr("reflect.Value.Slice: slice of unaddressable array")
			}
			if i < 0 || j < i || j > ti.n {
				in.goPanicStr("reflect.Value.Slice: slice index out of bounds")
			}
			return mkRV(types.NewSlice(r.t.Underlying().(*types.Array).Elem()), Value{O: &Slice{o: r.ptr.O.(*Obj), off: int(r.ptr.N) + i*ti.elem.leaves, len: j - i, cap: ti.n - i}})
		}
		in.valueError("Slice", r)
		return Value{}
	})
	V("Convert", func(in *Interp, r *RVal, a []Value) Value {
		t := ifaceType(a[0])
		if types.IsInterface(t) {
			return mkRV(t, in.rvIface(r))
		}
		return mkRV(t, in.convert(in.ti(r.t), in.ti(t), in.rvGet(r)))
	})
	V("MapKeys", func(in *Interp, r *RVal, a []Value) Value {
		mm, _ := in.rvGet(r).O.(*Map)
		kt := r.t.Underlying().(*types.Map).Key()
		it := in.mapIter(mm)
		rvT := in.ti(in.P.prog.ImportedPackage("reflect").Type("Value").Type())
		o := in.newArr(rvT, len(it.order))
		for i, k := range it.order {
			in.set(o, i, mkRV(kt, mm.ents[k].k))
		}
		return Value{O: &Slice{o: o, len: len(it.order), cap: len(it.order)}}
	})
	V("MapIndex", func(in *Interp, r *RVal, a []Value) Value {
		mm, _ := in.rvGet(r).O.(*Map)
		mt := r.t.Underlying().(*types.Map)
		i := in.mapFind(mm, in.ti(mt.Key()), in.rvGet(in.rv(a[0])))
		if i < 0 {
			return Value{}
		}
		return mkRV(mt.Elem(), mm.ents[i].v)
	})
	V("Pointer", func(in *Interp, r *RVal, a []Value) Value {
		v := in.rvGet(r)
		var id uint64
		switch x := v.O.(type) {
		case *Obj:
			id = uint64(x.id)<<20 + v.N + 0x1000
		case *Slice:
			id = uint64(x.o.id)<<20 + uint64(x.off) + 0x1000
		case nil:
			return Value{}
		default:
			id = 0x1000
		}
		return Value{N: id}
	})
	V("NumMethod", func(in *Interp, r *RVal, a []Value) Value {
		return Value{N: uint64(in.P.prog.MethodSets.MethodSet(r.t).Len())}
	})
}

// deepEq is reflect.DeepEqual as a (possibly symbolic) boolean, without forking on data.
func (in *Interp) deepEq(a, b Value) Value {
	x, _ := a.O.(*Iface)
	y, _ := b.O.(*Iface)
	if x == nil || y == nil {
		return boolV(x == nil && y == nil)
	}
	if _, ok := x.v.O.(types.Type); ok {
		return in.eqIface(x, y)
	}
	if !types.Identical(x.t, y.t) {
		return boolV(false)
	}
	return in.deepEqT(in.ti(x.t), x.v, y.v, 0, false)
}

// bitEq compares floats by bit pattern (NaN equals an identical NaN).
func (in *Interp) deepEqT(ti *tinfo, x, y Value, depth int, bits bool) Value {
	if depth > 50 {
		in.unsupported("deep equality recursion")
	}
	switch ti.kind {
	case KSlice:
		s, _ := x.O.(*Slice)
		t, _ := y.O.(*Slice)
		if bits {
			if s == nil {
				s = &Slice{o: &Obj{}}
			}
			if t == nil {
				t = &Slice{o: &Obj{}}
			}
		}
		if (s == nil) != (t == nil) {
			return boolV(false)
		}
		if s == nil {
			return boolV(true)
		}
		if s.len != t.len {
			return boolV(false)
		}
		e := ti.elem
		r := boolV(true)
		for i := 0; i < s.len; i++ {
			u := in.load(Value{O: s.o, N: uint64(s.off + i*e.leaves)}, e)
			v := in.load(Value{O: t.o, N: uint64(t.off + i*e.leaves)}, e)
			r = in.and(r, in.deepEqT(e, u, v, depth+1, bits))
			if r.T == nil && r.N == 0 {
				return r
			}
		}
		return r
	case KArray:
		a, b := aggOf(x, ti), aggOf(y, ti)
		r := boolV(true)
		for i := 0; i < ti.n; i++ {
			r = in.and(r, in.deepEqT(ti.elem, pack(a, i*ti.elem.leaves, ti.elem), pack(b, i*ti.elem.leaves, ti.elem), depth+1, bits))
		}
		return r
	case KStruct:
		a, b := aggOf(x, ti), aggOf(y, ti)
		r := boolV(true)
		for i, f := range ti.fields {
			r = in.and(r, in.deepEqT(f, pack(a, ti.offs[i], f), pack(b, ti.offs[i], f), depth+1, bits))
		}
		return r
	case KIface:
		u, _ := x.O.(*Iface)
		v, _ := y.O.(*Iface)
		if u == nil || v == nil {
			return boolV(u == nil && v == nil)
		}
		if !types.Identical(u.t, v.t) {
			return boolV(false)
		}
		return in.deepEqT(in.ti(u.t), u.v, v.v, depth+1, bits)
	case KPtr:
		if x.O == y.O && x.N == y.N {
			return boolV(true)
		}
		if x.O == nil || y.O == nil {
			return boolV(false)
		}
		e := in.ti(ti.u.(*types.Pointer).Elem())
		return in.deepEqT(e, in.load(x, e), in.load(y, e), depth+1, bits)
	case KMap:
		m, _ := x.O.(*Map)
		n, _ := y.O.(*Map)
		if (m == nil) != (n == nil) {
			return boolV(false)
		}
		if m == nil {
			return boolV(true)
		}
		if m.live != n.live {
			return boolV(false)
		}
		mt := ti.u.(*types.Map)
		kt, vt := in.ti(mt.Key()), in.ti(mt.Elem())
		r := boolV(true)
		for _, e := range m.ents {
			if !e.live {
				continue
			}
			j := in.mapFind(n, kt, e.k)
			if j < 0 {
				return boolV(false)
			}
			r = in.and(r, in.deepEqT(vt, e.v, n.ents[j].v, depth+1, bits))
		}
		return r
	case KFunc:
		return boolV(x.O == nil && y.O == nil)
	case KFloat:
		if bits {
			if x.T == nil && y.T == nil {
				return boolV(x.N == y.N)
			}
			return fromTerm(in.pool.RawEq(in.term(x, ti.w), in.term(y, ti.w)))
		}
	case KInt:
		if bits {
			if x.T == nil && y.T == nil {
				return boolV(x.N == y.N)
			}
			return fromTerm(in.pool.RawEq(in.term(x, ti.w), in.term(y, ti.w)))
		}
	case KString:
		if bits {
			if _, ok := goStr(x); ok {
				if _, ok := goStr(y); ok {
					return in.strEq(x, y)
				}
			}
			s, t := toSym(x), toSym(y)
			if len(s.b) != len(t.b) {
				return boolV(false)
			}
			r := in.pool.Bool(true)
			for i := range s.b {
				r = in.pool.And(r, in.pool.RawEq(symByte(in.pool, s, i), symByte(in.pool, t, i)))
			}
			return fromTerm(r)
		}
	}
	return in.eq(ti, x, y)
}

// ---- conversion to native values for formatting

func (in *Interp) native(v Value, t types.Type, depth int) any {
	ti := in.ti(t)
	if depth > 6 {
		return "..."
	}
	if depth > 0 || true {
		if !types.IsInterface(t) && ti.kind != KOpaque {
			if f := in.fmtMethod(t); f != nil && !(ti.kind == KPtr && v.O == nil) {
				r := in.call(in.cfunc(f), []Value{v}, nil, nil)
				return in.showStr(r)
			}
		}
	}
	switch ti.kind {
	case KBool:
		if v.T != nil {
			return "<sym>"
		}
		return v.N != 0
	case KInt:
		if v.T != nil {
			return "<sym>"
		}
		if ti.signed {
			return sext(v.N, ti.w)
		}
		return v.N
	case KFloat:
		if v.T != nil {
			return "<sym>"
		}
		if ti.w == 32 {
			return math.Float32frombits(uint32(v.N))
		}
		return math.Float64frombits(v.N)
	case KString:
		return in.showStr(v)
	case KIface:
		i, _ := v.O.(*Iface)
		if i == nil {
			return nil
		}
		if rt, ok := i.v.O.(types.Type); ok {
			return rtypeString(rt)
		}
		return in.native(i.v, i.t, depth+1)
	case KSlice:
		s, _ := v.O.(*Slice)
		if s == nil {
			return []any{}
		}
		if isByteKind(ti.elem) && s.o.t == nil && s.o.isB {
			return append([]byte(nil), s.o.b[s.off:s.off+s.len]...)
		}
		var r []any
		et := t.Underlying().(*types.Slice).Elem()
		for i := 0; i < s.len && i < 1000; i++ {
			r = append(r, in.native(in.load(Value{O: s.o, N: uint64(s.off + i*ti.elem.leaves)}, ti.elem), et, depth+1))
		}
		return r
	case KPtr:
		if v.O == nil {
			return nil
		}
		return "0xc000000000"
	case KStruct, KArray:
		return "{...}"
	}
	return fmt.Sprintf("<%s>", types.TypeString(t, nil))
}

func (in *Interp) fmtMethod(t types.Type) *ssa.Function {
	if f := in.methodByName(t, "Error"); f != nil && len(f.Params) == 1 {
		return f
	}
	if f := in.methodByName(t, "String"); f != nil && len(f.Params) == 1 {
		if fnPkg(f) == "reflect" || fnPkg(f) == "time" {
			return nil
		}
		return f
	}
	return nil
}
