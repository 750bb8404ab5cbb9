package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

const vhPkg = "github.com/batchatco/go-native-netcdf/vh"

func lookupIntrinsic(name string, fn *ssa.Function) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if f, ok := lookupHook(name, fn); ok {
		return f
	}
	if strings.HasPrefix(name, "(reflect.Value).") || name == "reflect.MakeFunc" {
		return func(in *Interp, a []Value) Value { in.unsupported("%s", name); return Value{} }
	}
	pk := fnPkg(fn)
	switch pk {
	case "log", "fmt", "os", "time", "syscall", "runtime", "runtime/debug", "internal/poll", "sync", "reflect", "internal/reflectlite":
		if fn.Name() == "init" {
			return func(in *Interp, a []Value) Value { return Value{} }
		}
		if pk == "runtime" && (strings.Contains(name, "rrorString)") || strings.Contains(name, "plainError)")) {
			return nil
		}
		if fn.Synthetic != "" && fn.Blocks == nil {
			return nil
		}
		return func(in *Interp, a []Value) Value { in.unsupported("library function %s", name); return Value{} }
	}
	return nil
}

type memFile struct {
	b       []byte
	t       []*Term
	damaged bool // holds an unknown part of what was written
}

type handle struct {
	f      *memFile
	name   string
	pos    int64
	closed bool
	full   bool // a write was cut short at a limit that is not a constant
	wr     bool
}

func (in *Interp) errNew(msg string) Value {
	pk := in.P.prog.ImportedPackage("errors")
	return in.call(in.cfunc(pk.Func("New")), []Value{mkStr(msg)}, nil, nil)
}

func (in *Interp) globalVal(pkg, name string) Value {
	pk := in.P.prog.ImportedPackage(pkg)
	g := pk.Var(name)
	return in.load(in.global(g), in.ti(g.Type().Underlying().(*types.Pointer).Elem()))
}

func tuple(vs ...Value) Value { return Value{O: vs} }

func (in *Interp) handleOf(v Value) *handle {
	o, _ := v.O.(*Obj)
	if o == nil {
		return nil
	}
	h, _ := o.v[0].O.(*handle)
	return h
}

func (in *Interp) input(name string, w uint8) Value {
	n := in.names[name]
	in.names[name]++
	full := fmt.Sprintf("%s#%d", name, n)
	t := in.pool.Var(fmt.Sprintf("%s:%d", full, w), w)
	in.inputs = append(in.inputs, inputRec{name: full, t: t, w: w})
	return Value{T: t}
}

func (in *Interp) inputConst(name string, v uint64) {
	n := in.names[name]
	in.names[name]++
	in.inputs = append(in.inputs, inputRec{name: fmt.Sprintf("%s#%d", name, n), v: v})
}

func (in *Interp) mustStr(v Value) string {
	s, ok := goStr(v)
	if !ok {
		in.unsupported("symbolic string where a concrete one is needed")
	}
	return s
}

func (in *Interp) vslice(v Value) []Value {
	s, _ := v.O.(*Slice)
	if s == nil {
		return nil
	}
	r := make([]Value, s.len)
	for i := range r {
		r[i] = s.o.get(s.off + i)
	}
	return r
}

// sprintf renders a format, keeping symbolic bytes of strings.
func (in *Interp) sprintf(format string, args []Value) Value {
	out := mkStr("")
	ai := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = strConcat(out, mkStr(format[i:]))
			break
		}
		out = strConcat(out, mkStr(format[i:i+j]))
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			break
		}
		verb := format[i : k+1]
		c := format[k]
		i = k + 1
		if c == '%' {
			out = strConcat(out, mkStr("%"))
			continue
		}
		if ai >= len(args) {
			out = strConcat(out, mkStr("%!"+string(c)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		out = strConcat(out, in.fmtArg(verb, c, a))
	}
	return out
}

func (in *Interp) fmtArg(verb string, c byte, a Value) Value {
	i, _ := a.O.(*Iface)
	if c == 'T' {
		if i == nil {
			return mkStr("<nil>")
		}
		return mkStr(rtypeString(i.t))
	}
	if i == nil {
		return mkStr(fmt.Sprintf(verb, nil))
	}
	if rt, ok := i.v.O.(types.Type); ok {
		return mkStr(rtypeString(rt))
	}
	if in.ti(i.t).kind == KString && (verb == "%s" || verb == "%v") && in.fmtMethod(i.t) == nil {
		return i.v
	}
	if f := in.fmtMethod(i.t); f != nil && (verb == "%s" || verb == "%v" || verb == "%w") && i.v.O != nil {
		return in.call(in.cfunc(f), []Value{i.v}, nil, nil)
	}
	n := in.native(i.v, i.t, 0)
	if c == 'w' {
		verb = "%v"
	}
	if c == 'c' || c == 'x' || c == 'd' || c == 'X' {
		if s, ok := n.(string); ok && in.ti(i.t).kind == KInt {
			return mkStr(s)
		}
	}
	return mkStr(fmt.Sprintf(verb, n))
}

func (in *Interp) sprint(args []Value, ln bool) Value {
	out := mkStr("")
	prevStr := true
	for k, a := range args {
		i, _ := a.O.(*Iface)
		isStr := i != nil && in.ti(i.t).kind == KString
		if ln && k > 0 || !ln && k > 0 && !isStr && !prevStr {
			out = strConcat(out, mkStr(" "))
		}
		out = strConcat(out, in.fmtArg("%v", 'v', a))
		prevStr = isStr
	}
	if ln {
		out = strConcat(out, mkStr("\n"))
	}
	return out
}

func (in *Interp) fileWrite(h *handle, s *Slice, at int64, limit int64) int {
	if s == nil {
		return 0
	}
	n := 0
	for i := 0; i < s.len; i++ {
		pos := at + int64(i)
		if limit >= 0 && pos >= limit {
			break
		}
		for int64(len(h.f.b)) <= pos {
			h.f.b = append(h.f.b, 0)
			h.f.t = append(h.f.t, nil)
		}
		v := s.o.get(s.off + i)
		h.f.b[pos], h.f.t[pos] = byte(v.N), v.T
		n++
	}
	return n
}

func (in *Interp) fileRead(h *handle, s *Slice, at int64) int {
	n := 0
	if s == nil {
		return 0
	}
	for i := 0; i < s.len && at+int64(i) < int64(len(h.f.b)); i++ {
		p := at + int64(i)
		v := Value{N: uint64(h.f.b[p])}
		if h.f.t[p] != nil {
			v = Value{T: h.f.t[p]}
		}
		in.set(s.o, s.off+i, v)
		n++
	}
	return n
}

func (in *Interp) memSlice(f *memFile) Value {
	n := len(f.b)
	o := in.newArr(in.tByte, n)
	copy(o.b, f.b)
	for i, t := range f.t {
		if t != nil {
			if o.t == nil {
				o.t = make([]*Term, n)
			}
			o.t[i] = t
		}
	}
	return Value{O: &Slice{o: o, len: n, cap: n}}
}

const fsLimitName = "\x00limit"

func (in *Interp) fsLimit() int64 {
	if f, ok := in.fs[fsLimitName]; ok && f.t == nil {
		n, _ := strconv.ParseInt(string(f.b), 10, 64)
		return n
	}
	return -1
}

func (in *Interp) newFile(h *handle) Value {
	ft := in.ti(in.P.prog.ImportedPackage("os").Type("File").Type())
	o := in.newObj(ft)
	o.v[0] = Value{O: h}
	return Value{O: o}
}

func (in *Interp) openFile(name string, flag int) Value {
	f, ok := in.fs[name]
	const (
		wronly, rdwr, create, excl, trunc = 1, 2, 0x40, 0x80, 0x200
	)
	if !ok {
		if flag&create == 0 {
			return tuple(Value{}, in.errNew("open "+name+": no such file or directory"))
		}
		f = &memFile{}
		in.fs[name] = f
	} else if flag&excl != 0 && flag&create != 0 {
		return tuple(Value{}, in.errNew("open "+name+": file exists"))
	}
	if flag&trunc != 0 {
		f.b, f.t = nil, nil
	}
	if f.damaged {
		in.unsupported("opening a file that is full")
	}
	in.openFiles++
	return tuple(in.newFile(&handle{f: f, name: name, wr: flag&(wronly|rdwr) != 0}), Value{})
}

func noop(in *Interp, a []Value) Value { return Value{} }

func init() {
	m := intrinsics
	reflectIntrinsics(m)

	// ---- verification harness interface
	for _, x := range []struct {
		n string
		w uint8
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"I8", 8}, {"I16", 16}, {"I32", 32}, {"I64", 64}, {"Int", 64}, {"F32", 32}, {"F64", 64}} {
		w := x.w
		m[vhPkg+"."+x.n] = func(in *Interp, a []Value) Value { return in.input(in.mustStr(a[0]), w) }
	}
	m[vhPkg+".Bool"] = func(in *Interp, a []Value) Value {
		v := in.input(in.mustStr(a[0]), 8)
		return fromTerm(in.pool.Eq(in.pool.Bin(OpBAnd, v.T, in.pool.Const(8, 1)), in.pool.Const(8, 1)))
	}
	m[vhPkg+".Bytes"] = func(in *Interp, a []Value) Value {
		n := in.cint(a[1])
		o := in.newArr(in.tByte, n)
		o.t = make([]*Term, n)
		nm := in.mustStr(a[0])
		for i := 0; i < n; i++ {
			o.t[i] = in.input(nm, 8).T
		}
		return Value{O: &Slice{o: o, len: n, cap: n}}
	}
	m[vhPkg+".Str"] = func(in *Interp, a []Value) Value {
		n := in.cint(a[1])
		nm := in.mustStr(a[0])
		s := &SymStr{b: make([]byte, n), t: make([]*Term, n)}
		for i := 0; i < n; i++ {
			s.t[i] = in.input(nm, 8).T
		}
		return normStr(s)
	}
	m[vhPkg+".Choose"] = func(in *Interp, a []Value) Value {
		n := in.cint(a[1])
		k := in.choose(n)
		in.inputConst(in.mustStr(a[0]), uint64(k))
		return Value{N: uint64(k)}
	}
	m[vhPkg+".Concrete"] = func(in *Interp, a []Value) Value {
		return Value{N: in.conc(a[0], 64, "explicit concretisation")}
	}
	m[vhPkg+".Assume"] = func(in *Interp, a []Value) Value { in.assume(a[0]); return Value{} }
	m[vhPkg+".Assert"] = func(in *Interp, a []Value) Value {
		in.assert(a[0], in.mustStr(a[1]), in.sticky)
		return Value{}
	}
	m[vhPkg+".Known"] = func(in *Interp, a []Value) Value {
		in.sticky = in.mustStr(a[0])
		return Value{}
	}
	m[vhPkg+".Fail"] = func(in *Interp, a []Value) Value {
		in.assert(boolV(false), in.showStr(a[0]), in.sticky)
		return Value{}
	}
	m[vhPkg+".Robust"] = func(in *Interp, a []Value) Value {
		in.robust, in.symAlloc = int64(a[0].N), int64(a[1].N)
		return Value{}
	}
	m[vhPkg+".Parallel"] = func(in *Interp, a []Value) Value {
		in.parallel(a[0], a[1])
		return Value{}
	}
	m[vhPkg+".Reach"] = func(in *Interp, a []Value) Value {
		// reachability witness: the path condition up to here must have a model
		if in.pos >= len(in.prefix) {
			in.getModel()
			in.st.Reached[in.mustStr(a[0])]++
		}
		return Value{}
	}
	m[vhPkg+".Eq"] = func(in *Interp, a []Value) Value {
		x, _ := a[0].O.(*Iface)
		y, _ := a[1].O.(*Iface)
		if x == nil || y == nil {
			return boolV(x == nil && y == nil)
		}
		if !types.Identical(x.t, y.t) {
			return boolV(false)
		}
		return in.deepEqT(in.ti(x.t), x.v, y.v, 0, true)
	}
	m[vhPkg+".And"] = func(in *Interp, a []Value) Value {
		r := boolV(true)
		for _, v := range in.vslice(a[0]) {
			r = in.and(r, v)
		}
		return r
	}
	m[vhPkg+".Or"] = func(in *Interp, a []Value) Value {
		r := boolV(true)
		for _, v := range in.vslice(a[0]) {
			r = in.and(r, in.not(v))
		}
		return in.not(r)
	}
	m[vhPkg+".If64"] = func(in *Interp, a []Value) Value {
		if a[0].T == nil {
			if a[0].N != 0 {
				return a[1]
			}
			return a[2]
		}
		return fromTerm(in.pool.Ite(a[0].T, in.term(a[1], 64), in.term(a[2], 64)))
	}
	m[vhPkg+".Thorough"] = func(in *Interp, a []Value) Value { return boolV(in.opt.Tier == "thorough") }
	m[vhPkg+".Symbolic"] = func(in *Interp, a []Value) Value { return boolV(true) }
	m[vhPkg+".MapOrder"] = func(in *Interp, a []Value) Value {
		in.mapMode = in.cint(a[0])
		return Value{}
	}
	m[vhPkg+".TempFile"] = func(in *Interp, a []Value) Value {
		in.tmpN++
		return mkStr(fmt.Sprintf("/tmp/vh/%d-%s", in.tmpN, in.mustStr(a[0])))
	}
	m[vhPkg+".LimitFileSize"] = func(in *Interp, a []Value) Value {
		if a[0].T != nil {
			in.fs[fsLimitName] = &memFile{t: []*Term{a[0].T}}
			return Value{}
		}
		in.fs[fsLimitName] = &memFile{b: []byte(strconv.Itoa(in.cint(a[0])))}
		return Value{}
	}
	m[vhPkg+".OpenFiles"] = func(in *Interp, a []Value) Value { return Value{N: uint64(in.openFiles)} }
	m[vhPkg+".Note"] = func(in *Interp, a []Value) Value {
		in.lines = append(in.lines, in.showStr(a[0]))
		return Value{}
	}
	m[vhPkg+".Template"] = func(in *Interp, a []Value) Value {
		b, err := readTemplate(in.mustStr(a[0]))
		if err != nil {
			in.unsupported("template: %v", err)
		}
		o := in.newArr(in.tByte, len(b))
		copy(o.b, b)
		return Value{O: &Slice{o: o, len: len(b), cap: len(b)}}
	}

	// ---- os
	m["os.Exit"] = func(in *Interp, a []Value) Value {
		panic(exitPanic{int(int64(a[0].N))})
	}
	m["os.Create"] = func(in *Interp, a []Value) Value { return in.openFile(in.mustStr(a[0]), 2|0x40|0x200) }
	m["os.Open"] = func(in *Interp, a []Value) Value { return in.openFile(in.mustStr(a[0]), 0) }
	m["os.OpenFile"] = func(in *Interp, a []Value) Value { return in.openFile(in.mustStr(a[0]), in.cint(a[1])) }
	m["os.ReadFile"] = func(in *Interp, a []Value) Value {
		nm := in.mustStr(a[0])
		f, ok := in.fs[nm]
		if !ok {
			return tuple(Value{}, in.errNew("open "+nm+": no such file or directory"))
		}
		return tuple(in.memSlice(f), Value{})
	}
	m["os.WriteFile"] = func(in *Interp, a []Value) Value {
		f := &memFile{}
		in.fs[in.mustStr(a[0])] = f
		s, _ := a[1].O.(*Slice)
		in.fileWrite(&handle{f: f}, s, 0, -1)
		return Value{}
	}
	m["os.Remove"] = func(in *Interp, a []Value) Value {
		nm := in.mustStr(a[0])
		if _, ok := in.fs[nm]; !ok {
			return in.errNew("remove " + nm + ": no such file or directory")
		}
		delete(in.fs, nm)
		return Value{}
	}
	m["os.Getenv"] = func(in *Interp, a []Value) Value { return mkStr("") }
	file := func(name string, f func(in *Interp, h *handle, a []Value) Value, bad func(in *Interp, e Value) Value) {
		m["(*os.File)."+name] = func(in *Interp, a []Value) Value {
			if a[0].O == nil {
				return bad(in, in.errNew("invalid argument"))
			}
			h := in.handleOf(a[0])
			if h == nil {
				in.unsupported("os.File without handle")
			}
			if h.closed {
				return bad(in, in.errNew(strings.ToLower(name)+" "+h.name+": file already closed"))
			}
			return f(in, h, a[1:])
		}
	}
	ret2 := func(in *Interp, e Value) Value { return tuple(Value{}, e) }
	ret1 := func(in *Interp, e Value) Value { return e }
	// wr gives the number of bytes written, which is symbolic when the write is
	// cut short at a symbolic limit.
	wr := func(in *Interp, h *handle, s *Slice, at int64) (Value, int, Value) {
		l := 0
		if s != nil {
			l = s.len
		}
		tooLarge := func() Value { return in.errNew("write " + h.name + ": file too large") }
		if f, ok := in.fs[fsLimitName]; ok && f.t != nil && l > 0 {
			p := in.pool
			if h.full || in.truth(fromTerm(p.ULe(f.t[0], p.Const(64, uint64(at))))) {
				return Value{}, 0, tooLarge()
			}
			if !in.truth(fromTerm(p.ULe(p.Const(64, uint64(at)+uint64(l)), f.t[0]))) {
				h.full, h.f.damaged = true, true
				return fromTerm(p.Bin(OpSub, f.t[0], p.Const(64, uint64(at)))), 0, tooLarge()
			}
		}
		n := in.fileWrite(h, s, at, in.fsLimit())
		if n < l {
			return Value{N: uint64(n)}, n, tooLarge()
		}
		return Value{N: uint64(n)}, n, Value{}
	}
	file("Write", func(in *Interp, h *handle, a []Value) Value {
		s, _ := a[0].O.(*Slice)
		if !h.wr {
			return tuple(Value{}, in.errNew("write "+h.name+": bad file descriptor"))
		}
		v, n, e := wr(in, h, s, h.pos)
		h.pos += int64(n)
		return tuple(v, e)
	}, ret2)
	file("WriteString", func(in *Interp, h *handle, a []Value) Value {
		v, n, e := wr(in, h, in.strToSlice(a[0]), h.pos)
		h.pos += int64(n)
		return tuple(v, e)
	}, ret2)
	file("WriteAt", func(in *Interp, h *handle, a []Value) Value {
		s, _ := a[0].O.(*Slice)
		v, _, e := wr(in, h, s, int64(in.cint(a[1])))
		return tuple(v, e)
	}, ret2)
	file("Read", func(in *Interp, h *handle, a []Value) Value {
		s, _ := a[0].O.(*Slice)
		n := in.fileRead(h, s, h.pos)
		h.pos += int64(n)
		if n == 0 && s != nil && s.len > 0 {
			return tuple(Value{}, in.globalVal("io", "EOF"))
		}
		return tuple(Value{N: uint64(n)}, Value{})
	}, ret2)
	file("ReadAt", func(in *Interp, h *handle, a []Value) Value {
		s, _ := a[0].O.(*Slice)
		off := int64(in.cint(a[1]))
		if off < 0 {
			return tuple(Value{}, in.errNew("readat: negative offset"))
		}
		n := in.fileRead(h, s, off)
		if s != nil && n < s.len {
			return tuple(Value{N: uint64(n)}, in.globalVal("io", "EOF"))
		}
		return tuple(Value{N: uint64(n)}, Value{})
	}, ret2)
	file("Seek", func(in *Interp, h *handle, a []Value) Value {
		if h.full {
			in.unsupported("seek in a file that is full")
		}
		off := int64(in.conc(a[0], 64, "seek offset"))
		switch in.cint(a[1]) {
		case 1:
			off += h.pos
		case 2:
			off += int64(len(h.f.b))
		}
		if off < 0 {
			return tuple(Value{}, in.errNew("seek "+h.name+": invalid argument"))
		}
		h.pos = off
		return tuple(Value{N: uint64(off)}, Value{})
	}, ret2)
	file("Close", func(in *Interp, h *handle, a []Value) Value {
		h.closed = true
		in.openFiles--
		return Value{}
	}, ret1)
	file("Sync", func(in *Interp, h *handle, a []Value) Value { return Value{} }, ret1)
	file("Truncate", func(in *Interp, h *handle, a []Value) Value {
		n := in.cint(a[0])
		for len(h.f.b) < n {
			h.f.b, h.f.t = append(h.f.b, 0), append(h.f.t, nil)
		}
		h.f.b, h.f.t = h.f.b[:n], h.f.t[:n]
		return Value{}
	}, ret1)
	m["(*os.File).Name"] = func(in *Interp, a []Value) Value { return mkStr(in.handleOf(a[0]).name) }

	// ---- fmt, log: text only
	m["fmt.Sprintf"] = func(in *Interp, a []Value) Value { return in.sprintf(in.showStr(a[0]), in.vslice(a[1])) }
	m["fmt.Sprint"] = func(in *Interp, a []Value) Value { return in.sprint(in.vslice(a[0]), false) }
	m["fmt.Sprintln"] = func(in *Interp, a []Value) Value { return in.sprint(in.vslice(a[0]), true) }
	m["fmt.Errorf"] = func(in *Interp, a []Value) Value {
		args := in.vslice(a[1])
		msg := in.sprintf(in.showStr(a[0]), args)
		f := in.showStr(a[0])
		if strings.Contains(f, "%w") {
			// keep the wrapped error reachable
			k := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				if f[i] == '%' {
					continue
				}
				if f[i] == 'w' && k < len(args) {
					we := in.P.prog.ImportedPackage("fmt").Type("wrapError").Type()
					o := in.newObj(in.ti(we))
					o.v[0], o.v[1] = msg, args[k]
					return Value{O: &Iface{t: types.NewPointer(we), v: Value{O: o}}}
				}
				k++
			}
		}
		return in.errNewV(msg)
	}
	m["(*fmt.wrapError).Error"] = func(in *Interp, a []Value) Value { return a[0].O.(*Obj).v[0] }
	m["(*fmt.wrapError).Unwrap"] = func(in *Interp, a []Value) Value { return a[0].O.(*Obj).v[1] }
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		m[n] = func(in *Interp, a []Value) Value { return tuple(Value{}, Value{}) }
	}
	for _, n := range []string{"log.Print", "log.Printf", "log.Println", "(*log.Logger).Print", "(*log.Logger).Printf", "(*log.Logger).Println", "(*log.Logger).SetFlags", "(*log.Logger).SetOutput", "(*log.Logger).SetPrefix"} {
		m[n] = noop
	}
	m["(*log.Logger).Output"] = noop
	m["log.New"] = func(in *Interp, a []Value) Value {
		return Value{O: in.newObj(in.ti(in.P.prog.ImportedPackage("log").Type("Logger").Type()))}
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln"} {
		m[n] = func(in *Interp, a []Value) Value { panic(exitPanic{1}) }
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln", "(*log.Logger).Panic"} {
		m[n] = func(in *Interp, a []Value) Value { in.goPanicStr("log.Panic"); return Value{} }
	}
	m["runtime/debug.Stack"] = func(in *Interp, a []Value) Value { return Value{O: in.strToSlice(mkStr("stack"))} }
	m["runtime/debug.PrintStack"] = noop
	m["runtime.Caller"] = func(in *Interp, a []Value) Value { return tuple(Value{}, mkStr("f"), Value{}, boolV(false)) }
	m["runtime.GC"] = noop
	m["runtime.Gosched"] = noop
	m["runtime.KeepAlive"] = noop
	m["runtime.SetFinalizer"] = noop
	m["runtime.Callers"] = func(in *Interp, a []Value) Value { return Value{} }

	// ---- errors
	m["errors.Is"] = func(in *Interp, a []Value) Value {
		return boolV(in.errorsIs(a[0], a[1], 0))
	}

	// ---- sync
	m["(*sync.Mutex).Lock"] = func(in *Interp, a []Value) Value {
		o, ok := a[0].O.(*Obj)
		if !ok {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		if o.get(int(a[0].N)).N != 0 {
			in.goPanicStr("fatal error: all goroutines are asleep - deadlock!")
		}
		in.synchronized(func() { in.set(o, int(a[0].N), Value{N: 1}) })
		in.lock(loc{o, int(a[0].N)}, 1)
		return Value{}
	}
	m["(*sync.Mutex).Unlock"] = func(in *Interp, a []Value) Value {
		o, ok := a[0].O.(*Obj)
		if !ok {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		if o.get(int(a[0].N)).N == 0 {
			in.goPanicStr("fatal error: sync: unlock of unlocked mutex")
		}
		in.synchronized(func() { in.set(o, int(a[0].N), Value{}) })
		in.lock(loc{o, int(a[0].N)}, -1)
		return Value{}
	}
	m["(*sync.Mutex).TryLock"] = func(in *Interp, a []Value) Value {
		o := a[0].O.(*Obj)
		if o.get(int(a[0].N)).N != 0 {
			return boolV(false)
		}
		in.synchronized(func() { in.set(o, int(a[0].N), Value{N: 1}) })
		in.lock(loc{o, int(a[0].N)}, 1)
		return boolV(true)
	}
	for n, d := range map[string]int{"Lock": 1, "Unlock": -1, "RLock": 1, "RUnlock": -1} {
		m["(*sync.RWMutex)."+n] = func(in *Interp, a []Value) Value {
			if o, ok := a[0].O.(*Obj); ok {
				in.lock(loc{o, int(a[0].N)}, d)
			}
			return Value{}
		}
	}
	m["(*sync.Once).Do"] = func(in *Interp, a []Value) Value {
		o := a[0].O.(*Obj)
		if o.get(int(a[0].N)).N != 0 {
			in.onceDone(loc{o, int(a[0].N)})
			return Value{}
		}
		in.synchronized(func() { in.set(o, int(a[0].N), Value{N: 1}) })
		in.lock(loc{o, int(a[0].N)}, 1)
		in.callValue(a[1], nil, nil)
		in.lock(loc{o, int(a[0].N)}, -1)
		in.onceDone(loc{o, int(a[0].N)})
		return Value{}
	}
	m["sync.OnceValue"] = func(in *Interp, a []Value) Value {
		f := a[0]
		return Value{O: &Closure{nat: func(in *Interp, _ []Value) Value { return in.callValue(f, nil, nil) }}}
	}
	syncMap := func(in *Interp, a Value) (*Map, *tinfo) {
		l := loc{a.O.(*Obj), int(a.N)}
		if in.syncMaps[l] == nil {
			in.syncMaps[l] = &Map{idx: map[any]int{}}
		}
		return in.syncMaps[l], in.ti(types.NewInterfaceType(nil, nil))
	}
	atomically := func(f intrinsic) intrinsic {
		return func(in *Interp, a []Value) (r Value) {
			in.synchronized(func() { r = f(in, a) })
			return r
		}
	}
	m["(*sync.Map).Load"] = atomically(func(in *Interp, a []Value) Value {
		sm, kt := syncMap(in, a[0])
		if i := in.mapFind(sm, kt, a[1]); i >= 0 {
			return tuple(sm.ents[i].v, boolV(true))
		}
		return tuple(Value{}, boolV(false))
	})
	m["(*sync.Map).Store"] = atomically(func(in *Interp, a []Value) Value {
		sm, kt := syncMap(in, a[0])
		in.mapSet(sm, kt, a[1], a[2])
		return Value{}
	})
	m["(*sync.Map).LoadOrStore"] = atomically(func(in *Interp, a []Value) Value {
		sm, kt := syncMap(in, a[0])
		if i := in.mapFind(sm, kt, a[1]); i >= 0 {
			return tuple(sm.ents[i].v, boolV(true))
		}
		in.mapSet(sm, kt, a[1], a[2])
		return tuple(a[2], boolV(false))
	})
	m["(*sync.Map).LoadAndDelete"] = atomically(func(in *Interp, a []Value) Value {
		sm, kt := syncMap(in, a[0])
		if i := in.mapFind(sm, kt, a[1]); i >= 0 {
			v := sm.ents[i].v
			in.mapDelete(sm, kt, a[1])
			return tuple(v, boolV(true))
		}
		return tuple(Value{}, boolV(false))
	})
	m["(*sync.Map).Delete"] = atomically(func(in *Interp, a []Value) Value {
		sm, kt := syncMap(in, a[0])
		in.mapDelete(sm, kt, a[1])
		return Value{}
	})
	m["(*sync.Map).Range"] = func(in *Interp, a []Value) Value {
		sm, _ := syncMap(in, a[0])
		for _, e := range append([]ment(nil), sm.ents...) {
			if e.live && !in.truth(in.callValue(a[1], []Value{e.k, e.v}, nil)) {
				break
			}
		}
		return Value{}
	}
	// What was put last is what is got next, as happens when there's one goroutine.
	pool := func(in *Interp, a Value) loc {
		l := loc{a.O.(*Obj), int(a.N) << 2}
		if in.par != nil {
			l.i += int(in.par.who)
		}
		return l
	}
	m["(*sync.Pool).Put"] = func(in *Interp, a []Value) Value {
		l := pool(in, a[0])
		if a[1].O != nil {
			in.pools[l] = append(in.pools[l], a[1])
		}
		return Value{}
	}
	m["(*sync.Pool).Get"] = func(in *Interp, a []Value) Value {
		l := pool(in, a[0])
		if q := in.pools[l]; len(q) > 0 {
			in.pools[l] = q[:len(q)-1]
			return q[len(q)-1]
		}
		pt := in.ti(in.P.prog.ImportedPackage("sync").Type("Pool").Type())
		o := a[0].O.(*Obj)
		st := pt.u.(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := o.get(int(a[0].N) + pt.offs[i])
				if f.O == nil {
					return Value{}
				}
				return in.callValue(f, nil, nil)
			}
		}
		return Value{}
	}
	atom := func(sz string, w uint8) {
		m["sync/atomic.Load"+sz] = func(in *Interp, a []Value) Value { return a[0].O.(*Obj).get(int(a[0].N)) }
		m["sync/atomic.Store"+sz] = atomically(func(in *Interp, a []Value) Value {
			in.set(a[0].O.(*Obj), int(a[0].N), a[1])
			return Value{}
		})
		m["sync/atomic.Add"+sz] = atomically(func(in *Interp, a []Value) Value {
			o := a[0].O.(*Obj)
			v := Value{N: (o.get(int(a[0].N)).N + a[1].N) & mask(w)}
			in.set(o, int(a[0].N), v)
			return v
		})
		m["sync/atomic.Swap"+sz] = atomically(func(in *Interp, a []Value) Value {
			o := a[0].O.(*Obj)
			v := o.get(int(a[0].N))
			in.set(o, int(a[0].N), a[1])
			return v
		})
		m["sync/atomic.CompareAndSwap"+sz] = atomically(func(in *Interp, a []Value) Value {
			o := a[0].O.(*Obj)
			if o.get(int(a[0].N)).N != a[1].N {
				return boolV(false)
			}
			in.set(o, int(a[0].N), a[2])
			return boolV(true)
		})
	}
	atom("Int32", 32)
	atom("Uint32", 32)
	atom("Int64", 64)
	atom("Uint64", 64)
	atom("Uintptr", 64)

	// ---- math, bits, unsafe
	id := func(in *Interp, a []Value) Value { return a[0] }
	m["math.Float32bits"] = id
	m["math.Float32frombits"] = id
	m["math.Float64bits"] = id
	m["math.Float64frombits"] = id
	f1 := func(f func(float64) float64) intrinsic {
		return func(in *Interp, a []Value) Value {
			return Value{N: math.Float64bits(f(math.Float64frombits(in.conc(a[0], 64, "float"))))}
		}
	}
	m["math.Floor"], m["math.Ceil"], m["math.Sqrt"], m["math.Log"] = f1(math.Floor), f1(math.Ceil), f1(math.Sqrt), f1(math.Log)
	m["math.Log2"], m["math.Log10"], m["math.Trunc"], m["math.Abs"] = f1(math.Log2), f1(math.Log10), f1(math.Trunc), f1(math.Abs)
	m["math.Pow"] = func(in *Interp, a []Value) Value {
		return Value{N: math.Float64bits(math.Pow(math.Float64frombits(in.conc(a[0], 64, "float")), math.Float64frombits(in.conc(a[1], 64, "float"))))}
	}
	bit1 := func(f func(uint64) int, w uint8) intrinsic {
		return func(in *Interp, a []Value) Value {
			return Value{N: uint64(f(in.conc(a[0], w, "bits argument")))}
		}
	}
	m["math/bits.TrailingZeros64"] = bit1(bits.TrailingZeros64, 64)
	m["math/bits.Len64"] = bit1(bits.Len64, 64)
	m["math/bits.Len"] = bit1(bits.Len64, 64)
	m["math/bits.Len32"] = bit1(bits.Len64, 32)
	m["math/bits.OnesCount64"] = bit1(bits.OnesCount64, 64)
	m["internal/abi.NoEscape"] = id
	m["internal/abi.Escape"] = id
	m["strings.noescape"] = id

	// ---- bytealg and friends
	m["internal/bytealg.IndexByte"] = func(in *Interp, a []Value) Value {
		return in.indexByte(in.sliceStr(a[0]), a[1])
	}
	m["internal/bytealg.IndexByteString"] = func(in *Interp, a []Value) Value { return in.indexByte(a[0], a[1]) }
	m["internal/bytealg.LastIndexByteString"] = func(in *Interp, a []Value) Value {
		for i := strLen(a[0]) - 1; i >= 0; i-- {
			if in.truth(in.eqScalar(in.tByte, strAt(a[0], i), a[1])) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	m["internal/bytealg.CountString"] = func(in *Interp, a []Value) Value {
		n := 0
		for i := 0; i < strLen(a[0]); i++ {
			if in.truth(in.eqScalar(in.tByte, strAt(a[0], i), a[1])) {
				n++
			}
		}
		return Value{N: uint64(n)}
	}
	m["internal/bytealg.Count"] = func(in *Interp, a []Value) Value {
		return m["internal/bytealg.CountString"](in, []Value{in.sliceStr(a[0]), a[1]})
	}
	m["internal/bytealg.MakeNoZero"] = func(in *Interp, a []Value) Value {
		n := in.cint(a[0])
		if int64(n) > in.opt.MaxAlloc {
			in.tooBig(int64(n))
		}
		return Value{O: &Slice{o: in.newArr(in.tByte, n), len: n, cap: n}}
	}
	m["internal/bytealg.Compare"] = func(in *Interp, a []Value) Value {
		return in.strCmp(in.sliceStr(a[0]), in.sliceStr(a[1]))
	}
	m["internal/bytealg.CompareString"] = func(in *Interp, a []Value) Value { return in.strCmp(a[0], a[1]) }
	m["bytes.Compare"] = m["internal/bytealg.Compare"]
	m["strings.Compare"] = m["internal/bytealg.CompareString"]
	m["bytes.Equal"] = func(in *Interp, a []Value) Value { return in.strEq(in.sliceStr(a[0]), in.sliceStr(a[1])) }
	m["internal/bytealg.Equal"] = m["bytes.Equal"]
	m["strings.Index"] = func(in *Interp, a []Value) Value { return in.strIndex(a[0], a[1]) }
	m["bytes.Index"] = func(in *Interp, a []Value) Value { return in.strIndex(in.sliceStr(a[0]), in.sliceStr(a[1])) }
	m["bytes.IndexByte"] = m["internal/bytealg.IndexByte"]
	m["strings.IndexByte"] = m["internal/bytealg.IndexByteString"]

	// ---- regexp (compiled natively; symbolic subjects run through regexsym.go)
	m["regexp.Compile"] = func(in *Interp, a []Value) Value {
		s := in.mustStr(a[0])
		re, err := regexp.Compile(s)
		if err != nil {
			return tuple(Value{}, in.errNew(err.Error()))
		}
		o := &Obj{v: []Value{{O: re}}, init: in.initPhase}
		return tuple(Value{O: o}, Value{})
	}
	m["regexp.MustCompile"] = func(in *Interp, a []Value) Value {
		re, err := regexp.Compile(in.mustStr(a[0]))
		if err != nil {
			in.goPanicStr(err.Error())
		}
		return Value{O: &Obj{v: []Value{{O: re}}, init: in.initPhase}}
	}
	m["(*regexp.Regexp).MatchString"] = func(in *Interp, a []Value) Value {
		o, _ := a[0].O.(*Obj)
		if o == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		re := o.v[0].O.(*regexp.Regexp)
		if s, ok := goStr(a[1]); ok {
			return boolV(re.MatchString(s))
		}
		return in.regexMatch(re, a[1].O.(*SymStr))
	}
	m["(*regexp.Regexp).Match"] = func(in *Interp, a []Value) Value {
		return m["(*regexp.Regexp).MatchString"](in, []Value{a[0], in.sliceStr(a[1])})
	}
	m["regexp.MatchString"] = func(in *Interp, a []Value) Value {
		r := m["regexp.Compile"](in, a[:1]).O.([]Value)
		if r[0].O == nil {
			return tuple(boolV(false), r[1])
		}
		return tuple(m["(*regexp.Regexp).MatchString"](in, []Value{r[0], a[1]}), Value{})
	}
	m["strconv.Itoa"] = func(in *Interp, a []Value) Value {
		return mkStr(strconv.Itoa(in.cint(a[0])))
	}
	m["strconv.FormatInt"] = func(in *Interp, a []Value) Value {
		return mkStr(strconv.FormatInt(int64(in.cint(a[0])), in.cint(a[1])))
	}
	m["strconv.Quote"] = func(in *Interp, a []Value) Value { return mkStr(strconv.Quote(in.showStr(a[0]))) }

	// ---- time: opaque instants
	m["time.Now"] = func(in *Interp, a []Value) Value {
		ti := in.ti(in.P.prog.ImportedPackage("time").Type("Time").Type())
		return Value{O: make([]Value, ti.leaves)}
	}
	m["time.Since"] = func(in *Interp, a []Value) Value { return Value{} }
	m["time.Unix"] = m["time.Now"]
	m["(time.Time).Format"] = func(in *Interp, a []Value) Value { return mkStr("1970-01-01T00:00:00Z") }
	m["(time.Time).UTC"] = id
	m["(time.Time).Unix"] = func(in *Interp, a []Value) Value { return Value{} }
	m["(time.Time).String"] = func(in *Interp, a []Value) Value { return mkStr("1970") }
}

func (in *Interp) errNewV(msg Value) Value {
	pk := in.P.prog.ImportedPackage("errors")
	return in.call(in.cfunc(pk.Func("New")), []Value{msg}, nil, nil)
}

func (in *Interp) errorsIs(e, target Value, depth int) bool {
	for depth < 50 {
		i, _ := e.O.(*Iface)
		t, _ := target.O.(*Iface)
		if i == nil || t == nil {
			return i == nil && t == nil
		}
		if types.Comparable(t.t) && in.truth(in.eqIface(i, t)) {
			return true
		}
		if f := in.methodByName(i.t, "Is"); f != nil && len(f.Params) == 2 {
			if in.truth(in.call(in.cfunc(f), []Value{i.v, target}, nil, nil)) {
				return true
			}
		}
		f := in.methodByName(i.t, "Unwrap")
		if f == nil {
			return false
		}
		e = in.call(in.cfunc(f), []Value{i.v}, nil, nil)
		if s, ok := e.O.(*Slice); ok {
			for k := 0; k < s.len; k++ {
				if in.errorsIs(s.o.get(s.off+k), target, depth+1) {
					return true
				}
			}
			return false
		}
		depth++
		if e.O == nil {
			return false
		}
	}
	return false
}

func (in *Interp) sliceStr(v Value) Value {
	s, _ := v.O.(*Slice)
	if s == nil {
		return mkStr("")
	}
	return in.strFromObj(s.o, s.off, s.len)
}

func (in *Interp) indexByte(s, c Value) Value {
	if g, ok := goStr(s); ok && c.T == nil {
		return Value{N: uint64(int64(strings.IndexByte(g, byte(c.N))))}
	}
	for i := 0; i < strLen(s); i++ {
		if in.truth(in.eqScalar(in.tByte, strAt(s, i), c)) {
			return Value{N: uint64(i)}
		}
	}
	return Value{N: ^uint64(0)}
}

func (in *Interp) strIndex(s, sub Value) Value {
	g, ok := goStr(s)
	h, ok2 := goStr(sub)
	if ok && ok2 {
		return Value{N: uint64(int64(strings.Index(g, h)))}
	}
	n := strLen(sub)
	for i := 0; i+n <= strLen(s); i++ {
		if in.truth(in.strEq(strSlice(s, i, i+n), sub)) {
			return Value{N: uint64(i)}
		}
	}
	return Value{N: ^uint64(0)}
}

func (in *Interp) strCmp(a, b Value) Value {
	if in.truth(in.strEq(a, b)) {
		return Value{}
	}
	if in.truth(in.strLess(a, b)) {
		return Value{N: ^uint64(0)}
	}
	return Value{N: 1}
}
