package h

import (
	"math"

	"github.com/batchatco/go-native-netcdf/vh"
)

// The netCDF external types, numbered as in the classic format.
const (
	tByte = 1 + iota
	tChar
	tShort
	tInt
	tFloat
	tDouble
	tUByte
	tUShort
	tUInt
	tInt64
	tUInt64
)

var tSize = []int{0, 1, 1, 2, 4, 4, 8, 1, 2, 4, 8, 8}
var tGo = []string{"", "int8", "string", "int16", "int32", "float32", "float64",
	"uint8", "uint16", "uint32", "int64", "uint64"}
var tCDL = []string{"", "byte", "char", "short", "int", "float", "double",
	"ubyte", "ushort", "uint", "int64", "uint64"}

func isV5(ty int) bool { return ty >= tUByte }

func prod(shape []int) int {
	n := 1
	for _, d := range shape {
		n *= d
	}
	return n
}

func nest[T any](raw []byte, size int, shape []int, f func([]byte) T) any {
	step := size
	at := func(i int) T { return f(raw[i*step : i*step+size]) }
	one := func(base, n int) []T {
		r := make([]T, n)
		for i := range r {
			r[i] = at(base + i)
		}
		return r
	}
	two := func(base, n, m int) [][]T {
		r := make([][]T, n)
		for i := range r {
			r[i] = one(base+i*m, m)
		}
		return r
	}
	three := func(base, n, m, k int) [][][]T {
		r := make([][][]T, n)
		for i := range r {
			r[i] = two(base+i*m*k, m, k)
		}
		return r
	}
	four := func(base, n int, sh []int) [][][][]T {
		r := make([][][][]T, n)
		for i := range r {
			r[i] = three(base+i*prod(sh), sh[0], sh[1], sh[2])
		}
		return r
	}
	five := func(base, n int, sh []int) [][][][][]T {
		r := make([][][][][]T, n)
		for i := range r {
			r[i] = four(base+i*prod(sh), sh[0], sh[1:])
		}
		return r
	}
	switch len(shape) {
	case 0:
		return at(0)
	case 1:
		return one(0, shape[0])
	case 2:
		return two(0, shape[0], shape[1])
	case 3:
		return three(0, shape[0], shape[1], shape[2])
	case 4:
		return four(0, shape[0], shape[1:])
	case 5:
		return five(0, shape[0], shape[1:])
	case 6:
		r := make([][][][][][]T, shape[0])
		for i := range r {
			r[i] = five(i*prod(shape[1:]), shape[1], shape[2:])
		}
		return r
	}
	panic("rank")
}

func beU(b []byte) uint64 {
	var x uint64
	for _, c := range b {
		x = x<<8 | uint64(c)
	}
	return x
}

func leU(b []byte) uint64 {
	var x uint64
	for i := len(b) - 1; i >= 0; i-- {
		x = x<<8 | uint64(b[i])
	}
	return x
}

func b16(b []byte, le bool) uint16 {
	if le {
		return uint16(b[0]) | uint16(b[1])<<8
	}
	return uint16(b[1]) | uint16(b[0])<<8
}

func b32(b []byte, le bool) uint32 {
	if le {
		return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
	}
	return uint32(b[3]) | uint32(b[2])<<8 | uint32(b[1])<<16 | uint32(b[0])<<24
}

func b64(b []byte, le bool) uint64 {
	if le {
		return uint64(b32(b, le)) | uint64(b32(b[4:], le))<<32
	}
	return uint64(b32(b[4:], le)) | uint64(b32(b, le))<<32
}

// decode gives the Go value that raw external data stands for.
func decode(ty int, raw []byte, shape []int, le bool) any {
	switch ty {
	case tByte:
		return nest(raw, 1, shape, func(b []byte) int8 { return int8(b[0]) })
	case tUByte:
		return nest(raw, 1, shape, func(b []byte) uint8 { return b[0] })
	case tShort:
		return nest(raw, 2, shape, func(b []byte) int16 { return int16(b16(b, le)) })
	case tUShort:
		return nest(raw, 2, shape, func(b []byte) uint16 { return b16(b, le) })
	case tInt:
		return nest(raw, 4, shape, func(b []byte) int32 { return int32(b32(b, le)) })
	case tUInt:
		return nest(raw, 4, shape, func(b []byte) uint32 { return b32(b, le) })
	case tFloat:
		return nest(raw, 4, shape, func(b []byte) float32 { return math.Float32frombits(b32(b, le)) })
	case tDouble:
		return nest(raw, 8, shape, func(b []byte) float64 { return math.Float64frombits(b64(b, le)) })
	case tInt64:
		return nest(raw, 8, shape, func(b []byte) int64 { return int64(b64(b, le)) })
	case tUInt64:
		return nest(raw, 8, shape, func(b []byte) uint64 { return b64(b, le) })
	case tChar:
		if len(shape) == 0 {
			return string(raw[:1])
		}
		k := shape[len(shape)-1]
		if len(shape) == 1 {
			return string(raw[:k])
		}
		if k == 0 {
			k = 0
		}
		return nest(raw, k, shape[:len(shape)-1], func(b []byte) string { return string(b) })
	}
	panic("type")
}

func rawFor(name string, ty int, shape []int) []byte {
	return vh.Bytes(name, prod(shape)*tSize[ty])
}

// genVal makes a value of the type and shape with arbitrary contents.
func genVal(name string, ty int, shape []int) any {
	return decode(ty, rawFor(name, ty, shape), shape, true)
}

func eqBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vh.And(r, a[i] == b[i])
	}
	return r
}

func dimNames(prefix string, n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, prefix+string(rune('a'+i)))
	}
	return r
}

func intsTo64(x []int) []int64 {
	r := make([]int64, len(x))
	for i := range x {
		r[i] = int64(x[i])
	}
	return r
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vh.And(r, a[i] == b[i])
	}
	return r
}
