// Package vh is the interface between verification harnesses and the symbolic
// executor. Compiled natively it replays one concrete assignment of the inputs.
package vh

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"syscall"
)

var (
	inputs  = map[string]string{}
	counts  = map[string]int{}
	scratch string
	tmpN    int
)

func next(name string) uint64 {
	k := fmt.Sprintf("%s#%d", name, counts[name])
	counts[name]++
	v, _ := strconv.ParseUint(inputs[k], 10, 64)
	return v
}

// Symbolic inputs.
func U8(name string) uint8    { return uint8(next(name)) }
func U16(name string) uint16  { return uint16(next(name)) }
func U32(name string) uint32  { return uint32(next(name)) }
func U64(name string) uint64  { return next(name) }
func I8(name string) int8     { return int8(next(name)) }
func I16(name string) int16   { return int16(next(name)) }
func I32(name string) int32   { return int32(next(name)) }
func I64(name string) int64   { return int64(next(name)) }
func Int(name string) int     { return int(next(name)) }
func F32(name string) float32 { return math.Float32frombits(uint32(next(name))) }
func F64(name string) float64 { return math.Float64frombits(next(name)) }
func Bool(name string) bool   { return next(name)&1 == 1 }

func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = U8(name)
	}
	return b
}

func Str(name string, n int) string { return string(Bytes(name, n)) }

// Choose picks 0..n-1, one path each.
func Choose(name string, n int) int { return int(next(name)) }

// Concrete makes the executor enumerate the feasible values of x.
func Concrete(x int) int { return x }

func Assume(c bool) {
	if !c {
		fmt.Println("VH-ASSUME-FALSE")
		os.Exit(4)
	}
}

func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

func Fail(msg string) {
	fmt.Println("VH-ASSERT-FAILED:", msg)
	os.Exit(3)
}

// Reach marks a point that must be reachable (vacuity guard).
func Reach(tag string) {}

// Known marks that from here on a failure is the listed finding id ("" ends it).
func Known(id string) {}

// Eq compares deeply, floats by bit pattern, nil and empty slices alike.
func Eq(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	return eq(reflect.ValueOf(a), reflect.ValueOf(b))
}

func eq(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		if a.Kind() == reflect.Float32 {
			// Float() would quiet signalling NaNs
			if x, ok := a.Interface().(float32); ok {
				return math.Float32bits(x) == math.Float32bits(b.Interface().(float32))
			}
			return math.Float32bits(float32(a.Float())) == math.Float32bits(float32(b.Float()))
		}
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		if a.Elem().Type() != b.Elem().Type() {
			return false
		}
		return eq(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !eq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// And and Or combine without branching.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func If64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Symbolic is true under the executor.
func Symbolic() bool { return false }

// MapOrder(1) makes map iteration order part of what is explored.
func MapOrder(mode int) {}

func Note(s string) {}

// TempFile names a fresh file in the scratch directory.
func TempFile(name string) string {
	tmpN++
	return filepath.Join(scratch, fmt.Sprintf("%d-%s", tmpN, name))
}

// Template returns the bytes of a committed template file.
func Template(name string) []byte {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VH_TEMPLATES"), name))
	if err != nil {
		panic(err)
	}
	return b
}

// LimitFileSize makes every later write beyond n bytes of a file fail.
func LimitFileSize(n int) {
	signal.Ignore(syscall.SIGXFSZ)
	var r syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &r)
	r.Cur = uint64(n)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &r); err != nil {
		panic(err)
	}
}

// OpenFiles is the number of temporary files that are open.
func OpenFiles() int {
	n := 0
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, d := range fds {
		l, err := os.Readlink("/proc/self/fd/" + d.Name())
		if err == nil && strings.HasPrefix(l, scratch) {
			n++
		}
	}
	return n
}

// Main replays one harness.
func Main(name string, m map[string]func()) {
	scratch = os.Getenv("VH_SCRATCH")
	b, err := os.ReadFile(os.Getenv("VH_INPUTS"))
	if err == nil {
		err = json.Unmarshal(b, &inputs)
	}
	if err != nil {
		fmt.Println("VH-ERROR", err)
		os.Exit(5)
	}
	f := m[name]
	if f == nil {
		fmt.Println("VH-ERROR no harness", name)
		os.Exit(5)
	}
	f()
	fmt.Println("VH-DONE")
}

// Parallel runs two functions at the same time. Neither may use symbolic inputs that aren't there
// before. They must not interfere.
func Parallel(f, g func()) {
	var wg sync.WaitGroup
	wg.Add(2)
	start := make(chan bool)
	run := func(f func()) {
		defer wg.Done()
		<-start
		f()
	}
	go run(f)
	go run(g)
	close(start)
	wg.Wait()
}

// Robust makes runs beyond steps instructions, unending recursion and allocations of
// more memory than there is failures, if the native replay confirms them. Of allocations
// of symbolic length above alloc elements one is followed.
func Robust(steps, alloc int) {}
