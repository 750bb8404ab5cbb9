package h

import (
	"errors"
	"os"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/vh"
)

// opening is a way to open a file.
type opening struct {
	format int // 0 any, 1 classic, 2 HDF5
	byName bool
}

func pickOpening() opening {
	return opening{vh.Choose("package", 3), vh.Choose("by name", 2) == 1}
}

// open opens a file of these bytes. The reader is nil if it was opened by name.
func (o opening) open(b []byte) (api.Group, *memReader, error) {
	if o.byName {
		fn := vh.TempFile("o.nc")
		must(os.WriteFile(fn, b, 0o600), "WriteFile")
		g, err := o.name(fn)
		return g, nil, err
	}
	m := &memReader{b: b}
	g, err := o.reader(m)
	return g, m, err
}

func (o opening) name(fn string) (api.Group, error) {
	switch o.format {
	case 1:
		return cdf.Open(fn)
	case 2:
		return hdf5.Open(fn)
	}
	return netcdf.Open(fn)
}

func (o opening) reader(m api.ReadSeekerCloser) (api.Group, error) {
	switch o.format {
	case 1:
		return cdf.New(m)
	case 2:
		return hdf5.New(m)
	}
	return netcdf.New(m)
}

// owned checks that the file is open, or that it is closed and was closed only once.
func owned(m *memReader, open bool) {
	if m == nil {
		vh.Assert(vh.OpenFiles() == 1 == open, "file opened by name: open or closed when it shouldn't be")
		vh.Assert(vh.OpenFiles() <= 1, "file is open more than once")
	} else if open {
		vh.Assert(m.closed == 0, "file was closed too early")
	} else {
		vh.Assert(m.closed == 1, "file was not closed, or more than once")
	}
}

// refusedFile checks that the file is left as it should be after an error.
func refusedFile(g api.Group, m *memReader) {
	vh.Assert(g == nil, "both a group and an error")
	if m == nil {
		vh.Assert(vh.OpenFiles() == 0, "file opened by name is left open after an error")
	} else {
		vh.Assert(m.closed == 0, "file of the caller was closed though there was an error")
	}
}

// openBytes opens a file whose bytes may or may not be valid.
func openBytes(o opening, b []byte) {
	vh.Robust(robustSteps, 60)
	g, m, err := o.open(b)
	if err != nil {
		refusedFile(g, m)
		vh.Reach("refused")
		return
	}
	vh.Assert(g != nil, "neither a group nor an error")
	owned(m, true)
	g.Close()
	owned(m, false)
	g.Close()
	owned(m, false)
	vh.Reach("opened")
}

// H_C26_first: any first bytes, and no others.
func H_C26_first() {
	o := pickOpening()
	b := vh.Bytes("first", []int{0, 1, 2, 3, 4, 8, 12}[vh.Choose("len", 7)])
	vh.Robust(robustSteps, 60)
	g, m, err := o.open(b)
	// none of these is long enough to be a file
	vh.Assert(err != nil, "opened a file that has only its first bytes")
	refusedFile(g, m)
	if o.format == 0 {
		known := false
		if len(b) > 0 {
			known = b[0] == 'C' || b[0] == 0x89
		}
		if !known {
			vh.Assert(errors.Is(err, netcdf.ErrUnknown), "file of neither format is not refused with ErrUnknown")
			vh.Reach("neither")
		}
	}
	vh.Reach("checked")
}

// sample gives a valid file of either format.
func sample(classic bool) ([]byte, []wvar) {
	v := []wvar{mkvar("a", tInt, []int{2}, []string{"x"}), mkvar("b", tShort, nil, nil)}
	if classic {
		return readFile(writeClassic(v, nil)), v
	}
	return readFile(writeHdf5(hvars(v))), v
}

// H_C26_second: a file of either format whose first byte is any other.
func H_C26_second() {
	b, _ := sample(vh.Choose("classic", 2) == 1)
	c := vh.U8("byte")
	vh.Assume(c != b[0])
	b[0] = c
	o := pickOpening()
	g, m, err := o.open(b)
	vh.Assert(err != nil, "opened a file that begins with the wrong byte")
	refusedFile(g, m)
	if o.format == 0 && c != 'C' && c != 0x89 {
		vh.Assert(errors.Is(err, netcdf.ErrUnknown), "file of neither format is not refused with ErrUnknown")
	}
	vh.Reach("checked")
}

// H_C26_valid: valid files, the reader at any place; the right format is chosen.
func H_C26_valid() {
	classic := vh.Choose("classic", 2) == 1
	b, v := sample(classic)
	o := pickOpening()
	if o.byName {
		g, _, err := o.open(b)
		checkOpened(o, classic, v, g, nil, err)
		return
	}
	m := &memReader{b: b}
	if o.format == 0 && vh.Choose("elsewhere", 2) == 1 {
		m.pos = int64(vh.U16("pos"))
		vh.Assume(m.pos <= int64(len(b)))
		if m.pos < 16 {
			m.pos = int64(vh.Concrete(int(m.pos)))
		} else {
			vh.Assume(m.pos == 40 || m.pos == int64(len(b)))
			m.pos = int64(vh.Concrete(int(m.pos)))
		}
	}
	g, err := o.reader(m)
	checkOpened(o, classic, v, g, m, err)
}

func checkOpened(o opening, classic bool, v []wvar, g api.Group, m *memReader, err error) {
	if o.format == 1 && !classic || o.format == 2 && classic {
		vh.Assert(err != nil, "file of the other format was opened")
		refusedFile(g, m)
		vh.Reach("other format")
		return
	}
	must(err, "open")
	owned(m, true)
	checkVars(g, v)
	owned(m, true)
	g.Close()
	owned(m, false)
	g.Close()
	owned(m, false)
	vh.Reach("checked")
}

// H_C26_missing: a file which isn't there.
func H_C26_missing() {
	o := pickOpening()
	g, err := o.name(vh.TempFile("none.nc"))
	vh.Assert(err != nil, "opened a file that does not exist")
	refusedFile(g, nil)
	vh.Reach("checked")
}

// H_C26_short: files cut off anywhere.
func H_C26_short() {
	b, _ := sample(vh.Choose("classic", 2) == 1)
	n := vh.Choose("keep", len(b))
	vh.Assume(vh.Thorough() || n < 24 || n > len(b)-4 || n%40 == 0)
	o := opening{byName: vh.Choose("by name", 2) == 1}
	openBytes(o, b[:n])
}

// H_C26_byte: files with one byte changed to anything.
func H_C26_byte() {
	classic := vh.Choose("classic", 2) == 1
	b, _ := sample(classic)
	at := vh.Choose("at", len(b))
	vh.Assume(vh.Thorough() || at < 12 || at%16 == 0 && at < 60)
	b[at] = vh.U8("byte")
	o := opening{byName: vh.Choose("by name", 2) == 1}
	openBytes(o, b)
}

// failing is a file whose n-th operation, and those after it, fail.
type failing struct {
	memReader
	left int
	once bool
}

var errDisk = errors.New("i/o error")

func (f *failing) bad() bool {
	f.left--
	if f.once {
		return f.left == -1
	}
	return f.left < 0
}

func (f *failing) Read(p []byte) (int, error) {
	if f.bad() {
		return 0, errDisk
	}
	return f.memReader.Read(p)
}

func (f *failing) Seek(off int64, whence int) (int64, error) {
	if f.bad() {
		return 0, errDisk
	}
	return f.memReader.Seek(off, whence)
}

// H_C26_fault: the file fails at any operation while it is opened.
func H_C26_fault() {
	classic := vh.Choose("classic", 2) == 1
	b, v := sample(classic)
	f := &failing{memReader: memReader{b: b}, left: int(vh.U32("operation"))}
	f.once = vh.Choose("once", 2) == 1
	o := opening{format: vh.Choose("package", 2) * (1 + vh.Choose("classic", 2))}
	g, err := o.reader(f)
	if err != nil {
		refusedFile(g, &f.memReader)
		vh.Reach("failed")
		return
	}
	owned(&f.memReader, true)
	f.left = 1 << 40
	checkVars(g, v)
	g.Close()
	owned(&f.memReader, false)
	vh.Reach("checked")
}
