// Package h holds the verification harnesses, named H_<property>_<what>.
package h

import (
	"errors"
	"io"
	"os"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
	"github.com/batchatco/go-native-netcdf/vh"
)

// memReader is an in-memory api.ReadSeekerCloser.
type memReader struct {
	b      []byte
	pos    int64
	closed int
}

func (m *memReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if m.pos >= int64(len(m.b)) {
		return 0, io.EOF
	}
	n := copy(p, m.b[m.pos:])
	m.pos += int64(n)
	return n, nil
}

func (m *memReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += m.pos
	case io.SeekEnd:
		off += int64(len(m.b))
	}
	if off < 0 {
		return 0, errors.New("negative seek")
	}
	m.pos = off
	return off, nil
}

func (m *memReader) Close() error {
	m.closed++
	return nil
}

func must(err error, what string) {
	if err != nil {
		vh.Fail(what + " failed")
	}
}

func amap(keys []string, vals map[string]interface{}) api.AttributeMap {
	m, err := util.NewOrderedMap(keys, vals)
	must(err, "NewOrderedMap")
	return m
}

func readFile(fn string) []byte {
	b, err := os.ReadFile(fn)
	must(err, "ReadFile")
	return b
}
