package main

import (
	"fmt"
	"strings"
)

// Two functions that are run by vh.Parallel are executed one after the other. What each of them
// reads and writes of the memory that is not its own is recorded. If no location is accessed by
// both of them, at least once to write it, without a common lock, then all interleavings of the two
// have the same effect as the one that is executed.

type loc struct {
	o any // *Obj or *Map
	i int // the cell, of an *Obj
}

// use is how a location is used by one of the two.
type use struct {
	held  map[loc]bool // the locks held at all uses
	where string
}

type par struct {
	who   uint8 // 1 or 2
	held  map[loc]int
	once  [3]map[loc]bool // what each has waited for
	reads [3]map[loc]*use
	write [3]map[loc]*use
}

func (p *par) locks() map[loc]bool {
	m := map[loc]bool{}
	for k, n := range p.held {
		if n > 0 {
			m[k] = true
		}
	}
	for k := range p.once[p.who] {
		m[k] = true
	}
	return m
}

func (in *Interp) touched(l loc, write bool) {
	p := in.par
	m := p.reads[p.who]
	if write {
		m = p.write[p.who]
	}
	u := m[l]
	if u == nil {
		m[l] = &use{p.locks(), in.site()}
		return
	}
	if len(u.held) == 0 {
		return
	}
	now := p.locks()
	for k := range u.held {
		if !now[k] {
			delete(u.held, k)
		}
	}
	if len(u.held) == 0 {
		u.where = in.site()
	}
}

// parObj notes the use of n cells of an object.
func (in *Interp) parObj(o *Obj, i, n int, write bool) {
	if o.own == in.par.who {
		return
	}
	for k := 0; k < n; k++ {
		in.touched(loc{o, i + k}, write)
	}
}

func (in *Interp) parMap(m *Map, write bool) {
	if m.own == in.par.who {
		return
	}
	in.touched(loc{m, 0}, write)
}

// synchronized runs what accesses memory in a way that is safe by itself.
func (in *Interp) synchronized(f func()) {
	p := in.par
	in.par = nil
	f()
	in.par = p
}

func (in *Interp) lock(l loc, n int) {
	if in.par != nil {
		in.par.held[l] += n
	}
}

func (in *Interp) parallel(f, g Value) {
	if in.par != nil {
		in.unsupported("Parallel in Parallel")
	}
	p := &par{held: map[loc]int{}}
	for i := range p.once {
		p.once[i] = map[loc]bool{}
		p.reads[i] = map[loc]*use{}
		p.write[i] = map[loc]*use{}
	}
	in.par = p
	p.who = 1
	in.callValue(f, nil, nil)
	p.who = 2
	in.callValue(g, nil, nil)
	in.par = nil
	in.st.Asserts++
	seen := map[string]bool{}
	conflict := func(a, b map[loc]*use, what string) {
		for l, u := range a {
			v := b[l]
			if v == nil {
				continue
			}
			common := false
			for k := range u.held {
				common = common || v.held[k]
			}
			if common {
				continue
			}
			w := fmt.Sprintf("%s: %s, and %s", what, u.where, v.where)
			if !seen[w] {
				seen[w] = true
				n := len(in.viol)
				in.violation("data race, "+strings.ReplaceAll(w, "github.com/batchatco/go-native-netcdf/", ""), in.sticky, in.getModel())
				in.viol[n].Race = true
			}
		}
	}
	conflict(p.write[1], p.write[2], "two writes")
	conflict(p.write[1], p.reads[2], "a write and a read")
	conflict(p.reads[1], p.write[2], "a read and a write")
	if len(seen) == 0 {
		in.st.Discharged++
	}
}

// onceDone notes that what a sync.Once does has been waited for.
func (in *Interp) onceDone(l loc) {
	if in.par != nil {
		in.par.once[in.par.who][l] = true
	}
}
