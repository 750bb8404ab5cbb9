package main

import (
	"regexp"
	"regexp/syntax"
)

// regexMatch decides re on a string with symbolic bytes, without forking: the
// regexp's compiled program is run as an NFA whose state set is a vector of
// boolean terms, one step per rune, with UTF-8 decoding expressed over the bytes.
func (in *Interp) regexMatch(re *regexp.Regexp, s *SymStr) Value {
	rx, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		in.unsupported("regexp: %v", err)
	}
	prog, err := syntax.Compile(rx.Simplify())
	if err != nil {
		in.unsupported("regexp: %v", err)
	}
	p := in.pool
	n := len(s.b)
	F := p.Bool(false)
	alts := func(i int) []runeAlt { return in.runeAlts(s, i) }
	matchInst := func(ins *syntax.Inst, r *Term) *Term {
		switch ins.Op {
		case syntax.InstRuneAny:
			return p.Bool(true)
		case syntax.InstRuneAnyNotNL:
			return p.Not(p.Eq(r, p.Const(32, '\n')))
		case syntax.InstRune1:
			return p.Eq(r, p.Const(32, uint64(ins.Rune[0])))
		}
		if len(ins.Rune) == 1 {
			if syntax.Flags(ins.Arg)&syntax.FoldCase != 0 {
				in.unsupported("case-folding regexp on a symbolic string")
			}
			return p.Eq(r, p.Const(32, uint64(ins.Rune[0])))
		}
		t := F
		for k := 0; k+1 < len(ins.Rune); k += 2 {
			lo, hi := p.Const(32, uint64(ins.Rune[k])), p.Const(32, uint64(ins.Rune[k+1]))
			t = p.Or(t, p.And(p.ULe(lo, r), p.ULe(r, hi)))
		}
		return t
	}
	// st[i][pc] = condition that pc is reachable before consuming position i
	st := make([]map[uint32]*Term, n+1)
	for i := range st {
		st[i] = map[uint32]*Term{}
	}
	matched := F
	var add func(i int, pc uint32, c *Term, path map[uint32]bool)
	add = func(i int, pc uint32, c *Term, path map[uint32]bool) {
		if c.isFalse() || path[pc] {
			return
		}
		ins := &prog.Inst[pc]
		switch ins.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			path[pc] = true
			add(i, ins.Out, c, path)
			add(i, ins.Arg, c, path)
			delete(path, pc)
		case syntax.InstCapture, syntax.InstNop:
			path[pc] = true
			add(i, ins.Out, c, path)
			delete(path, pc)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(ins.Arg)
			ok := true
			if op&syntax.EmptyBeginText != 0 && i != 0 {
				ok = false
			}
			if op&syntax.EmptyEndText != 0 && i != n {
				ok = false
			}
			if op&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				in.unsupported("regexp empty-width operator on a symbolic string")
			}
			if ok {
				path[pc] = true
				add(i, ins.Out, c, path)
				delete(path, pc)
			}
		case syntax.InstMatch:
			matched = p.Or(matched, c)
		case syntax.InstFail:
		default:
			old := st[i][pc]
			if old == nil {
				st[i][pc] = c
			} else {
				st[i][pc] = p.Or(old, c)
			}
		}
	}
	valid := make([]*Term, n+1) // a rune boundary at i
	valid[0] = p.Bool(true)
	for i := 1; i <= n; i++ {
		valid[i] = F
	}
	var al [][]runeAlt
	for i := 0; i < n; i++ {
		al = append(al, alts(i))
		for _, a := range al[i] {
			valid[i+a.n] = p.Or(valid[i+a.n], p.And(valid[i], a.c))
		}
	}
	for i := 0; i <= n; i++ {
		add(i, uint32(prog.Start), valid[i], map[uint32]bool{})
		if i == n {
			break
		}
		for _, pc := range sortedPCs(st[i]) {
			c := st[i][pc]
			ins := &prog.Inst[pc]
			for _, a := range al[i] {
				add(i+a.n, ins.Out, p.And(c, p.And(a.c, matchInst(ins, a.r))), map[uint32]bool{})
			}
		}
	}
	return fromTerm(matched)
}

func sortedPCs(m map[uint32]*Term) []uint32 {
	var k []uint32
	for x := range m {
		k = append(k, x)
	}
	for i := range k {
		for j := i + 1; j < len(k); j++ {
			if k[j] < k[i] {
				k[i], k[j] = k[j], k[i]
			}
		}
	}
	return k
}

// runeAlt is one way to decode a rune: under condition c it is r, of n bytes.
type runeAlt struct {
	c *Term
	r *Term
	n int
}

// runeAlts gives the ways in which the rune at byte i of s can be decoded.
func (in *Interp) runeAlts(s *SymStr, i int) []runeAlt {
	p := in.pool
	n := len(s.b)
	by := func(i int) *Term { return symByte(p, s, i) }
	rng := func(t *Term, lo, hi uint64) *Term {
		return p.And(p.ULe(p.Const(8, lo), t), p.ULe(t, p.Const(8, hi)))
	}
	low := func(t *Term, k uint8) *Term { return p.ZExt(p.Extract(t, k-1, 0), 32) }
	sh := func(t *Term, k uint64) *Term { return p.Bin(OpShl, t, p.Const(32, k)) }
	or := func(a, b *Term) *Term { return p.Bin(OpBOr, a, b) }
	b0 := by(i)
	var r []runeAlt
	a1 := p.ULt(b0, p.Const(8, 0x80))
	r = append(r, runeAlt{a1, p.ZExt(b0, 32), 1})
	any := a1
	add := func(c, rn *Term, k int) {
		if c.isFalse() {
			return
		}
		r = append(r, runeAlt{c, rn, k})
		any = p.Or(any, c)
	}
	if i+1 < n {
		b1 := by(i + 1)
		c := p.And(rng(b0, 0xc2, 0xdf), rng(b1, 0x80, 0xbf))
		add(c, or(sh(low(b0, 5), 6), low(b1, 6)), 2)
		if i+2 < n {
			b2 := by(i + 2)
			lead := p.Or(p.And(p.Eq(b0, p.Const(8, 0xe0)), rng(b1, 0xa0, 0xbf)),
				p.Or(p.And(p.Or(rng(b0, 0xe1, 0xec), rng(b0, 0xee, 0xef)), rng(b1, 0x80, 0xbf)),
					p.And(p.Eq(b0, p.Const(8, 0xed)), rng(b1, 0x80, 0x9f))))
			c := p.And(lead, rng(b2, 0x80, 0xbf))
			add(c, or(sh(low(b0, 4), 12), or(sh(low(b1, 6), 6), low(b2, 6))), 3)
			if i+3 < n {
				b3 := by(i + 3)
				lead := p.Or(p.And(p.Eq(b0, p.Const(8, 0xf0)), rng(b1, 0x90, 0xbf)),
					p.Or(p.And(rng(b0, 0xf1, 0xf3), rng(b1, 0x80, 0xbf)),
						p.And(p.Eq(b0, p.Const(8, 0xf4)), rng(b1, 0x80, 0x8f))))
				c := p.And(lead, p.And(rng(b2, 0x80, 0xbf), rng(b3, 0x80, 0xbf)))
				add(c, or(sh(low(b0, 3), 18), or(sh(low(b1, 6), 12), or(sh(low(b2, 6), 6), low(b3, 6)))), 4)
			}
		}
	}
	r = append(r, runeAlt{p.Not(any), p.Const(32, 0xfffd), 1})
	return r
}
