package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Bit provenance: which input bit each bit of a value is.

type bit struct {
	k byte // '0', '1', 'b' (bit i of s), '?' unknown
	s Sym
	i int
}

func (b bit) String() string {
	switch b.k {
	case 'b':
		return fmt.Sprintf("%s.%d", renderSym(b.s), b.i)
	}
	return string(b.k)
}

func constBits(n int64, w int) []bit {
	r := make([]bit, w)
	for i := range r {
		r[i] = bit{k: '0'}
		if n>>uint(min(i, 63))&1 != 0 {
			r[i].k = '1'
		}
	}
	return r
}

func leafBits(s Sym, from, to, w int) []bit {
	r := constBits(0, w)
	for i := from; i < to; i++ {
		r[i-from] = bit{'b', s, i}
	}
	return r
}

func typeWidth(t types.Type) (w int, signed bool) {
	if t == nil {
		return 64, true
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	signed = b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, signed
	case types.Int16, types.Uint16:
		return 16, signed
	case types.Int32, types.Uint32:
		return 32, signed
	}
	return 64, signed
}

// bits gives the low w bits of a value.
func (s *State) bits(v Val, w int) []bit {
	unknown := make([]bit, w)
	for i := range unknown {
		unknown[i] = bit{k: '?'}
	}
	if v.K != KInt {
		return unknown
	}
	if v.S == 0 {
		return constBits(v.N, w)
	}
	if lo, hi := s.rng(v); lo == hi {
		return constBits(lo, w)
	}
	x := s.symBits(v.S)
	r := make([]bit, w)
	for i := range r {
		r[i] = x[i]
	}
	if v.N != 0 {
		// disjoint constant part?
		for i := range r {
			if v.N>>uint(i)&1 != 0 && r[i].k != '0' || v.N < 0 {
				y := s.symBits(term("add", syms[v.S].T, isym(v.S), iconst(v.N)))
				return append([]bit{}, y[:w]...)
			}
		}
		for i := range r {
			if v.N>>uint(i)&1 != 0 {
				r[i].k = '1'
			}
		}
	}
	return r
}

func (s *State) symBits(x Sym) []bit {
	si := syms[x]
	f := s.fact(x)
	w, signed := typeWidth(si.T)
	r := make([]bit, 64)
	for i := range r {
		r[i] = bit{k: '?'}
	}
	ext := func(r []bit, w int, signed bool) []bit {
		for i := w; i < 64; i++ {
			if signed {
				r[i] = r[w-1]
			} else {
				r[i] = bit{k: '0'}
			}
		}
		return r
	}
	ok := true
	switch si.Op {
	case "conv":
		copy(r, s.bits(si.Args[0], 64))
	case "and", "or", "xor", "andnot":
		a, b := s.bits(si.Args[0], 64), s.bits(si.Args[1], 64)
		for i := range r {
			r[i] = bitOp(si.Op, a[i], b[i])
		}
	case "shl", "shr":
		a := s.bits(si.Args[0], 64)
		if !si.Args[1].isConstInt() || si.Args[1].N < 0 || si.Args[1].N > 63 {
			ok = false
			break
		}
		k := int(si.Args[1].N)
		for i := range r {
			j := i - k
			if si.Op == "shr" {
				j = i + k
			}
			switch {
			case j < 0:
				r[i] = bit{k: '0'}
			case j > 63:
				r[i] = a[63]
				if !signed {
					r[i] = bit{k: '0'}
				}
			default:
				r[i] = a[j]
			}
		}
	case "mul":
		a, c := si.Args[0], si.Args[1]
		if !c.isConstInt() {
			a, c = c, a
		}
		k := log2(c)
		if k < 0 {
			ok = false
			break
		}
		b := s.bits(a, 64)
		for i := range r {
			if i < k {
				r[i] = bit{k: '0'}
			} else {
				r[i] = b[i-k]
			}
		}
	case "quo", "rem":
		k := log2(si.Args[1])
		lo, _ := s.rng(si.Args[0])
		if k < 0 || lo < 0 {
			ok = false
			break
		}
		b := s.bits(si.Args[0], 64)
		for i := range r {
			switch {
			case si.Op == "quo" && i+k < 64:
				r[i] = b[i+k]
			case si.Op == "rem" && i < k:
				r[i] = b[i]
			default:
				r[i] = bit{k: '0'}
			}
		}
	case "add":
		a, b := s.bits(si.Args[0], 64), s.bits(si.Args[1], 64)
		for i := range r {
			if a[i].k != '0' && b[i].k != '0' {
				ok = false
			}
			if a[i].k == '0' {
				r[i] = b[i]
			} else {
				r[i] = a[i]
			}
		}
	default:
		ok = false
	}
	if !ok {
		// a leaf
		for i := range r {
			r[i] = bit{k: '?'}
		}
		if definiteLeaf(x) {
			for i := 0; i < w; i++ {
				r[i] = bit{'b', x, i}
			}
		}
		if f.Lo >= 0 {
			for i := 0; i < 63; i++ {
				if f.Hi < 1<<uint(i) {
					r[i] = bit{k: '0'}
				}
			}
		}
	}
	return ext(r, w, signed)
}

func log2(v Val) int {
	if !v.isConstInt() || v.N <= 0 {
		return -1
	}
	for i := 0; i < 63; i++ {
		if v.N == 1<<uint(i) {
			return i
		}
	}
	return -1
}

func bitOp(op string, a, b bit) bit {
	z, o := bit{k: '0'}, bit{k: '1'}
	neg := func(b bit) bit {
		switch b.k {
		case '0':
			return o
		case '1':
			return z
		}
		return bit{k: '?'}
	}
	switch op {
	case "andnot":
		return bitOp("and", a, neg(b))
	case "and":
		switch {
		case a.k == '0' || b.k == '0':
			return z
		case a.k == '1':
			return b
		case b.k == '1', a == b && a.k == 'b':
			return a
		}
	case "or":
		switch {
		case a.k == '1' || b.k == '1':
			return o
		case a.k == '0':
			return b
		case b.k == '0', a == b && a.k == 'b':
			return a
		}
	case "xor":
		switch {
		case a.k == '0':
			return b
		case b.k == '0':
			return a
		case a.k == '1':
			return neg(b)
		case b.k == '1':
			return neg(a)
		case a == b && a.k == 'b':
			return z
		}
	}
	return bit{k: '?'}
}

// bitsDiffer compares; want is exact, a '?' in got is undecided.
func bitsDiffer(got, want []bit) (bad, unknown bool) {
	for i := range want {
		if got[i].k == '?' {
			unknown = true
		} else if got[i] != want[i] {
			bad = true
		}
	}
	return
}

func showBits(b []bit) string {
	var l []string
	for i := len(b) - 1; i >= 0; i-- {
		l = append(l, b[i].String())
	}
	return strings.Join(l, " ")
}

// knownLeaf marks the unknowns a scenario introduced.
var knownLeaf = map[Sym]bool{}

// leafMemo, when set, makes scenarios set up repeatedly share their unknowns.
var leafMemo map[string]Sym

func leaf(name string, t types.Type) Sym {
	if x, ok := leafMemo[name]; ok {
		return x
	}
	x := freshSym(name, t)
	knownLeaf[x] = true
	if leafMemo != nil {
		leafMemo[name] = x
	}
	return x
}

// definiteLeaf: the symbol stands for one particular unknown, so that two
// different leaves are different values.
func definiteLeaf(x Sym) bool {
	si := syms[x]
	switch si.Op {
	case "":
		return knownLeaf[x]
	case "init":
		return si.L.O != nil && !si.L.O.Summary && !strings.Contains(si.L.Path, "~")
	case "add", "sub":
		a, b := si.Args[0], si.Args[1]
		if a.isConstInt() && si.Op == "add" {
			a, b = b, a
		}
		if a.S == 0 || !definiteLeaf(a.S) {
			return false
		}
		// free sums of independent unknowns are unknowns of their own
		return b.isConstInt() || b.S != 0 && b.N == 0 && a.N == 0 && a.S != b.S && si.Op == "add" && syms[a.S].Op != "add" && syms[b.S].Op != "add" && definiteLeaf(b.S)
	}
	return false
}
