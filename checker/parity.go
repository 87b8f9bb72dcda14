package main

var trackParity bool

// parity of an integer value: 0 unknown, 1 even, 2 odd.
func (s *State) parity(v Val) uint8 {
	if v.K != KInt {
		return 0
	}
	flip := func(p uint8, n int64) uint8 {
		if p != 0 && n&1 != 0 {
			return 3 - p
		}
		return p
	}
	if v.S == 0 {
		return uint8(v.N&1) + 1
	}
	if f := s.fact(v.S); f.Par != 0 {
		return flip(f.Par, v.N)
	}
	if lo, hi := s.rng(v); lo == hi {
		return uint8(lo&1) + 1
	}
	si := syms[v.S]
	// tests made on the value itself: x % 2, x & 1
	for _, t := range parTests[v.S] {
		f := s.fact(t.s)
		if f.Lo == f.Hi {
			return flip(uint8(f.Lo&1)+1, v.N-t.n)
		}
		if f.Lo >= 0 && f.Hi <= 1 {
			if r, k := s.evalCond(condEq(isym(t.s), iconst(1))); k {
				if r {
					return flip(2, v.N-t.n)
				}
				return flip(1, v.N-t.n)
			}
		}
	}
	p := uint8(0)
	switch si.Op {
	case "add", "sub", "xor":
		a, b := s.parity(si.Args[0]), s.parity(si.Args[1])
		if a != 0 && b != 0 {
			p = 1 + (a+b)&1
		}
	case "mul":
		a, b := s.parity(si.Args[0]), s.parity(si.Args[1])
		if a == 1 || b == 1 {
			p = 1
		} else if a == 2 && b == 2 {
			p = 2
		}
	case "and":
		if s.parity(si.Args[0]) == 1 || s.parity(si.Args[1]) == 1 {
			p = 1
		}
	case "andnot":
		if s.parity(si.Args[0]) == 1 || s.parity(si.Args[1]) == 2 {
			p = 1
		}
	case "or":
		if s.parity(si.Args[0]) == 2 || s.parity(si.Args[1]) == 2 {
			p = 2
		}
	case "shl":
		if si.Args[1].isConstInt() && si.Args[1].N > 0 {
			p = 1
		}
	case "conv":
		p = s.parity(si.Args[0])
	case "rem":
		if s.parity(si.Args[1]) == 1 {
			p = s.parity(si.Args[0])
		}
	}
	return flip(p, v.N)
}
