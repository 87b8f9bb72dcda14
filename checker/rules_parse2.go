package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S03", "On every edge of both parsing automata a number field changes only to zero or to ten times its previous value plus the digit read, computed without leaving the type's range; following the automaton, the digits of a run are all taken, in order, once each, starting from zero at the run's first digit.", checkS03)
}

// linear form: constant plus a coefficient per symbol
type linForm struct {
	k int64
	c map[Sym]int64
}

// linOf reads an integer as a linear form of input bytes and unknowns; wraps reports an operation
// whose result may leave its type.
func linOf(st *State, v Val) (r linForm, wraps, ok bool) {
	r.c = map[Sym]int64{}
	if v.K != KInt {
		return r, false, false
	}
	if v.S == 0 {
		r.k = v.N
		return r, false, true
	}
	si := syms[v.S]
	two := func(sign int64) bool {
		a, w1, o1 := linOf(st, si.Args[0])
		b, w2, o2 := linOf(st, si.Args[1])
		if !o1 || !o2 {
			return false
		}
		wraps = wraps || w1 || w2
		r.k = a.k + sign*b.k
		for s, n := range a.c {
			r.c[s] += n
		}
		for s, n := range b.c {
			r.c[s] += sign * n
		}
		return true
	}
	switch si.Op {
	case "add":
		if !two(1) {
			return r, wraps, false
		}
	case "sub":
		if !two(-1) {
			return r, wraps, false
		}
	case "mul", "shl":
		a, w1, o1 := linOf(st, si.Args[0])
		b, w2, o2 := linOf(st, si.Args[1])
		if !o1 || !o2 {
			return r, wraps, false
		}
		wraps = w1 || w2
		if si.Op == "shl" {
			if len(b.c) > 0 || b.k < 0 || b.k > 40 {
				return r, wraps, false
			}
			b = linForm{k: 1 << b.k}
		}
		if len(a.c) > 0 && len(b.c) > 0 {
			return r, wraps, false
		}
		if len(a.c) == 0 {
			a, b = b, a
		}
		r.k = a.k * b.k
		for s, n := range a.c {
			r.c[s] = n * b.k
		}
	case "conv":
		a, w, o := linOf(st, si.Args[0])
		if !o {
			return r, wraps, false
		}
		r, wraps = a, w
	default:
		r.c[v.S] = 1
		r.k = v.N
		return r, false, true
	}
	for s, n := range r.c {
		if n == 0 {
			delete(r.c, s)
		}
	}
	lo, hi, fin := r.rng(st)
	tlo, thi, isInt := typeRange(si.T)
	switch {
	case si.Op != "conv":
		wraps = wraps || mayWrap[v.S]
	case isInt && tlo != math.MinInt64 && (!fin || lo < tlo || hi > thi):
		l, h := st.rng(si.Args[0])
		wraps = wraps || l < tlo || h > thi
	}
	r.k += v.N
	return r, wraps, true
}

// rng: bounds of a linear form.
func (r linForm) rng(st *State) (lo, hi int64, ok bool) {
	lo, hi = r.k, r.k
	for s, n := range r.c {
		a, b := st.rng(isym(s))
		const big = 1 << 56
		if n < 0 {
			a, b = b, a
		}
		if a < -big || a > big || b < -big || b > big || n > 1000 || n < -1000 {
			return 0, 0, false
		}
		lo += n * a
		hi += n * b
	}
	return lo, hi, true
}

func typeRange(t types.Type) (lo, hi int64, ok bool) {
	if t == nil {
		return 0, 0, false
	}
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	case types.Int, types.Int64, types.UntypedInt:
		return -1 << 63, 1<<63 - 1, true
	}
	return 0, 1<<63 - 1, true
}

// what is known of a number at a cut
type numState struct {
	ph    int8 // 0 zero, 1 in a run of digits, 2 finished, 3 unknown
	delta int8 // in a run: where the last digit is, from the cursor
	prev  int8 // the byte before the cursor: 0 no digit, 1 perhaps a digit, 2 unknown
	here  int8 // the byte at the cursor, likewise
}

// a number the parser keeps: a register, or a field of what a register points to
type numKey struct {
	v     ssa.Value
	field string
}

type numItem struct {
	n *scanNode
	k numKey
	s numState
}

func digitsIn(set *[4]uint64) int8 {
	for b := int('0'); b <= '9'; b++ {
		if setHas(set, b) {
			return 1
		}
	}
	return 0
}

func onlyDigits(set *[4]uint64) bool {
	for b := 0; b < 256; b++ {
		if setHas(set, b) && (b < '0' || b > '9') {
			return false
		}
	}
	return true
}

// byteAt: the bytes possible at an offset from the node's cursor, on this edge.
func (n *scanNode) byteAt(ed *scanEdge, o int64) *[4]uint64 {
	if s := ed.look[o]; s != nil {
		return s
	}
	if o == 0 && n.facts != nil && n.facts.set != fullSet() {
		s := n.facts.set
		return &s
	}
	return nil
}

func (s *scan) numKeys(n *scanNode) []numKey {
	var r []numKey
	for _, v := range n.live {
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Uint8 && !s.cursor[v] && !s.consts[v] {
			if !s.once[v] {
				r = append(r, numKey{v, ""})
			}
		}
		if t := structOf(v); t != nil && !s.isAlias(v) {
			for _, f := range structFields(t) {
				if isInt(f.Type()) {
					r = append(r, numKey{v, f.Name()})
				}
			}
		}
	}
	return r
}

func (s *scan) isAlias(v ssa.Value) bool { return false }

// value reads a key's value from registers and heap.
func (k numKey) value(st *State, regs map[ssa.Value]Val) (Val, types.Type, bool) {
	x, ok := regs[k.v]
	if !ok {
		return undef, nil, false
	}
	if k.field == "" {
		return x, k.v.Type(), x.K == KInt
	}
	if st.nilness(x) != 2 {
		return undef, nil, false
	}
	l, ok := loc1(st, x)
	if !ok {
		return undef, nil, false
	}
	for _, f := range structFields(structOf(k.v)) {
		if f.Name() == k.field {
			return st.load(Loc{l.O, l.Path + "." + k.field}, f.Type()), f.Type(), true
		}
	}
	return undef, nil, false
}

func (k numKey) name() string {
	if k.field == "" {
		if ph, ok := k.v.(*ssa.Phi); ok && ph.Comment != "" {
			return ph.Comment
		}
		return k.v.Name()
	}
	return typeName(structOf(k.v)) + "." + k.field
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// numChange is what an edge does to the numbers.
type numChange struct {
	to   numKey
	kind int8 // 0 zero, 1 copy, 2 digit appended to from, 3 first digit, 4 unknown
	from numKey
	off  int64 // where the digit is
}

func (c *Check) numChanges(s *scan, n *scanNode, ed *scanEdge, numeric map[string]int) []numChange {
	var r []numChange
	entry := map[Sym]numKey{}
	zero := map[numKey]bool{}
	if n.entry != nil && len(n.entry.frames) > 0 {
		regs := n.entry.top().regs
		for _, k := range s.numKeys(n) {
			if v, _, ok := k.value(n.entry, regs); ok {
				if v.S != 0 && v.N == 0 {
					if _, dup := entry[v.S]; !dup {
						entry[v.S] = k
					}
				} else if v.isConstInt() && v.N == 0 {
					zero[k] = true
				}
			}
		}
	}
	for _, k := range s.numKeys(ed.to) {
		v, t, ok := k.value(ed.st, ed.env)
		if !ok {
			continue
		}
		ch := numChange{to: k, kind: 4}
		switch {
		case v.isConstInt() && v.N == 0:
			ch.kind = 0
		case v.isConstInt():
			if k.field != "" && (n != s.start) {
				c.fail("number", c.p.pos(s.edgePos(ed)), fmt.Sprintf("%s: %s", fnName(s.fn), k.name()), "is set to the constant %d rather than to the number read", v.N)
			}
		case v.S != 0 && v.N == 0 && entry[v.S].v != nil:
			ch.kind, ch.from = 1, entry[v.S]
		default:
			f, wraps, ok := linOf(ed.st, v)
			if !ok {
				if k.field != "" && s.readsByte(v, 0) {
					c.unsure("%s: %s is computed from the input in a way not understood at %s", fnName(s.fn), k.name(), c.p.pos(s.edgePos(ed)))
				}
				break
			}
			var at, old Sym
			other := false
			for x := range f.c {
				switch {
				case s.isByte(x) && at == 0:
					at = x
				case entry[x].v != nil && old == 0:
					old = x
				default:
					other = true
				}
			}
			if at == 0 {
				break
			}
			if k.field == "" && old == 0 && numeric[k.name()] == 0 && !(f.c[at] == 1 && f.k == -48) {
				break // something else
			}
			where := c.p.pos(s.edgePos(ed))
			what := fmt.Sprintf("%s: %s", fnName(s.fn), k.name())
			if other {
				c.unsure("%s: %s depends on other values at %s", fnName(s.fn), k.name(), where)
				break
			}
			idx, _ := s.byteIndex(at)
			off, okO := offsetFrom(idx, n.p)
			if !okO {
				c.unsure("%s: the digit of %s is not at the cursor at %s", fnName(s.fn), k.name(), where)
				break
			}
			if f.c[at] != 1 || f.k != -48 || old != 0 && f.c[old] != 10 {
				c.fail("number", where, what, "becomes %d times the previous value plus %d times the byte read plus %d, not ten times plus the digit", f.c[old], f.c[at], f.k)
				break
			}
			numeric[k.name()]++
			c.count("digits taken", 1)
			set := n.byteAt(ed, off)
			if set == nil {
				set = &[4]uint64{allBytes, allBytes, allBytes, allBytes}
				if ff := ed.st.facts[at]; ff != nil {
					b := byteSet(ff)
					set = &b
				}
			}
			if !onlyDigits(set) {
				c.fail("digit", where, what, "takes a byte that need not be a digit: %s", setText(set))
			}
			if !wraps {
				if lo, hi, fin := f.rng(ed.st); !fin {
					wraps = true
				} else if tl, th, okT := typeRange(t); okT && (lo < tl || hi > th) {
					l, h := ed.st.rng(v)
					wraps = l < tl || h > th
				}
			}
			if wraps {
				c.fail("wrap", where, what, "a further digit can carry the number beyond its type, so it is stored reduced (old value in %s)", rngText(ed.st, old))
			}
			ch.off = off
			if old != 0 {
				ch.kind, ch.from = 2, entry[old]
			} else {
				ch.kind = 3
			}
		}
		r = append(r, ch)
	}
	_ = zero
	return r
}

func rngText(st *State, s Sym) string {
	if s == 0 {
		return "0"
	}
	lo, hi := st.rng(isym(s))
	return fmt.Sprintf("%d..%d", lo, hi)
}

func setText(s *[4]uint64) string {
	r := ""
	for b := 0; b < 256; {
		if !setHas(s, b) {
			b++
			continue
		}
		e := b
		for e < 255 && setHas(s, e+1) {
			e++
		}
		if r != "" {
			r += ", "
		}
		r += fmt.Sprintf("%#02x", b)
		if e > b {
			r += fmt.Sprintf("-%#02x", e)
		}
		b = e + 1
	}
	return r
}

func (s *scan) isByte(x Sym) bool {
	_, ok := s.byteIndex(x)
	return ok
}

func (s *scan) readsByte(v Val, d int) bool {
	if d > 12 {
		return false
	}
	if v.S != 0 {
		if s.isByte(v.S) {
			return true
		}
		for _, a := range syms[v.S].Args {
			if s.readsByte(a, d+1) {
				return true
			}
		}
	}
	for _, a := range v.El {
		if s.readsByte(a, d+1) {
			return true
		}
	}
	return false
}

func checkS03(c *Check) {
	c.rules = append(c.rules, "number", "digit", "wrap", "run", "missing")
	got := map[string]int{}
	for _, s := range []*scan{c.msgScan(), c.uriScan()} {
		if s != nil {
			c.numbers(s, got)
		}
	}
	var names []string
	for k := range got {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		c.count("digits of "+k, got[k])
	}
	stored := map[string]bool{}
	for _, s := range []*scan{c.msgScan(), c.uriScan()} {
		if s == nil {
			return
		}
		for _, n := range s.order {
			for _, ed := range n.edges {
				for _, a := range ed.tape {
					if a.kind == "store" && a.vals[2].K == KInt && !a.vals[2].isConstInt() {
						stored[a.name] = true
					}
				}
			}
		}
	}
	for _, k := range []string{"Msg.VersionMajor", "Msg.VersionMinor", "Msg.Status", "Msg.CSeq", "Msg.Expires", "Msg.MaxForwards", "Msg.MinExpires", "Via.Port", "URI.Port"} {
		switch i := strings.Index(k, "."); {
		case got[k] > 0:
		case stored[k[i:]]:
			c.unsure("%s is not read digit by digit", k)
		default:
			c.fail("missing", "", k, "the number in the input is never stored")
		}
	}
}

func (c *Check) numbers(s *scan, got map[string]int) {
	seen := map[numItem]bool{}
	var work []numItem
	add := func(n *scanNode, k numKey, st numState) {
		it := numItem{n, k, st}
		if !seen[it] {
			seen[it] = true
			work = append(work, it)
		}
	}
	changes := map[*scanEdge][]numChange{}
	for _, n := range s.order {
		for _, ed := range n.edges {
			if ed.to != nil {
				changes[ed] = c.numChanges(s, n, ed, got)
			}
		}
	}
	reported := map[string]bool{}
	unsure := func(k numKey, ed *scanEdge, f string, a ...any) {
		m := fmt.Sprintf("%s: %s at %s: ", fnName(s.fn), k.name(), c.p.pos(s.edgePos(ed))) + fmt.Sprintf(f, a...)
		if !reported[m] {
			reported[m] = true
			c.unsure("%s", m)
		}
	}
	bad := func(k numKey, ed *scanEdge, f string, a ...any) {
		c.fail("run", c.p.pos(s.edgePos(ed)), fmt.Sprintf("%s: %s", fnName(s.fn), k.name()), f, a...)
	}
	pos := numKey{}
	add(s.start, pos, numState{ph: 0, prev: 0, here: 2})
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		for _, ed := range it.n.edges {
			if ed.to == nil {
				continue
			}
			flag := func(o int64) int8 { // digit at this offset from the node's cursor?
				if b := it.n.byteAt(ed, o); b != nil {
					return digitsIn(b)
				}
				switch o {
				case 0:
					return it.s.here
				case -1:
					return it.s.prev
				}
				return 2
			}
			d, known := offsetFrom(ed.p, it.n.p)
			nprev, nhere := int8(2), int8(2)
			if known {
				nprev, nhere = flag(d-1), flag(d)
			}
			if it.k == pos {
				add(ed.to, pos, numState{ph: 0, prev: nprev, here: nhere})
			}
			for _, ch := range changes[ed] {
				switch ch.kind {
				case 0:
					if it.k == pos {
						add(ed.to, ch.to, numState{ph: 0, prev: nprev, here: nhere})
					}
				case 3:
					if it.k != pos {
						break
					}
					switch flag(ch.off - 1) {
					case 1:
						bad(ch.to, ed, "is begun at a digit that need not be the first of its number")
					case 2:
						unsure(ch.to, ed, "the byte before the first digit is not known")
					}
					add(ed.to, ch.to, numState{ph: 1, delta: int8(ch.off - d)})
				case 4:
					if it.k == pos {
						add(ed.to, ch.to, numState{ph: 3, prev: nprev, here: nhere})
					}
				case 1, 2:
					if it.k != ch.from {
						break
					}
					switch it.s.ph {
					case 0, 2, 3:
						if ch.kind == 1 {
							add(ed.to, ch.to, numState{ph: it.s.ph, prev: nprev, here: nhere})
							break
						}
						switch {
						case it.s.ph == 2:
							bad(ch.to, ed, "digits are appended to a number read earlier")
						case it.s.ph == 3:
							unsure(ch.to, ed, "the value before the first digit is not known")
						case flag(ch.off-1) == 1:
							bad(ch.to, ed, "is begun at a digit that need not be the first of its number")
						case flag(ch.off-1) == 2:
							unsure(ch.to, ed, "the byte before the first digit is not known")
						}
						add(ed.to, ch.to, numState{ph: 1, delta: int8(ch.off - d)})
					case 1:
						next := int64(it.s.delta) + 1
						if ch.kind == 2 {
							if ch.off != next {
								bad(ch.to, ed, "takes the byte %d after the previous digit", ch.off-int64(it.s.delta))
							}
							add(ed.to, ch.to, numState{ph: 1, delta: int8(ch.off - d)})
							break
						}
						set := it.n.byteAt(ed, next)
						switch {
						case set != nil && digitsIn(set) == 0:
							add(ed.to, ch.to, numState{ph: 2, prev: nprev, here: nhere})
						case !known:
							unsure(ch.to, ed, "the cursor moves to an unknown place within a number")
						case d > next:
							bad(ch.to, ed, "a digit of the number is passed over")
						default:
							if int64(it.s.delta)-d < -100 {
								break
							}
							add(ed.to, ch.to, numState{ph: 1, delta: int8(int64(it.s.delta) - d)})
						}
					}
				}
			}
		}
	}
	c.count("number states", len(seen))
}
