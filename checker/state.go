package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fact is what a state knows about one symbol.  Facts are immutable.
type Fact struct {
	Nil    uint8 // 0 unknown, 1 nil, 2 non-nil
	HasPts bool
	Pts    []Loc // targets when non-nil
	Alts   []Val // concrete interface alternatives when non-nil (nil: unknown)
	Lo, Hi int64
	Set    *[4]uint64 // membership for values 0..255, when known
	HasIn  bool
	In     []string // string is one of these
	Out    []string // string is none of these
	B      uint8    // 0 unknown, 1 false, 2 true
	Par    uint8    // 0 unknown, 1 even, 2 odd
}

// typeInvariant supplies default facts for initial contents.
var typeInvariant func(s Sym, si *symInfo) *Fact

var defFacts = map[Sym]*Fact{}

func defaultFact(s Sym) *Fact {
	if f, ok := defFacts[s]; ok {
		return f
	}
	si := syms[s]
	f := &Fact{}
	f.Lo, f.Hi = symRange(s)
	if typeInvariant != nil {
		if g := typeInvariant(s, si); g != nil {
			f = g
			if f.Lo == 0 && f.Hi == 0 {
				f.Lo, f.Hi = symRange(s)
			}
		}
	}
	if si.T != nil {
		if ar, ok := si.T.Underlying().(*types.Array); ok {
			_ = ar
			f.Nil = 2
		}
	}
	defFacts[s] = f
	return f
}

// OState is the contents of an object in one state.
type OState struct {
	cells map[string]Val
	ver   int // bumped when unknown parts were overwritten from outside
	owner *State
}

// Deferred is a deferred call.
type Deferred struct {
	call *ssa.Defer
	fn   Val
	args []Val
}

// Frame is one activation.
type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []Deferred
	ctx    string
	call   ssa.Instruction
	keep   []*Obj
	owner  *State
}

// Mon is rule-specific state carried along paths.
type Mon struct {
	Key  string         // partition key
	Vals map[string]Val // joined like registers
}

// State is one abstract state.
type State struct {
	frames []*Frame
	heap   map[*Obj]*OState
	facts  map[Sym]*Fact
	zone   map[[2]Sym]int64
	mon    *Mon
	ret    Val
	prev   ssa.Instruction // for diagnostics: last recorded branch
	note   string
}

func newState() *State {
	return &State{heap: map[*Obj]*OState{}, facts: map[Sym]*Fact{}, zone: map[[2]Sym]int64{}, mon: &Mon{}}
}

func (s *State) clone() *State {
	n := &State{mon: s.mon, ret: s.ret, prev: s.prev, note: s.note}
	n.frames = append([]*Frame(nil), s.frames...)
	n.heap = make(map[*Obj]*OState, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
		v.owner = nil
	}
	for _, f := range s.frames {
		f.owner = nil
	}
	n.facts = make(map[Sym]*Fact, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.zone = make(map[[2]Sym]int64, len(s.zone))
	for k, v := range s.zone {
		n.zone[k] = v
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) wtop() *Frame {
	f := s.top()
	if f.owner != s {
		g := &Frame{fn: f.fn, ctx: f.ctx, call: f.call, owner: s, keep: f.keep}
		g.regs = make(map[ssa.Value]Val, len(f.regs)+8)
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.defers = append([]Deferred(nil), f.defers...)
		s.frames[len(s.frames)-1] = g
		return g
	}
	return f
}

func (s *State) setReg(v ssa.Value, x Val) { s.wtop().regs[v] = x }

func (s *State) setMon(key string) {
	m := &Mon{Key: key, Vals: map[string]Val{}}
	for k, v := range s.mon.Vals {
		m.Vals[k] = v
	}
	s.mon = m
}
func (s *State) monVal(name string) (Val, bool) { v, ok := s.mon.Vals[name]; return v, ok }
func (s *State) setMonVal(name string, v Val) {
	s.setMon(s.mon.Key)
	s.mon.Vals[name] = v
}
func (s *State) delMonVal(name string) {
	s.setMon(s.mon.Key)
	delete(s.mon.Vals, name)
}

func (s *State) fact(x Sym) *Fact {
	if f, ok := s.facts[x]; ok {
		return f
	}
	return defaultFact(x)
}

func (s *State) updFact(x Sym, f func(*Fact)) {
	n := *s.fact(x)
	f(&n)
	s.facts[x] = &n
}

// ---- integers ----

func addSat(a, b int64) int64 {
	if a == math.MinInt64 || b == math.MinInt64 {
		if a > 0 && a == math.MaxInt64 || b == math.MaxInt64 {
			return 0
		}
		return math.MinInt64
	}
	if a == math.MaxInt64 || b == math.MaxInt64 {
		return math.MaxInt64
	}
	c := a + b
	if a > 0 && b > 0 && c < 0 {
		return math.MaxInt64
	}
	if a < 0 && b < 0 && c >= 0 {
		return math.MinInt64
	}
	return c
}

func negSat(a int64) int64 {
	if a == math.MinInt64 {
		return math.MaxInt64
	}
	if a == math.MaxInt64 {
		return math.MinInt64
	}
	return -a
}

func mulSat(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		if (a < 0) == (b < 0) {
			return math.MaxInt64
		}
		return math.MinInt64
	}
	return c
}

// rng returns the interval of an integer value, without relational help.
func (s *State) rng(v Val) (int64, int64) {
	if v.K != KInt {
		return math.MinInt64, math.MaxInt64
	}
	if v.S == 0 {
		return v.N, v.N
	}
	f := s.fact(v.S)
	return addSat(f.Lo, v.N), addSat(f.Hi, v.N)
}

// diffUB returns an upper bound on x - y for symbols (0 = the number zero).
func (s *State) diffUB(x, y Sym) int64 {
	r := s.diffUB0(x, y)
	// the result of a search in a string is bounded by its length
	if x != 0 {
		if si := syms[x]; strings.HasPrefix(si.Op, "strings.") && strings.Contains(si.Op, "Index") && len(si.Args) == 2 && si.Args[0].K == KStr {
			w := int64(1)
			if n := si.Args[1]; n.isConstStr() && strings.HasSuffix(si.Op, "Index") {
				w = int64(len(n.Str))
			}
			l := s.strLen(si.Args[0])
			// x <= len - w when found; x = -1 otherwise
			if lo, _ := s.rng(isym(x)); lo >= 0 || w <= 1 {
				if l.S != x {
					if d := addSat(addSat(s.diffUB0(l.S, y), l.N), -w); d < r {
						r = d
					}
				}
			}
		}
	}
	return r
}

func (s *State) diffUB0(x, y Sym) int64 {
	if x == y {
		return 0
	}
	hi := func(a Sym) int64 {
		if a == 0 {
			return 0
		}
		return s.fact(a).Hi
	}
	lo := func(a Sym) int64 {
		if a == 0 {
			return 0
		}
		return s.fact(a).Lo
	}
	best := addSat(hi(x), negSat(lo(y)))
	if len(s.zone) == 0 {
		return best
	}
	// Bellman-Ford from y: dist[a] = upper bound on a - y.
	dist := map[Sym]int64{y: 0}
	get := func(a Sym) int64 {
		if d, ok := dist[a]; ok {
			return d
		}
		return math.MaxInt64
	}
	if y != 0 {
		dist[0] = negSat(lo(y)) // 0 - y <= -lo(y)
	}
	for n := 0; n < 8; n++ {
		ch := false
		for k, b := range s.zone {
			d := get(k[1])
			if d == math.MaxInt64 {
				continue
			}
			if nd := addSat(d, b); nd < get(k[0]) {
				dist[k[0]] = nd
				ch = true
			}
		}
		// through zero
		if d0 := get(0); d0 != math.MaxInt64 {
			for k := range s.zone {
				for _, a := range k {
					if nd := addSat(d0, hi(a)); a != 0 && nd < get(a) && hi(a) != math.MaxInt64 {
						dist[a] = nd
						ch = true
					}
				}
			}
		}
		for a, d := range dist {
			if a == 0 || lo(a) == math.MinInt64 {
				continue
			}
			if nd := addSat(d, negSat(lo(a))); nd < get(0) {
				dist[0] = nd
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	if d := get(x); d < best {
		best = d
	}
	if x != 0 && hi(x) != math.MaxInt64 {
		if d0 := get(0); d0 != math.MaxInt64 {
			if nd := addSat(d0, hi(x)); nd < best {
				best = nd
			}
		}
	}
	return best
}

// subUB returns an upper bound on a - b.
func (s *State) subUB(a, b Val) int64 {
	return addSat(s.diffUB(a.S, b.S), addSat(a.N, negSat(b.N)))
}

func (s *State) leq(a, b Val) bool { return s.subUB(a, b) <= 0 }
func (s *State) lt(a, b Val) bool  { return s.subUB(a, b) < 0 }

// addDiff assumes a - b <= c.  Reports feasibility.
func (s *State) addDiff(a, b Val, c int64) bool {
	// a.S - b.S <= c - a.N + b.N
	c = addSat(c, addSat(negSat(a.N), b.N))
	x, y := a.S, b.S
	if x == y {
		return c >= 0
	}
	if addSat(s.diffUB(y, x), c) < 0 && s.diffUB(y, x) != math.MaxInt64 {
		return false
	}
	switch {
	case y == 0:
		if !s.setHi(x, c) {
			return false
		}
	case x == 0:
		if !s.setLo(y, negSat(c)) {
			return false
		}
	default:
		fx, fy := s.fact(x), s.fact(y)
		if addSat(fx.Hi, negSat(fy.Lo)) > c {
			k := [2]Sym{x, y}
			if o, ok := s.zone[k]; !ok || c < o {
				s.zone[k] = c
			}
		}
		if h := addSat(fy.Hi, c); h < fx.Hi {
			if !s.setHi(x, h) {
				return false
			}
		}
		if l := addSat(fx.Lo, negSat(c)); l > fy.Lo {
			if !s.setLo(y, l) {
				return false
			}
		}
	}
	return true
}

func (s *State) setHi(x Sym, h int64) bool {
	f := s.fact(x)
	if h >= f.Hi {
		return true
	}
	s.updFact(x, func(f *Fact) { f.Hi = h; trimSet(f) })
	f = s.fact(x)
	if f.Lo > f.Hi {
		return false
	}
	s.lenLink(x)
	for k, c := range s.zone {
		if k[1] == x { // a - x <= c  =>  a <= hi + c
			if !s.setHi(k[0], addSat(f.Hi, c)) {
				return false
			}
		}
	}
	return true
}

func (s *State) setLo(x Sym, l int64) bool {
	f := s.fact(x)
	if l <= f.Lo {
		return true
	}
	s.updFact(x, func(f *Fact) { f.Lo = l; trimSet(f) })
	f = s.fact(x)
	if f.Lo > f.Hi {
		return false
	}
	s.lenLink(x)
	for k, c := range s.zone {
		if k[0] == x { // x - b <= c  =>  b >= lo - c
			if !s.setLo(k[1], addSat(f.Lo, negSat(c))) {
				return false
			}
		}
	}
	return true
}

func trimSet(f *Fact) {
	if f.Set == nil {
		return
	}
	n := *f.Set
	any := false
	for i := int64(0); i < 256; i++ {
		if n[i/64]&(1<<(i%64)) != 0 {
			if i < f.Lo || i > f.Hi {
				n[i/64] &^= 1 << (i % 64)
			} else {
				any = true
			}
		}
	}
	f.Set = &n
	if !any {
		f.Lo, f.Hi = 1, 0
	}
}

// lenLink propagates between a string and its length.
func (s *State) lenLink(x Sym) {
	si := syms[x]
	if si.Op != "len" || len(si.Args) != 1 || si.Args[0].K != KStr || si.Args[0].S == 0 {
		return
	}
	f := s.fact(x)
	y := si.Args[0].S
	if f.Lo > 0 {
		s.strExclude(y, "")
	}
	if f.Hi == 0 {
		s.strRequire(y, "")
	}
}

func hasStr(l []string, x string) bool {
	for _, e := range l {
		if e == x {
			return true
		}
	}
	return false
}

func (s *State) strExclude(x Sym, c string) bool {
	f := s.fact(x)
	if f.HasIn {
		var in []string
		for _, e := range f.In {
			if e != c {
				in = append(in, e)
			}
		}
		if len(in) == len(f.In) {
			return true
		}
		s.updFact(x, func(f *Fact) { f.In = in })
		return len(in) > 0
	}
	if hasStr(f.Out, c) {
		return true
	}
	s.updFact(x, func(f *Fact) {
		f.Out = append(append([]string(nil), f.Out...), c)
		sort.Strings(f.Out)
	})
	if c == "" {
		if !s.setLo(s.lenSym(x), 1) {
			return false
		}
	}
	return true
}

func (s *State) strRequire(x Sym, c string) bool {
	f := s.fact(x)
	if f.HasIn && !hasStr(f.In, c) || hasStr(f.Out, c) {
		return false
	}
	if f.HasIn && len(f.In) == 1 {
		return true
	}
	s.updFact(x, func(f *Fact) { f.HasIn = true; f.In = []string{c}; f.Out = nil })
	n := int64(len(c))
	l := s.lenSym(x)
	return s.setLo(l, n) && s.setHi(l, n)
}

func (s *State) lenSym(x Sym) Sym { return term("len", lenType, ssym(x)) }

func (s *State) strLen(v Val) Val {
	if v.S == 0 {
		return iconst(int64(len(v.Str)))
	}
	si := syms[v.S]
	// bytes-to-string conversions carry their length.
	if si.Op == "str" && len(si.Args) == 1 && si.Args[0].K == KSlice {
		return si.Args[0].El[2]
	}
	if si.Op == "substr" && len(si.Args) == 3 {
		hi, lo := si.Args[2], si.Args[1]
		if lo.S == hi.S {
			return iconst(hi.N - lo.N)
		}
		if lo.isConstInt() {
			return Val{K: KInt, S: hi.S, N: hi.N - lo.N}
		}
	}
	f := s.fact(v.S)
	if f.HasIn && len(f.In) == 1 {
		return iconst(int64(len(f.In[0])))
	}
	return isym(s.lenSym(v.S))
}

// ---- booleans ----

func (s *State) boolSym(v Val) Val { // turn a condition into a boolean symbol or constant
	if v.K != KCond {
		return v
	}
	if c, ok := s.evalCond(v); ok {
		return bconst(c)
	}
	return bsym(s.condSym(v))
}

func (s *State) condSym(v Val) Sym {
	x, y := v.El[0], v.El[1]
	op := v.Op
	switch op { // normalise
	case token.GTR:
		x, y, op = y, x, token.LSS
	case token.GEQ:
		x, y, op = y, x, token.LEQ
	}
	if op == token.EQL || op == token.NEQ {
		if valKey(x) > valKey(y) {
			x, y = y, x
		}
	}
	return term(op.String(), types.Typ[types.Bool], x, y)
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	}
	return op
}

// evalCond decides a condition from the facts when possible.
func (s *State) evalCond(v Val) (res, known bool) {
	switch v.K {
	case KBool:
		if v.S == 0 {
			return v.N != 0, true
		}
		switch s.fact(v.S).B {
		case 1:
			return false, true
		case 2:
			return true, true
		}
		return false, false
	case KCond:
	default:
		return false, false
	}
	x, y := v.El[0], v.El[1]
	switch {
	case x.K == KInt && y.K == KInt:
		if r, k := s.enumCond(v); k {
			return r, true
		}
		switch v.Op {
		case token.LSS:
			if s.lt(x, y) {
				return true, true
			}
			if s.leq(y, x) {
				return false, true
			}
		case token.LEQ:
			if s.leq(x, y) {
				return true, true
			}
			if s.lt(y, x) {
				return false, true
			}
		case token.GTR:
			if s.lt(y, x) {
				return true, true
			}
			if s.leq(x, y) {
				return false, true
			}
		case token.GEQ:
			if s.leq(y, x) {
				return true, true
			}
			if s.lt(x, y) {
				return false, true
			}
		case token.EQL, token.NEQ:
			eq := v.Op == token.EQL
			if s.lt(x, y) || s.lt(y, x) {
				return !eq, true
			}
			if s.leq(x, y) && s.leq(y, x) {
				return eq, true
			}
		}
	case v.Op == token.EQL || v.Op == token.NEQ:
		if r, k := s.sameVal(x, y); k {
			return r == (v.Op == token.EQL), true
		}
	}
	op := v.Op
	f := s.fact(s.condSym(v))
	if f.B != 0 {
		return f.B == 2, true
	}
	f = s.fact(s.condSym(Val{K: KCond, Op: negOp(op), El: v.El}))
	if f.B != 0 {
		return f.B == 1, true
	}
	return false, false
}

func isNilable(v Val) bool {
	return v.K == KPtr || v.K == KNil || v.K == KSlice || v.K == KIface || v.K == KFunc
}

// nilness: 0 unknown, 1 nil, 2 non-nil.
func (s *State) nilness(v Val) uint8 {
	switch v.K {
	case KNil:
		return 1
	case KPtr:
		if v.S == 0 {
			return 2
		}
		return s.fact(v.S).Nil
	case KSlice:
		return s.nilness(v.El[0])
	case KIface:
		if v.S == 0 {
			return 2
		}
		return s.fact(v.S).Nil
	case KFunc:
		if v.S == 0 {
			return 2
		}
		return s.fact(v.S).Nil
	}
	return 0
}

// sameVal decides equality of non-integer values when possible.
func (s *State) sameVal(x, y Val) (bool, bool) {
	if x.K == KNil || y.K == KNil {
		o := x
		if x.K == KNil {
			o = y
		}
		switch s.nilness(o) {
		case 1:
			return true, true
		case 2:
			return false, true
		}
		return false, false
	}
	switch {
	case x.K == KStr && y.K == KStr:
		if x.S == 0 && y.S == 0 {
			return x.Str == y.Str, true
		}
		if x.S == y.S {
			return true, true
		}
		if x.S == 0 {
			x, y = y, x
		}
		fx := s.fact(x.S)
		if y.S == 0 {
			if fx.HasIn {
				if !hasStr(fx.In, y.Str) {
					return false, true
				}
				if len(fx.In) == 1 {
					return true, true
				}
			}
			if hasStr(fx.Out, y.Str) {
				return false, true
			}
			l := s.strLen(x)
			lo, hi := s.rng(l)
			if int64(len(y.Str)) < lo || int64(len(y.Str)) > hi {
				return false, true
			}
			return false, false
		}
		fy := s.fact(y.S)
		if fx.HasIn && fy.HasIn {
			common := false
			for _, a := range fx.In {
				if hasStr(fy.In, a) {
					common = true
				}
			}
			if !common {
				return false, true
			}
			if len(fx.In) == 1 && len(fy.In) == 1 {
				return true, true
			}
		}
	case x.K == KPtr && y.K == KPtr:
		if x.S != 0 && x.S == y.S && len(x.El) == 0 && len(y.El) == 0 {
			return true, true
		}
		if len(x.El) > 0 || len(y.El) > 0 {
			return false, false
		}
		px, okx := s.ptsOf(x)
		py, oky := s.ptsOf(y)
		if okx && oky {
			common := false
			for _, a := range px {
				for _, b := range py {
					if a == b {
						common = true
					}
				}
			}
			if !common && s.nilness(x) == 2 && s.nilness(y) == 2 {
				return false, true
			}
			if !common && (s.nilness(x) == 2 || s.nilness(y) == 2) {
				return false, true
			}
			if common && len(px) == 1 && len(py) == 1 && !px[0].O.Summary && s.nilness(x) == 2 && s.nilness(y) == 2 {
				return true, true
			}
		}
	case (x.K == KBool || x.K == KCond) && (y.K == KBool || y.K == KCond):
		a, oka := s.evalCond(x)
		b, okb := s.evalCond(y)
		if oka && okb {
			return a == b, true
		}
	case x.K == KIface && y.K == KIface:
		if x.S == 0 && y.S == 0 {
			if !types.Identical(x.T, y.T) {
				return false, true
			}
			return s.sameVal(x.El[0], y.El[0])
		}
		if x.S != 0 && x.S == y.S {
			return true, true
		}
	case x.K == KStruct && y.K == KStruct && len(x.El) == len(y.El):
		all := true
		for i := range x.El {
			var r, k bool
			if x.El[i].K == KInt {
				r, k = s.evalCond(cond(token.EQL, x.El[i], y.El[i]))
			} else {
				r, k = s.sameVal(x.El[i], y.El[i])
			}
			if k && !r {
				return false, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	return false, false
}

func (s *State) ptsOf(v Val) ([]Loc, bool) {
	if v.K != KPtr {
		return nil, false
	}
	if v.S == 0 {
		return []Loc{v.L}, true
	}
	f := s.fact(v.S)
	if f.HasPts {
		return f.Pts, true
	}
	return nil, false
}

// assume refines the state with a condition's truth value.  It returns false
// when the combination is impossible.
func (s *State) assume(v Val, want bool) bool {
	if r, k := s.evalCond(v); k {
		return r == want
	}
	switch v.K {
	case KBool:
		s.updFact(v.S, func(f *Fact) {
			if want {
				f.B = 2
			} else {
				f.B = 1
			}
		})
		return s.expandBool(v.S, want)
	case KCond:
	default:
		return true
	}
	op := v.Op
	if !want {
		op = negOp(op)
	}
	x, y := v.El[0], v.El[1]
	if x.K == KInt && y.K == KInt {
		if !s.enumFilter(x, y, op) {
			return false
		}
		switch op {
		case token.LSS:
			return s.addDiff(x, y, -1)
		case token.LEQ:
			return s.addDiff(x, y, 0)
		case token.GTR:
			return s.addDiff(y, x, -1)
		case token.GEQ:
			return s.addDiff(y, x, 0)
		case token.EQL:
			return s.addDiff(x, y, 0) && s.addDiff(y, x, 0)
		case token.NEQ:
			if y.S != 0 && x.S == 0 {
				x, y = y, x
			}
			if y.S == 0 && x.S != 0 {
				n := y.N - x.N
				f := s.fact(x.S)
				if f.Lo == n {
					return s.setLo(x.S, n+1)
				}
				if f.Hi == n {
					return s.setHi(x.S, n-1)
				}
				if f.Set != nil {
					return true
				}
			}
			if x.S != 0 && y.S != 0 {
				if s.subUB(x, y) == 0 {
					return s.addDiff(x, y, -1)
				}
				if s.subUB(y, x) == 0 {
					return s.addDiff(y, x, -1)
				}
			}
			s.updFact(s.condSym(cond(token.NEQ, x, y)), func(f *Fact) { f.B = 2 })
		}
		return true
	}
	eq := op == token.EQL
	if op != token.EQL && op != token.NEQ {
		s.updFact(s.condSym(v), func(f *Fact) { f.B = 2 })
		if !want {
			s.updFact(s.condSym(v), func(f *Fact) { f.B = 1 })
		}
		return true
	}
	if x.K == KNil {
		x, y = y, x
	}
	if y.K == KNil {
		return s.assumeNil(x, eq)
	}
	switch {
	case x.K == KStr && y.K == KStr:
		if x.S == 0 {
			x, y = y, x
		}
		if y.S == 0 {
			if eq {
				return s.strRequire(x.S, y.Str)
			}
			return s.strExclude(x.S, y.Str)
		}
		if eq {
			fx, fy := s.fact(x.S), s.fact(y.S)
			switch {
			case fx.HasIn && fy.HasIn:
				var in []string
				for _, a := range fx.In {
					if hasStr(fy.In, a) {
						in = append(in, a)
					}
				}
				s.updFact(x.S, func(f *Fact) { f.In = in })
				s.updFact(y.S, func(f *Fact) { f.In = in })
			case fx.HasIn:
				if !s.inherit(y.S, fx) {
					return false
				}
			case fy.HasIn:
				if !s.inherit(x.S, fy) {
					return false
				}
			default:
				for _, o := range fx.Out {
					s.strExclude(y.S, o)
				}
				for _, o := range fy.Out {
					s.strExclude(x.S, o)
				}
			}
		}
	case x.K == KPtr && y.K == KPtr && eq && len(x.El) == 0 && len(y.El) == 0:
		px, okx := s.ptsOf(x)
		py, oky := s.ptsOf(y)
		if okx && oky && s.nilness(x) == 2 && s.nilness(y) == 2 {
			var c []Loc
			for _, a := range px {
				for _, b := range py {
					if a == b {
						c = append(c, a)
					}
				}
			}
			for _, p := range []Val{x, y} {
				if p.S != 0 {
					s.updFact(p.S, func(f *Fact) { f.HasPts = true; f.Pts = c })
				}
			}
		}
	case x.K == KPtr && y.K == KPtr && !eq:
		for i, p := range []Val{x, y} {
			q := y
			if i == 1 {
				q = x
			}
			pq, ok := s.ptsOf(q)
			pp, okp := s.ptsOf(p)
			if ok && okp && len(pq) == 1 && p.S != 0 && s.nilness(q) == 2 && !pq[0].O.Summary {
				var c []Loc
				for _, a := range pp {
					if a != pq[0] {
						c = append(c, a)
					}
				}
				s.updFact(p.S, func(f *Fact) { f.Pts = c })
			}
		}
	}
	s.updFact(s.condSym(cond(token.EQL, x, y)), func(f *Fact) {
		if eq {
			f.B = 2
		} else {
			f.B = 1
		}
	})
	return true
}

func (s *State) inherit(x Sym, g *Fact) bool {
	f := s.fact(x)
	var in []string
	for _, a := range g.In {
		if !hasStr(f.Out, a) {
			in = append(in, a)
		}
	}
	s.updFact(x, func(f *Fact) { f.HasIn = true; f.In = in; f.Out = nil })
	return len(in) > 0
}

// expandBool: a boolean symbol that is a comparison term also refines its operands.
func (s *State) expandBool(x Sym, want bool) bool {
	si := syms[x]
	var op token.Token
	switch si.Op {
	case "==":
		op = token.EQL
	case "!=":
		op = token.NEQ
	case "<":
		op = token.LSS
	case "<=":
		op = token.LEQ
	case "!":
		return s.assume(si.Args[0], !want)
	case "prefix", "suffix", "contains":
		// the shorter string is no longer than the longer one
		if a, b := si.Args[0], si.Args[1]; want && a.K == KStr && b.K == KStr {
			return s.addDiff(s.strLen(b), s.strLen(a), 0)
		}
		return true
	case "b2i":
		return true
	default:
		return true
	}
	c := cond(op, si.Args[0], si.Args[1])
	save := s.facts[x]
	delete(s.facts, x)
	ok := s.assume(c, want)
	s.facts[x] = save
	return ok
}

func (s *State) assumeNil(x Val, isNil bool) bool {
	switch s.nilness(x) {
	case 1:
		return isNil
	case 2:
		return !isNil
	}
	if x.K == KSlice {
		if !s.assumeNil(x.El[0], isNil) {
			return false
		}
		if isNil {
			for _, l := range x.El[2:4] {
				if !s.addDiff(l, iconst(0), 0) {
					return false
				}
			}
		}
		return true
	}
	if x.S == 0 {
		return true
	}
	s.updFact(x.S, func(f *Fact) {
		if isNil {
			f.Nil = 1
			f.HasPts, f.Pts, f.Alts = true, nil, nil
		} else {
			f.Nil = 2
		}
	})
	f := s.fact(x.S)
	if !isNil && f.HasPts && len(f.Pts) == 0 && x.K == KPtr {
		return false
	}
	if si := syms[x.S]; si.Op == "errof" {
		// linked nilness: errof(p) is nil exactly when p is non-nil
	}
	return true
}

// enumCond / enumFilter: exact reasoning about conditions over one small-range symbol.
func (s *State) smallLeaf(x, y Val) (Sym, bool) {
	var leaf Sym
	ok := true
	n := 0
	var walk func(v Val)
	walk = func(v Val) {
		if !ok {
			return
		}
		if v.S != 0 {
			si := syms[v.S]
			n++
			if n > 40 {
				ok = false
				return
			}
			if si.Op == "table" && tables[v.S] != nil || si.Op == "sat" && si.Args[0].isConstStr() {
				walk(si.Args[1])
			} else if pureOp[si.Op] {
				for _, a := range si.Args {
					walk(a)
				}
			} else {
				f := s.fact(v.S)
				if f.Lo < 0 || f.Hi > 255 {
					ok = false
					return
				}
				if leaf != 0 && leaf != v.S {
					ok = false
					return
				}
				leaf = v.S
			}
		}
	}
	walk(x)
	walk(y)
	return leaf, ok && leaf != 0
}

// tables are constant arrays read through a symbolic index.
var tables = map[Sym]map[int64]int64{}

var pureOp = map[string]bool{"add": true, "sub": true, "mul": true, "quo": true, "rem": true, "and": true, "or": true, "xor": true, "shl": true, "shr": true, "conv": true, "andnot": true}

func (s *State) inSet(f *Fact, i int64) bool {
	if i < f.Lo || i > f.Hi {
		return false
	}
	return f.Set == nil || f.Set[i/64]&(1<<(i%64)) != 0
}

func evalTerm(v Val, leaf Sym, n int64) (int64, bool) {
	if v.K != KInt {
		return 0, false
	}
	if v.S == 0 {
		return v.N, true
	}
	if v.S == leaf {
		return n + v.N, true
	}
	si := syms[v.S]
	if si.Op == "table" {
		i, ok := evalTerm(si.Args[1], leaf, n)
		r, known := tables[v.S][i]
		return r + v.N, ok && known
	}
	if si.Op == "sat" && si.Args[0].isConstStr() {
		i, ok := evalTerm(si.Args[1], leaf, n)
		if !ok || i < 0 || i >= int64(len(si.Args[0].Str)) {
			return 0, false
		}
		return int64(si.Args[0].Str[i]) + v.N, true
	}
	var a [2]int64
	for i, x := range si.Args {
		if i > 1 {
			break
		}
		r, ok := evalTerm(x, leaf, n)
		if !ok {
			return 0, false
		}
		a[i] = r
	}
	r, ok := concreteOp(si.Op, a[0], a[1], si.T)
	return r + v.N, ok
}

func wrapTo(x int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return x
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(x))
	case types.Uint8:
		return int64(uint8(x))
	case types.Int16:
		return int64(int16(x))
	case types.Uint16:
		return int64(uint16(x))
	case types.Int32:
		return int64(int32(x))
	case types.Uint32:
		return int64(uint32(x))
	}
	return x
}

func concreteOp(op string, a, b int64, t types.Type) (int64, bool) {
	unsigned64 := false
	if bt, ok := t.Underlying().(*types.Basic); ok && (bt.Kind() == types.Uint64 || bt.Kind() == types.Uint || bt.Kind() == types.Uintptr) {
		unsigned64 = true
	}
	switch op {
	case "add":
		return wrapTo(a+b, t), true
	case "sub":
		return wrapTo(a-b, t), true
	case "mul":
		return wrapTo(a*b, t), true
	case "quo":
		if b == 0 {
			return 0, false
		}
		if unsigned64 {
			return int64(uint64(a) / uint64(b)), true
		}
		return wrapTo(a/b, t), true
	case "rem":
		if b == 0 {
			return 0, false
		}
		if unsigned64 {
			return int64(uint64(a) % uint64(b)), true
		}
		return a % b, true
	case "and":
		return a & b, true
	case "or":
		return a | b, true
	case "xor":
		return wrapTo(a^b, t), true
	case "andnot":
		return a &^ b, true
	case "shl":
		if b < 0 {
			return 0, false
		}
		if b >= 64 {
			return 0, true
		}
		return wrapTo(a<<uint(b), t), true
	case "shr":
		if b < 0 {
			return 0, false
		}
		if b >= 64 {
			if a < 0 && !unsigned64 {
				return -1, true
			}
			return 0, true
		}
		if unsigned64 {
			return int64(uint64(a) >> uint(b)), true
		}
		return a >> uint(b), true
	case "conv":
		return wrapTo(a, t), true
	}
	return 0, false
}

func cmpInt(op token.Token, a, b int64) bool {
	switch op {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	case token.EQL:
		return a == b
	}
	return a != b
}

func (s *State) enumCond(v Val) (bool, bool) {
	x, y := v.El[0], v.El[1]
	leaf, ok := s.smallLeaf(x, y)
	if !ok {
		return false, false
	}
	f := s.fact(leaf)
	var t, fl bool
	for i := f.Lo; i <= f.Hi; i++ {
		if !s.inSet(f, i) {
			continue
		}
		a, ok1 := evalTerm(x, leaf, i)
		b, ok2 := evalTerm(y, leaf, i)
		if !ok1 || !ok2 {
			return false, false
		}
		if cmpInt(v.Op, a, b) {
			t = true
		} else {
			fl = true
		}
		if t && fl {
			return false, false
		}
	}
	if t != fl {
		return t, true
	}
	return false, false
}

func (s *State) enumFilter(x, y Val, op token.Token) bool {
	leaf, ok := s.smallLeaf(x, y)
	if !ok {
		return true
	}
	f := s.fact(leaf)
	var set [4]uint64
	lo, hi := int64(-1), int64(-1)
	for i := f.Lo; i <= f.Hi; i++ {
		if !s.inSet(f, i) {
			continue
		}
		a, ok1 := evalTerm(x, leaf, i)
		b, ok2 := evalTerm(y, leaf, i)
		if !ok1 || !ok2 {
			return true
		}
		if cmpInt(op, a, b) {
			set[i/64] |= 1 << (i % 64)
			if lo < 0 {
				lo = i
			}
			hi = i
		}
	}
	if lo < 0 {
		return false
	}
	if !s.setLo(leaf, lo) || !s.setHi(leaf, hi) {
		return false
	}
	s.updFact(leaf, func(f *Fact) { f.Set = &set })
	return true
}

// ---- heap ----

var symObjs = map[Sym]*Obj{}
var childSums = map[string]*Obj{}

// objOfSym is the object a (non-nil) pointer symbol without known targets refers to.
func objOfSym(x Sym) *Obj {
	if o, ok := symObjs[x]; ok {
		return o
	}
	si := syms[x]
	var et types.Type
	if si.T != nil {
		et = elemOf(si.T)
		if ch, ok := si.T.Underlying().(*types.Chan); ok {
			_ = ch
			et = si.T
		}
		if m, ok := si.T.Underlying().(*types.Map); ok {
			et = m
		}
	}
	o := newObj("", fmt.Sprintf("sym%d", x), et)
	o.Name = renderSym(x)
	if len(o.Name) > 200 {
		o.Name = fmt.Sprintf("obj%d", o.ID)
	}
	o.Input = true
	o.Parent = x
	if si.Op == "init" {
		p := si.L.O
		o.Depth = p.Depth
		o.Tag = p.Tag
		for q := p; q != nil; {
			if q.Type != nil && et != nil && types.Identical(q.Type, et) {
				o.Depth++
				break
			}
			if q.Parent == 0 || syms[q.Parent].Op != "init" {
				break
			}
			q = syms[q.Parent].L.O
		}
		if o.Depth >= 2 {
			o.Summary = true
			o.Name += "*"
		}
	}
	symObjs[x] = o
	return o
}

// childSummary is the object reached from a summary object through path.
func childSummary(p *Obj, path string, t types.Type) *Obj {
	et := elemOf(t)
	for q := p; q != nil; {
		if q.Summary && q.Type != nil && et != nil && types.Identical(q.Type, et) && q.Site == p.Site {
			return q
		}
		break
	}
	k := fmt.Sprintf("%d|%s", p.ID, path)
	if o, ok := childSums[k]; ok {
		return o
	}
	o := newObj(p.Name+path+"*", "child", et)
	o.Input = true
	o.Summary = true
	o.Depth = p.Depth
	o.Tag = p.Tag
	o.parent = p
	childSums[k] = o
	return o
}

func (s *State) ostate(o *Obj) *OState {
	if os, ok := s.heap[o]; ok {
		return os
	}
	return baseHeap[o]
}

// baseHeap is the heap after package initialisation; states only hold what
// differs from it.
var baseHeap = map[*Obj]*OState{}

func (s *State) wstate(o *Obj) *OState {
	os := s.ostate(o)
	if os == nil {
		os = &OState{cells: map[string]Val{}, owner: s}
		s.heap[o] = os
		return os
	}
	if os.owner != s {
		n := &OState{cells: make(map[string]Val, len(os.cells)+2), ver: os.ver, owner: s}
		for k, v := range os.cells {
			n.cells[k] = v
		}
		s.heap[o] = n
		return n
	}
	return os
}

func (s *State) defaultCell(l Loc, t types.Type) Val {
	if l.O.Input {
		ver := 0
		if os := s.ostate(l.O); os != nil {
			ver = os.ver
		}
		if l.O.Summary {
			return s.summaryDefault(l, t)
		}
		if v, ok := s.strElem(l); ok {
			return v
		}
		return symVal(t, func(sub string, t types.Type) Sym {
			p := l.Path + sub
			if ver > 0 {
				p = fmt.Sprintf("%s~%d", p, ver)
			}
			return initSym(Loc{l.O, p}, t)
		}, "")
	}
	return zeroVal(t)
}

func (s *State) summaryDefault(l Loc, t types.Type) Val {
	return symVal(t, func(sub string, t types.Type) Sym {
		x := freshSym(l.String()+sub, t)
		if typeInvariant != nil {
			si := *syms[x]
			si.Op = "init"
			si.L = Loc{l.O, l.Path + sub}
			if f := typeInvariant(x, &si); f != nil {
				g := *f
				if g.Lo == 0 && g.Hi == 0 {
					g.Lo, g.Hi = symRange(x)
				}
				s.facts[x] = &g
			}
		}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice:
			if strings.Contains(sub, "$len") || strings.Contains(sub, "$cap") {
				break
			}
			c := childSummary(l.O, l.Path+sub, t)
			s.updFact(x, func(f *Fact) { f.HasPts = true; f.Pts = []Loc{{c, ""}} })
		}
		return x
	}, "")
}

// strElem is the default element of an array made from a string.
func (s *State) strElem(l Loc) (Val, bool) {
	if len(l.Path) < 3 || l.Path[0] != '[' {
		return Val{}, false
	}
	os := s.ostate(l.O)
	if os == nil || os.ver > 0 {
		return Val{}, false
	}
	sv, ok := os.cells["$str"]
	if !ok {
		return Val{}, false
	}
	n, err := strconv.ParseInt(l.Path[1:len(l.Path)-1], 10, 64)
	if err != nil {
		return Val{}, false
	}
	return s.strAt(sv, iconst(n)), true
}

// load reads a location (strongly named object).
func (s *State) load(l Loc, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := Val{K: KStruct, T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.El = append(v.El, s.load(Loc{l.O, l.Path + "." + u.Field(i).Name()}, u.Field(i).Type()))
		}
		return v
	case *types.Array:
		if u.Len() <= 16 || u.Len() <= 256 && !l.O.Input && !l.O.Summary && isInt(u.Elem()) {
			v := Val{K: KStruct, T: t}
			for i := int64(0); i < u.Len(); i++ {
				v.El = append(v.El, s.load(Loc{l.O, fmt.Sprintf("%s[%d]", l.Path, i)}, u.Elem()))
			}
			return v
		}
		return opaque(freshSym("array", t))
	}
	os := s.ostate(l.O)
	if os != nil {
		if v, ok := os.cells[l.Path]; ok {
			if l.O.Summary {
				return s.instantiate(v, t)
			}
			return v
		}
		// an element overwritten through an unknown index?
		if i := strings.IndexByte(l.Path, '['); i >= 0 {
			if v, ok := os.cells[starPath(l.Path)]; ok {
				return s.weakJoin(s.defaultCell(l, t), s.instantiate(v, t), t)
			}
		}
	}
	v := s.defaultCell(l, t)
	return v
}

func starPath(p string) string {
	i := strings.IndexByte(p, '[')
	j := strings.IndexByte(p, ']')
	if i < 0 || j < 0 {
		return p
	}
	return p[:i] + "[*]" + p[j+1:]
}

// instantiate makes a fresh copy of a value describing many.
func (s *State) instantiate(v Val, t types.Type) Val {
	if v.S != 0 && len(v.El) == 0 {
		n := v
		n.S = freshSym(renderShort(v.S), symType(v.S, t))
		f := *s.fact(v.S)
		s.facts[n.S] = &f
		return n
	}
	if len(v.El) > 0 && (v.K == KSlice || v.K == KStruct || v.K == KIface) {
		n := v
		n.El = make([]Val, len(v.El))
		for i, e := range v.El {
			n.El[i] = s.instantiate(e, t)
		}
		return n
	}
	return v
}

func symType(x Sym, t types.Type) types.Type {
	if syms[x].T != nil {
		return syms[x].T
	}
	return t
}

func renderShort(x Sym) string {
	n := renderSym(x)
	if len(n) > 40 {
		n = n[:40]
	}
	if i := strings.IndexByte(n, '\''); i > 0 {
		n = n[:i]
	}
	return n
}

func (s *State) store(l Loc, v Val, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v.K != KStruct {
			v = freshVal("st", t)
		}
		for i := 0; i < u.NumFields(); i++ {
			s.store(Loc{l.O, l.Path + "." + u.Field(i).Name()}, v.El[i], u.Field(i).Type())
		}
		return
	case *types.Array:
		if int64(len(v.El)) == u.Len() && v.K == KStruct {
			for i := int64(0); i < u.Len(); i++ {
				s.store(Loc{l.O, fmt.Sprintf("%s[%d]", l.Path, i)}, v.El[i], u.Elem())
			}
			return
		}
		os := s.wstate(l.O)
		for k := range os.cells {
			if strings.HasPrefix(k, l.Path+"[") {
				delete(os.cells, k)
			}
		}
		if v.K == KOpaque && v.S != 0 && syms[v.S].Op == "zero" && !l.O.Input {
			return
		}
		os.cells[l.Path+"[*]"] = freshVal("elem", u.Elem())
		return
	}
	if v.K == KCond {
		v = s.boolSym(v)
	}
	if l.O.Summary {
		old := s.load(l, t)
		v = s.weakJoin(old, v, t)
	}
	s.wstate(l.O).cells[l.Path] = v
}

// loadElem reads array element idx (possibly symbolic) at l (the array), then trail.
func (s *State) loadElem(l Loc, idx Val, trail string, t types.Type) Val {
	if idx.isConstInt() {
		return s.load(Loc{l.O, fmt.Sprintf("%s[%d]%s", l.Path, idx.N, trail)}, t)
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		v := Val{K: KStruct, T: t}
		for i := 0; i < st.NumFields(); i++ {
			v.El = append(v.El, s.loadElem(l, idx, trail+"."+st.Field(i).Name(), st.Field(i).Type()))
		}
		return v
	}
	if ar, ok := t.Underlying().(*types.Array); ok {
		if ar.Len() <= 16 {
			v := Val{K: KStruct, T: t}
			for i := int64(0); i < ar.Len(); i++ {
				v.El = append(v.El, s.loadElem(l, idx, fmt.Sprintf("%s[%d]", trail, i), ar.Elem()))
			}
			return v
		}
		return opaque(freshSym("elem", t))
	}
	os := s.ostate(l.O)
	fk := l.Path + "[@" + valKey(idx) + "]" + trail
	var cands []Val
	ver := 0
	if os != nil {
		ver = os.ver
		if v, ok := os.cells[fk]; ok && !l.O.Summary {
			return v
		}
		for _, k := range sortedKeys(os.cells) {
			if !strings.HasPrefix(k, l.Path+"[") {
				continue
			}
			j := strings.IndexByte(k, ']')
			if j < 0 || k[j+1:] != trail {
				continue
			}
			if n, err := strconv.ParseInt(k[len(l.Path)+1:j], 10, 64); err == nil {
				if r, kn := s.evalCond(cond(token.EQL, idx, iconst(n))); kn && !r {
					continue
				}
			}
			cands = append(cands, os.cells[k])
		}
	}
	var def Val
	if l.O.Input {
		if l.O.Summary {
			def = s.summaryDefault(Loc{l.O, l.Path + "[*]" + trail}, t)
		} else {
			if os != nil && l.Path == "" && trail == "" && ver == 0 {
				if sv, ok := os.cells["$str"]; ok {
					def = s.strAt(sv, idx)
				}
			}
			if def.K == KUndef {
				def = symVal(t, func(sub string, t types.Type) Sym {
					return term("at", t, ploc(l), idx, strc(trail+sub), iconst(int64(ver)))
				}, "")
			}
		}
	} else {
		def = zeroVal(t)
		if os != nil {
			if gv, ok := os.cells[l.Path+"[*]"+trail]; ok && len(cands) == 1 && valEq(gv, cands[0]) && os.cells["$full"].N == 1 {
				return s.instantiate(gv, t)
			}
		}
	}
	// fully enumerated constant tables: small byte index into a constant array
	if tv, ok := s.tableLookup(l, idx, trail, t, os); ok {
		return tv
	}
	v := def
	for _, c := range cands {
		v = s.weakJoin(v, s.instantiate(c, t), t)
	}
	return v
}

// tableLookup handles reads of constant integer tables through a symbolic index.
func (s *State) tableLookup(l Loc, idx Val, trail string, t types.Type, os *OState) (Val, bool) {
	if !isInt(t) || l.O.Input {
		return Val{}, false
	}
	lo, hi := s.rng(idx)
	if lo < 0 || hi-lo > 256 {
		return Val{}, false
	}
	for k, v := range func() map[string]Val {
		if os == nil {
			return nil
		}
		return os.cells
	}() {
		if strings.HasPrefix(k, l.Path+"[") && !v.isConstInt() {
			return Val{}, false
		}
	}
	x := term("table", t, ploc(l), idx)
	var mn, mx int64 = math.MaxInt64, math.MinInt64
	tab := map[int64]int64{}
	for i := lo; i <= hi; i++ {
		n := int64(0)
		if os != nil {
			if c, ok := os.cells[fmt.Sprintf("%s[%d]%s", l.Path, i, trail)]; ok {
				n = c.N
			}
		}
		tab[i] = n
		if n < mn {
			mn = n
		}
		if n > mx {
			mx = n
		}
	}
	if l.O.Global && (tables[x] == nil || len(tables[x]) < len(tab)) {
		tables[x] = tab
	}
	if _, ok := s.facts[x]; !ok {
		s.updFact(x, func(f *Fact) { f.Lo, f.Hi = mn, mx })
	}
	return isym(x), true
}

func (s *State) storeElem(l Loc, idx Val, trail string, v Val, t types.Type) {
	if v.K == KCond {
		v = s.boolSym(v)
	}
	if idx.isConstInt() {
		s.dropFocus(l, idx, trail, v, t)
		s.store(Loc{l.O, fmt.Sprintf("%s[%d]%s", l.Path, idx.N, trail)}, v, t)
		return
	}
	if st, ok := t.Underlying().(*types.Struct); ok && v.K == KStruct {
		for i := 0; i < st.NumFields(); i++ {
			s.storeElem(l, idx, trail+"."+st.Field(i).Name(), v.El[i], st.Field(i).Type())
		}
		return
	}
	if ar, ok := t.Underlying().(*types.Array); ok && v.K == KStruct {
		for i := int64(0); i < ar.Len(); i++ {
			s.storeElem(l, idx, fmt.Sprintf("%s[%d]", trail, i), v.El[i], ar.Elem())
		}
		return
	}
	s.dropFocus(l, idx, trail, v, t)
	os := s.wstate(l.O)
	for _, k := range sortedKeys(os.cells) {
		if !strings.HasPrefix(k, l.Path+"[") {
			continue
		}
		j := strings.IndexByte(k, ']')
		if j < 0 || k[j+1:] != trail {
			continue
		}
		if n, err := strconv.ParseInt(k[len(l.Path)+1:j], 10, 64); err == nil {
			if r, kn := s.evalCond(cond(token.EQL, idx, iconst(n))); kn && !r {
				continue
			}
			os.cells[k] = s.weakJoin(os.cells[k], v, t)
		}
	}
	if l.O.Summary {
		k := l.Path + "[*]" + trail
		if o, ok := os.cells[k]; ok {
			v = s.weakJoin(o, v, t)
		} else {
			v = s.weakJoin(s.defaultCell(Loc{l.O, k}, t), v, t)
		}
		s.wstate(l.O).cells[k] = v
		return
	}
	os = s.wstate(l.O)
	os.cells[l.Path+"[@"+valKey(idx)+"]"+trail] = v
	os.cells["$idx:"+valKey(idx)] = idx
}

// dropFocus folds other symbolic element cells that may alias idx.
func (s *State) dropFocus(l Loc, idx Val, trail string, nv Val, t types.Type) {
	os := s.ostate(l.O)
	if os == nil {
		return
	}
	for _, k := range sortedKeys(os.cells) {
		if !strings.HasPrefix(k, l.Path+"[@") {
			continue
		}
		j := strings.IndexByte(k, ']')
		ik := k[len(l.Path)+2 : j]
		if ik == valKey(idx) || k[j+1:] != trail {
			continue
		}
		iv, ok := os.cells["$idx:"+ik]
		if ok {
			if r, kn := s.evalCond(cond(token.EQL, idx, iv)); kn && !r {
				continue
			}
		}
		s.foldFocus(l.O, k)
		os = s.ostate(l.O)
	}
}

// foldFocus merges one "[@i]" cell into the "[*]" summary cell.
func (s *State) foldFocus(o *Obj, k string) {
	os := s.wstate(o)
	v := os.cells[k]
	delete(os.cells, k)
	sp := starPath(k)
	t := typeForVal(v, o, sp)
	if old, ok := os.cells[sp]; ok {
		v = s.weakJoin(old, v, t)
	}
	s.wstate(o).cells[sp] = v
}

func typeForVal(v Val, o *Obj, path string) types.Type {
	if o.Type != nil {
		if t := typeAt(types.NewSlice(o.Type), path); t != nil {
			return t
		}
		if t := typeAt(o.Type, path); t != nil {
			return t
		}
	}
	switch v.K {
	case KInt:
		return types.Typ[types.Int]
	case KStr:
		return types.Typ[types.String]
	case KBool:
		return types.Typ[types.Bool]
	}
	if v.S != 0 {
		return syms[v.S].T
	}
	return nil
}

// weakJoin merges two values inside one state: the result may be either.
func (s *State) weakJoin(a, b Val, t types.Type) Val {
	if valEq(a, b) {
		return a
	}
	return joinLeaf(s, a, s, b, t, s, func(r, x, y Val) {})
}

type ssaValue = ssa.Value

func opTok(op string) token.Token {
	switch op {
	case "==":
		return token.EQL
	case "!=":
		return token.NEQ
	case "<":
		return token.LSS
	case "<=":
		return token.LEQ
	}
	return token.ILLEGAL
}
