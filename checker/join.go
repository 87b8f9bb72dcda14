package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
)

// joiner merges two abstract states by traversing them side by side.
type joiner struct {
	a, b, r  *State
	pairs    map[string]Sym
	taken    map[Sym]bool
	list     []pairRec // integer pairs, for the zone
	strs     []pairRec
	images   map[Sym][]pairRec // by left symbol
	widen    bool
	coarse   bool
	depth    int
	noRename bool
}

type pairRec struct {
	z    Sym
	a, b Val
	off  int64 // the values compared are a+off, b+off
}

var undef = Val{}

func isPtrSym(x Sym) bool {
	if syms[x].T == nil {
		return false
	}
	switch syms[x].T.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Map, *types.Slice:
		return true
	}
	return false
}

func (j *joiner) newSym(x Sym, t types.Type, name string) Sym {
	if x != 0 && syms[x].Op == "" && !j.taken[x] && !j.noRename && !isPtrSym(x) {
		j.taken[x] = true
		return x
	}
	return freshSym(name, t)
}

func joinFactInto(r *State, z Sym, fa, fb *Fact) {
	f := Fact{}
	if fa.Nil == fb.Nil {
		f.Nil = fa.Nil
	}
	f.Lo, f.Hi = fa.Lo, fa.Hi
	if fb.Lo < f.Lo {
		f.Lo = fb.Lo
	}
	if fb.Hi > f.Hi {
		f.Hi = fb.Hi
	}
	if f.Lo >= 0 && f.Hi <= 255 && (fa.Set != nil || fb.Set != nil) {
		sa, sb := setOf(fa), setOf(fb)
		var u [4]uint64
		for i := range u {
			u[i] = sa[i] | sb[i]
		}
		f.Set = &u
	}
	if fa.HasPts && fb.HasPts {
		f.HasPts = true
		f.Pts = unionPts(fa.Pts, fb.Pts)
	}
	f.Alts = unionAlts(fa, fb)
	if fa.HasIn && fb.HasIn {
		f.HasIn = true
		f.In = unionStr(fa.In, fb.In)
		if len(f.In) > 64 {
			f.HasIn, f.In = false, nil
		}
	}
	if !f.HasIn {
		f.Out = commonOut(fa, fb)
	}
	if fa.B == fb.B {
		f.B = fa.B
	}
	if fa.Par == fb.Par {
		f.Par = fa.Par
	}
	r.facts[z] = &f
}

func setOf(f *Fact) [4]uint64 {
	var u [4]uint64
	for i := int64(0); i < 256; i++ {
		if i >= f.Lo && i <= f.Hi && (f.Set == nil || f.Set[i/64]&(1<<(i%64)) != 0) {
			u[i/64] |= 1 << (i % 64)
		}
	}
	return u
}

func unionPts(a, b []Loc) []Loc {
	r := append([]Loc(nil), a...)
	for _, x := range b {
		dup := false
		for _, y := range r {
			if x == y {
				dup = true
			}
		}
		if !dup {
			r = append(r, x)
		}
	}
	sort.Slice(r, func(i, k int) bool {
		if r[i].O.ID != r[k].O.ID {
			return r[i].O.ID < r[k].O.ID
		}
		return r[i].Path < r[k].Path
	})
	return r
}

func unionAlts(fa, fb *Fact) []Val {
	if fa.Nil == 1 {
		return fb.Alts
	}
	if fb.Nil == 1 {
		return fa.Alts
	}
	if fa.Alts == nil || fb.Alts == nil {
		return nil
	}
	r := append([]Val(nil), fa.Alts...)
	for _, x := range fb.Alts {
		dup := false
		for _, y := range r {
			if valEq(x, y) {
				dup = true
			}
		}
		if !dup {
			r = append(r, x)
		}
	}
	if len(r) > 12 {
		return nil
	}
	return r
}

func unionStr(a, b []string) []string {
	r := append([]string(nil), a...)
	for _, x := range b {
		if !hasStr(r, x) {
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return r
}

func commonOut(fa, fb *Fact) []string {
	var r []string
	cand := unionStr(fa.Out, fb.Out)
	for _, c := range cand {
		okA := hasStr(fa.Out, c) || fa.HasIn && !hasStr(fa.In, c)
		okB := hasStr(fb.Out, c) || fb.HasIn && !hasStr(fb.In, c)
		if okA && okB {
			r = append(r, c)
		}
	}
	if fa.HasIn && fb.HasIn == false || fb.HasIn && fa.HasIn == false {
		return r
	}
	// both enumerated but too many: keep non-emptiness
	if fa.HasIn && fb.HasIn && !hasStr(fa.In, "") && !hasStr(fb.In, "") {
		return []string{""}
	}
	return r
}

// factOf describes a (non-integer) value as a Fact about it.
func (s *State) factOf(v Val) *Fact {
	f := &Fact{Lo: math.MinInt64, Hi: math.MaxInt64}
	switch v.K {
	case KNil:
		f.Nil = 1
		f.HasPts = true
	case KPtr:
		if v.S == 0 {
			f.Nil = 2
			f.HasPts = true
			f.Pts = []Loc{v.L}
		} else {
			g := *s.fact(v.S)
			if !g.HasPts {
				g.HasPts = true
				if g.Nil != 1 {
					g.Pts = []Loc{{objOfSym(v.S), ""}}
				}
			}
			f = &g
		}
	case KIface:
		if v.S == 0 {
			f.Nil = 2
			f.Alts = []Val{v}
		} else {
			f = s.fact(v.S)
		}
	case KFunc:
		if v.S == 0 {
			f.Nil = 2
			f.Alts = []Val{v}
		} else {
			f = s.fact(v.S)
		}
	case KStr:
		if v.S == 0 {
			f.HasIn = true
			f.In = []string{v.Str}
		} else {
			g := *s.fact(v.S)
			f = &g
		}
	case KBool:
		if v.S == 0 {
			f.B = uint8(v.N) + 1
		} else {
			f = s.fact(v.S)
		}
	case KInt:
		if v.S == 0 {
			f.Lo, f.Hi = v.N, v.N
			if trackParity {
				f.Par = uint8(v.N&1) + 1
			}
		} else {
			g := *s.fact(v.S)
			g.Lo, g.Hi = addSat(g.Lo, v.N), addSat(g.Hi, v.N)
			if v.N != 0 {
				if g.Set != nil {
					var u [4]uint64
					ok := true
					for i := int64(0); i < 256; i++ {
						if g.Set[i/64]&(1<<(i%64)) != 0 {
							k := i + v.N
							if k < 0 || k > 255 {
								ok = false
								break
							}
							u[k/64] |= 1 << (k % 64)
						}
					}
					if ok {
						g.Set = &u
					} else {
						g.Set = nil
					}
				}
			}
			if trackParity {
				g.Par = s.parity(v)
				if g.Par != 0 && g.Lo > math.MinInt64 && uint8(g.Lo&1)+1 != g.Par {
					g.Lo++
				}
				if g.Par != 0 && g.Hi < math.MaxInt64 && uint8(g.Hi&1)+1 != g.Par {
					g.Hi--
				}
			}
			f = &g
		}
	default:
		if v.S != 0 {
			f = s.fact(v.S)
		}
	}
	return f
}

func shiftFact(f *Fact, n int64) *Fact {
	if n == 0 {
		return f
	}
	g := *f
	g.Lo, g.Hi = addSat(g.Lo, n), addSat(g.Hi, n)
	g.Set = nil
	if g.Par != 0 && n&1 != 0 {
		g.Par = 3 - g.Par
	}
	return &g
}

func valType(v Val) types.Type {
	if v.T != nil {
		return v.T
	}
	if v.S != 0 {
		return syms[v.S].T
	}
	if v.K == KPtr && v.L.O != nil && v.L.O.Type != nil {
		if t := typeAt(v.L.O.Type, v.L.Path); t != nil {
			return types.NewPointer(t)
		}
	}
	switch v.K {
	case KInt:
		return types.Typ[types.Int]
	case KStr:
		return types.Typ[types.String]
	case KBool:
		return types.Typ[types.Bool]
	}
	return nil
}

func pickType(a, b Val, t types.Type) types.Type {
	if x := valType(a); x != nil {
		return x
	}
	if x := valType(b); x != nil {
		return x
	}
	return t
}

// pair merges value a (in state A) with value b (in state B).
func (j *joiner) pair(a, b Val) Val {
	if a.K == KUndef && b.K == KUndef {
		return undef
	}
	if a.K == KCond {
		a = j.a.boolSym(a)
	}
	if b.K == KCond {
		b = j.b.boolSym(b)
	}
	if a.K == KUndef {
		return j.unary(b, false)
	}
	if b.K == KUndef {
		return j.unary(a, true)
	}
	ka, kb := a.K, b.K
	switch {
	case ka == KInt && kb == KInt:
		return j.pairInt(a, b)
	case ka == KSlice || kb == KSlice:
		if ka == KNil {
			a = nilSlice()
		}
		if kb == KNil {
			b = nilSlice()
		}
		if a.K == KSlice && b.K == KSlice {
			r := Val{K: KSlice, T: a.T, El: make([]Val, 4)}
			for i := range r.El {
				r.El[i] = j.pair(a.El[i], b.El[i])
			}
			return r
		}
		return opaque(freshSym("join", nil))
	case (ka == KStruct || ka == KTuple) && kb == ka && len(a.El) == len(b.El):
		r := Val{K: ka, T: a.T, El: make([]Val, len(a.El))}
		for i := range r.El {
			r.El[i] = j.pair(a.El[i], b.El[i])
		}
		return r
	case ka == KNil && kb == KNil:
		return nilVal
	case ka == KStr && kb == KStr:
		if a.S == 0 && b.S == 0 && a.Str == b.Str {
			return a
		}
	case ka == KBool && kb == KBool:
		if a.S == 0 && b.S == 0 && a.N == b.N {
			return a
		}
	case ka == KPtr && kb == KPtr:
		if a.S == 0 && b.S == 0 && a.L == b.L {
			return a
		}
		if len(a.El) > 0 || len(b.El) > 0 {
			// element addresses: keep only when the same place
			if a.S == b.S && a.L == b.L && a.Str == b.Str && len(a.El) == len(b.El) {
				r := a
				r.El = []Val{j.pair(a.El[0], b.El[0])}
				return r
			}
		}
	case ka == KIface && kb == KIface && a.S == 0 && b.S == 0:
		if types.Identical(a.T, b.T) {
			v := j.pair(a.El[0], b.El[0])
			return Val{K: KIface, T: a.T, El: []Val{v}}
		}
	case ka == KFunc && kb == KFunc && a.S == 0 && b.S == 0 && a.Fn == b.Fn && len(a.El) == len(b.El):
		r := a
		r.El = nil
		for i := range a.El {
			r.El = append(r.El, j.pair(a.El[i], b.El[i]))
		}
		return r
	}
	// symbols
	if a.S != 0 && a.S == b.S && ka == kb && len(a.El) == 0 && len(b.El) == 0 {
		r := a
		r.S = j.ident(a.S)
		return r
	}
	if a.S != 0 && b.S != 0 && ka == kb {
		if z, ok := j.pairTerm(a.S, b.S); ok {
			r := a
			r.S = z
			r.T = nil
			return r
		}
	}
	k := "v" + valKey(a) + "~" + valKey(b)
	kind := ka
	if kind == KNil {
		kind = kb
	}
	if z, ok := j.pairs[k]; ok {
		return Val{K: kind, S: z}
	}
	if kind != KPtr && kind != KStr && kind != KBool && kind != KIface && kind != KFunc {
		kind = KOpaque
	}
	var x Sym
	if len(a.El) == 0 {
		x = a.S
	}
	t := pickType(a, b, nil)
	if kind == KIface {
		t = nil
		if a.K == KIface && a.S != 0 {
			t = syms[a.S].T
		} else if b.K == KIface && b.S != 0 {
			t = syms[b.S].T
		}
	}
	z := j.newSym(x, t, "j")
	j.pairs[k] = z
	fa, fb := j.a.factOf(a), j.b.factOf(b)
	if kind == KIface {
		// concrete dynamic values inside alternatives are merged per type
		joinFactInto(j.r, z, fa, fb)
		j.r.facts[z].Alts = j.mergeAlts(fa, fb)
	} else {
		joinFactInto(j.r, z, fa, fb)
	}
	rec := pairRec{z: z, a: a, b: b}
	if a.S != 0 {
		j.images[a.S] = append(j.images[a.S], rec)
	}
	if kind == KStr {
		j.strs = append(j.strs, rec)
	}
	return Val{K: kind, S: z}
}

func (j *joiner) mergeAlts(fa, fb *Fact) []Val {
	if fa.Nil == 1 {
		return j.mapAlts(fb, false)
	}
	if fb.Nil == 1 {
		return j.mapAlts(fa, true)
	}
	if fa.Alts == nil || fb.Alts == nil {
		return nil
	}
	var r []Val
	usedB := map[int]bool{}
	for _, x := range fa.Alts {
		found := false
		for i, y := range fb.Alts {
			if !usedB[i] && x.K == KIface && y.K == KIface && types.Identical(x.T, y.T) {
				usedB[i] = true
				found = true
				r = append(r, Val{K: KIface, T: x.T, El: []Val{j.pair(x.El[0], y.El[0])}})
				break
			}
		}
		if !found {
			r = append(r, j.unary(x, true))
		}
	}
	for i, y := range fb.Alts {
		if !usedB[i] {
			r = append(r, j.unary(y, false))
		}
	}
	return r
}

func (j *joiner) mapAlts(f *Fact, left bool) []Val {
	if f.Alts == nil {
		return nil
	}
	var r []Val
	for _, x := range f.Alts {
		r = append(r, j.unary(x, left))
	}
	return r
}

// ident registers the pair (x, x) and returns the symbol that stands for it.
func (j *joiner) ident(x Sym) Sym {
	k := fmt.Sprintf("id%d", x)
	if z, ok := j.pairs[k]; ok {
		return z
	}
	si := syms[x]
	z := x
	switch {
	case si.Op == "init":
		j.pairs[k] = x
		if si.L.O != nil && si.L.O.Parent != 0 {
			j.ident(si.L.O.Parent)
		}
	case si.Op != "":
		j.pairs[k] = x
		args := make([]Val, len(si.Args))
		for i, a := range si.Args {
			args[i] = j.identVal(a)
		}
		z = term(si.Op, si.T, args...)
		j.pairs[k] = z
	default:
		if j.taken[x] { // the name was given to another pair
			z = freshSym(si.Name, si.T)
		}
		j.taken[x] = true
		j.pairs[k] = z
	}
	_, ina := j.a.facts[x]
	_, inb := j.b.facts[x]
	if ina || inb || z != x {
		joinFactInto(j.r, z, j.a.fact(x), j.b.fact(x))
		f := j.r.facts[z]
		if f.Alts != nil {
			f.Alts = j.mergeAlts(j.a.fact(x), j.b.fact(x))
		}
	}
	rec := pairRec{z: z, a: Val{K: KInt, S: x}, b: Val{K: KInt, S: x}}
	j.images[x] = append(j.images[x], rec)
	if si.T != nil && (isInt(si.T)) {
		j.list = append(j.list, rec)
	}
	return z
}

func (j *joiner) identVal(v Val) Val {
	r := v
	if v.S != 0 {
		r.S = j.ident(v.S)
	}
	if len(v.El) > 0 {
		r.El = make([]Val, len(v.El))
		for i, e := range v.El {
			r.El[i] = j.identVal(e)
		}
	}
	return r
}

// pairTerm merges two applications of the same operator.
func (j *joiner) pairTerm(x, y Sym) (Sym, bool) {
	a, b := syms[x], syms[y]
	if a.Op == "" || a.Op == "init" || a.Op != b.Op || len(a.Args) != len(b.Args) {
		return 0, false
	}
	k := fmt.Sprintf("t%d~%d", x, y)
	if z, ok := j.pairs[k]; ok {
		return z, z != 0
	}
	if j.depth > 8 {
		return 0, false
	}
	j.pairs[k] = 0
	j.depth++
	defer func() { j.depth-- }()
	args := make([]Val, len(a.Args))
	for i := range args {
		p, q := a.Args[i], b.Args[i]
		if p.K != q.K {
			return 0, false
		}
		if p.K == KCond {
			return 0, false
		}
		// constants must agree: they are part of the operator
		if idx := i == 1 && (a.Op == "sat" || a.Op == "at") && p.K == KInt; !idx && (p.S == 0 && len(p.El) == 0 || q.S == 0 && len(q.El) == 0) {
			if !valEq(p, q) {
				return 0, false
			}
			args[i] = p
			continue
		}
		args[i] = j.pair(p, q)
	}
	z := term(a.Op, a.T, args...)
	j.pairs[k] = z
	_, ina := j.a.facts[x]
	_, inb := j.b.facts[y]
	if ina || inb {
		joinFactInto(j.r, z, j.a.fact(x), j.b.fact(y))
	}
	rec := pairRec{z: z, a: isym(x), b: isym(y)}
	j.images[x] = append(j.images[x], rec)
	if a.T != nil && isInt(a.T) {
		j.list = append(j.list, rec)
	}
	return z, true
}

func (j *joiner) pairInt(a, b Val) Val {
	if a.S == b.S && a.N == b.N {
		if a.S != 0 {
			a.S = j.ident(a.S)
		}
		return a
	}
	if a.S != 0 && b.S != 0 && a.N == b.N {
		if z, ok := j.pairTerm(a.S, b.S); ok {
			return Val{K: KInt, S: z, N: a.N}
		}
	}
	// base pair: (a.S, b - a.N)
	k := fmt.Sprintf("n%d~%d+%d", a.S, b.S, b.N-a.N)
	if z, ok := j.pairs[k]; ok {
		return Val{K: KInt, S: z, N: a.N}
	}
	base := Val{K: KInt, S: a.S}
	bb := Val{K: KInt, S: b.S, N: b.N - a.N}
	var t types.Type
	if a.S != 0 {
		t = syms[a.S].T
	} else if b.S != 0 {
		t = syms[b.S].T
	}
	if t == nil {
		t = types.Typ[types.Int]
	}
	z := j.newSym(a.S, types.Typ[types.Int], "j")
	j.pairs[k] = z
	joinFactInto(j.r, z, j.a.factOf(base), j.b.factOf(bb))
	rec := pairRec{z: z, a: base, b: bb, off: a.N}
	if a.S != 0 {
		j.images[a.S] = append(j.images[a.S], rec)
	}
	j.list = append(j.list, rec)
	return Val{K: KInt, S: z, N: a.N}
}

// unary maps a value present on one side only.
func (j *joiner) unary(v Val, left bool) Val {
	s := j.b
	if left {
		s = j.a
	}
	if v.K == KCond {
		v = s.boolSym(v)
	}
	if len(v.El) > 0 {
		r := v
		r.El = make([]Val, len(v.El))
		for i, e := range v.El {
			r.El[i] = j.unary(e, left)
		}
		if v.K != KPtr || v.S == 0 {
			return r
		}
		v = r
	}
	if v.S == 0 {
		return v
	}
	v.S = j.unarySym(v.S, left)
	return v
}

func (j *joiner) unarySym(x Sym, left bool) Sym {
	k := fmt.Sprintf("u%v%d", left, x)
	if z, ok := j.pairs[k]; ok {
		return z
	}
	s := j.b
	if left {
		s = j.a
	}
	// when the other side agrees that this symbol exists, treat it as identical
	if z, ok := j.pairs[fmt.Sprintf("id%d", x)]; ok {
		j.pairs[k] = z
		return z
	}
	si := syms[x]
	if si.Op == "init" {
		z := j.ident(x)
		j.pairs[k] = z
		return z
	}
	if si.Op != "" {
		args := make([]Val, len(si.Args))
		for i, a := range si.Args {
			if a.K == KCond {
				args[i] = a
				continue
			}
			args[i] = j.unary(a, left)
		}
		z := term(si.Op, si.T, args...)
		j.pairs[k] = z
		if z == x {
			j.ident(x)
		} else if f, ok := s.facts[x]; ok {
			if _, ok := j.r.facts[z]; !ok {
				j.r.facts[z] = f
			}
		}
		return z
	}
	z := j.newSym(x, si.T, "u")
	j.pairs[k] = z
	f := *s.fact(x)
	if f.Alts != nil {
		f.Alts = j.mapAlts(&f, left)
	}
	j.r.facts[z] = &f
	return z
}

// foldFoci removes symbolic element cells not shared by both states.
func foldFoci(a, b *State) {
	for _, s := range []*State{a, b} {
		o := b
		if s == b {
			o = a
		}
		for obj, os := range s.heap {
			var ks []string
			for k := range os.cells {
				if strings.Contains(k, "[@") && !strings.HasPrefix(k, "$") {
					if oo := o.heap[obj]; oo == nil || oo.cells[k].K == KUndef {
						ks = append(ks, k)
					}
				}
			}
			sort.Strings(ks)
			for _, k := range ks {
				s.foldFocus(obj, k)
			}
		}
	}
	for _, s := range []*State{a, b} {
		for obj, os := range s.heap {
			for k := range os.cells {
				if strings.HasPrefix(k, "$idx:") {
					used := false
					ik := "[@" + k[5:] + "]"
					for c := range os.cells {
						if strings.Contains(c, ik) && !strings.HasPrefix(c, "$") {
							used = true
						}
					}
					if !used {
						delete(s.wstate(obj).cells, k)
						os = s.heap[obj]
					}
				}
			}
		}
	}
}

// join merges B into A.  changed is false when B adds nothing to A.
func join(a, b *State, widen bool) (res *State, changed bool) {
	return joinW(a, b, widen, false)
}

func joinW(a, b *State, widen, coarse bool) (res *State, changed bool) {
	if a == b {
		return a, false
	}
	hasFocus := func(s *State) bool {
		for _, os := range s.heap {
			for k := range os.cells {
				if strings.Contains(k, "[@") || strings.HasPrefix(k, "$idx:") {
					return true
				}
			}
		}
		return false
	}
	if hasFocus(a) || hasFocus(b) {
		a, b = a.clone(), b.clone()
		foldFoci(a, b)
	}
	j := &joiner{a: a, b: b, r: newState(), pairs: map[string]Sym{}, taken: map[Sym]bool{}, images: map[Sym][]pairRec{}, widen: widen, coarse: coarse}
	r := j.r
	r.prev = b.prev
	r.note = a.note
	changed = false
	// Frames.
	for i := range a.frames {
		fa, fb := a.frames[i], b.frames[i]
		f := &Frame{fn: fa.fn, ctx: fa.ctx, call: fa.call, owner: r, keep: fa.keep}
		f.regs = make(map[ssaValue]Val, len(fa.regs))
		ks := make([]ssaValue, 0, len(fa.regs))
		for k := range fa.regs {
			if _, ok := fb.regs[k]; ok {
				ks = append(ks, k)
			}
		}
		sort.Slice(ks, func(i, k int) bool { return ks[i].Name() < ks[k].Name() })
		for _, k := range ks {
			f.regs[k] = j.pair(fa.regs[k], fb.regs[k])
		}
		if len(ks) < len(fa.regs) {
			changed = true
		}
		n := len(fa.defers)
		if len(fb.defers) < n {
			n = len(fb.defers)
		}
		for d := 0; d < n; d++ {
			x, y := fa.defers[d], fb.defers[d]
			nd := Deferred{call: x.call, fn: j.pair(x.fn, y.fn)}
			for q := range x.args {
				nd.args = append(nd.args, j.pair(x.args[q], y.args[q]))
			}
			f.defers = append(f.defers, nd)
		}
		r.frames = append(r.frames, f)
	}
	// Monitor.
	m := &Mon{Key: a.mon.Key, Vals: map[string]Val{}}
	for _, k := range sortedKeys(a.mon.Vals) {
		if y, ok := b.mon.Vals[k]; ok {
			m.Vals[k] = j.pair(a.mon.Vals[k], y)
		} else {
			changed = true
		}
	}
	r.mon = m
	r.ret = j.pair(a.ret, b.ret)
	// Heap.
	objs := map[*Obj]bool{}
	for o := range a.heap {
		objs[o] = true
	}
	for o := range b.heap {
		objs[o] = true
	}
	ol := make([]*Obj, 0, len(objs))
	for o := range objs {
		ol = append(ol, o)
	}
	sort.Slice(ol, func(i, k int) bool { return ol[i].ID < ol[k].ID })
	newCells := 0
	for _, o := range ol {
		sa, sb := a.ostate(o), b.ostate(o)
		os := &OState{cells: map[string]Val{}, owner: r}
		if sa != nil {
			os.ver = sa.ver
		}
		if sb != nil && sb.ver > os.ver {
			os.ver = sb.ver
		}
		keys := map[string]bool{}
		if sa != nil {
			for k := range sa.cells {
				keys[k] = true
			}
		}
		if sb != nil {
			for k := range sb.cells {
				keys[k] = true
			}
		}
		verDiff := sa != nil && sb != nil && sa.ver != sb.ver || (sa == nil) != (sb == nil) && os.ver > 0
		for _, k := range sortedKeys(keys) {
			var x, y Val
			if sa != nil {
				x = sa.cells[k]
			}
			if sb != nil {
				y = sb.cells[k]
			}
			if strings.HasPrefix(k, "$") {
				// ghost cells: absent means undefined
				if x.K == KUndef || y.K == KUndef {
					if strings.HasPrefix(k, "$idx:") || strings.HasPrefix(k, "$may") {
						if x.K == KUndef {
							newCells++
						}
						os.cells[k] = j.pair(x, y)
						continue
					}
					if sa == nil || sb == nil {
						if x.K == KUndef {
							newCells++
						}
						os.cells[k] = j.pair(x, y)
						continue
					}
					if x.K != KUndef {
						changed = true
					}
					continue
				}
				os.cells[k] = j.pair(x, y)
				continue
			}
			weak := strings.Contains(k, "[*]")
			if x.K == KUndef && !weak {
				if sa != nil || o.Input {
					t := cellType(o, k, y)
					if t != nil {
						x = a.defaultCell(Loc{o, k}, t)
						if x.K == KSlice && y.K != KSlice && y.K != KNil {
							x = undef
						}
						if o.Summary && o.Input {
							// unknown contents already cover anything that was stored weakly
							x = a.defaultCell(Loc{o, k}, t)
						}
					}
				} else {
					newCells++
				}
			}
			if y.K == KUndef && !weak {
				if sb != nil || o.Input {
					t := cellType(o, k, x)
					if t != nil {
						y = b.defaultCell(Loc{o, k}, t)
					}
				}
			}
			if x.K == KUndef && weak {
				newCells++
			}
			os.cells[k] = j.pair(x, y)
		}
		if verDiff {
			changed = changed || sa == nil || sb != nil && sa.ver < sb.ver
		}
		if sa == nil && !o.Input {
			newCells++
		}
		r.heap[o] = os
	}
	// Knowledge about initial contents that nothing refers to explicitly.
	var ini []Sym
	seenI := map[Sym]bool{}
	addI := func(x Sym) {
		if x != 0 && syms[x].Op == "init" && !seenI[x] {
			seenI[x] = true
			ini = append(ini, x)
		}
	}
	for x := range a.facts {
		symDeps(x, addI)
	}
	for k := range a.zone {
		symDeps(k[0], addI)
		symDeps(k[1], addI)
	}
	sort.Slice(ini, func(i, k int) bool { return ini[i] < ini[k] })
	for _, x := range ini {
		j.ident(x)
	}
	// Lengths of strings that are the same on both sides.
	var lens []Sym
	for k := range a.zone {
		for _, x := range k {
			if x != 0 && syms[x].Op == "len" && !seenI[x] {
				seenI[x] = true
				lens = append(lens, x)
			}
		}
	}
	// Also those whose bounds differ: a length may be related to a value that
	// is new in the joined state by bounds alone on either side.
	for x, fa := range a.facts {
		if syms[x].Op != "len" || seenI[x] {
			continue
		}
		if fb, ok := b.facts[x]; ok && (fa.Lo != fb.Lo || fa.Hi != fb.Hi) {
			seenI[x] = true
			lens = append(lens, x)
		}
	}
	sort.Slice(lens, func(i, k int) bool { return lens[i] < lens[k] })
	for _, x := range lens {
		if s := syms[x].Args[0].S; s != 0 {
			if z, ok := j.pairs[fmt.Sprintf("id%d", s)]; ok && z == s {
				j.ident(x)
			}
		}
	}
	// Facts about terms over mapped symbols (lengths, comparisons).
	j.termFacts(a, b)
	// String lengths.
	for i := 0; i < len(j.strs); i++ {
		p := j.strs[i]
		la, lb := a.strLen(p.a), b.strLen(p.b)
		al, ah := a.rng(la)
		bl, bh := b.rng(lb)
		lo, hi := al, ah
		if bl < lo {
			lo = bl
		}
		if bh > hi {
			hi = bh
		}
		z := term("len", lenType, ssym(p.z))
		if lo > 0 || hi < maxLen {
			f := *r.fact(z)
			if lo > f.Lo {
				f.Lo = lo
			}
			if hi < f.Hi {
				f.Hi = hi
			}
			r.facts[z] = &f
		}
		if a.inZone(la) || b.inZone(lb) || al != bl || ah != bh {
			j.list = append(j.list, pairRec{z: z, a: la, b: lb})
		}
	}
	// Zone.
	j.zone()
	if widen {
		j.widenFacts()
	}
	if !changed {
		changed = newCells > 0 || !j.subsumed()
	}
	if !changed {
		return a, false
	}
	return r, true
}

func cellType(o *Obj, k string, v Val) types.Type {
	if o.Type != nil {
		if t := typeAt(o.Type, k); t != nil {
			return t
		}
		if t := typeAt(types.NewSlice(o.Type), k); t != nil {
			return t
		}
	}
	return typeForVal(v, o, k)
}

func (s *State) inZone(v Val) bool {
	if v.S == 0 {
		return true
	}
	for k := range s.zone {
		if k[0] == v.S || k[1] == v.S {
			return true
		}
	}
	return false
}

// substitute a left symbol by its unique image.
func (j *joiner) image(x Sym) (z Sym, b Val, ok bool) {
	l := j.images[x]
	if len(l) == 0 {
		return 0, undef, false
	}
	return l[0].z, l[0].b, true
}

func (j *joiner) substArg(v Val) (zv, bv Val, ok bool) {
	zv, bv = v, v
	if v.K == KCond {
		return v, v, false
	}
	if v.S != 0 {
		z, b, k := j.image(v.S)
		if !k {
			return v, v, false
		}
		zv.S = z
		if v.K == KInt {
			bv = Val{K: KInt, S: b.S, N: b.N + v.N}
		} else if b.K == KInt && b.N == 0 && b.S != 0 { // identity record
			bv = v
			bv.S = b.S
		} else {
			bv = b
		}
	}
	if len(v.El) > 0 {
		zv.El = make([]Val, len(v.El))
		bv.El = make([]Val, len(v.El))
		for i, e := range v.El {
			var k bool
			zv.El[i], bv.El[i], k = j.substArg(e)
			if !k {
				return v, v, false
			}
		}
	}
	return zv, bv, true
}

func (j *joiner) termFacts(a, b *State) {
	var ts []Sym
	for x := range a.facts {
		if op := syms[x].Op; op != "" && op != "init" {
			ts = append(ts, x)
		}
	}
	sort.Slice(ts, func(i, k int) bool { return ts[i] < ts[k] })
	for _, x := range ts {
		if len(j.images[x]) > 0 {
			continue
		}
		si := syms[x]
		zargs := make([]Val, len(si.Args))
		bargs := make([]Val, len(si.Args))
		ok := true
		for i, v := range si.Args {
			zargs[i], bargs[i], ok = j.substArg(v)
			if !ok {
				break
			}
		}
		if !ok {
			continue
		}
		var fb *Fact
		// evaluate the comparison on the other side
		switch si.Op {
		case "==", "!=", "<", "<=":
			if r, known := b.evalCond(Val{K: KCond, Op: opTok(si.Op), El: bargs}); known {
				fb = &Fact{Lo: math.MinInt64, Hi: math.MaxInt64, B: 1}
				if r {
					fb.B = 2
				}
			}
		case "len":
			if len(bargs) == 1 && bargs[0].K == KStr {
				l := b.strLen(bargs[0])
				fb = b.factOf(l)
			}
		}
		if fb == nil {
			y := lookupTerm(si.Op, si.T, bargs...)
			if y == 0 {
				continue
			}
			var k bool
			fb, k = b.facts[y]
			if !k {
				continue
			}
		}
		fa := a.facts[x]
		if fa.B != 0 && fa.B != fb.B {
			continue
		}
		z := term(si.Op, si.T, zargs...)
		if _, dup := j.r.facts[z]; dup {
			continue
		}
		joinFactInto(j.r, z, fa, fb)
		j.images[x] = append(j.images[x], pairRec{z: z, a: isym(x), b: isym(0)})
	}
	// facts present only on the right are irrelevant: the left does not know them.
	j.byteFacts(a, b, ts)
}

// byteFacts keeps what both sides know of the bytes close to a merged index:
// the byte itself need not be in a register, the program can load it again.
func (j *joiner) byteFacts(a, b *State, ts []Sym) {
	for _, x := range ts {
		si := syms[x]
		if si.Op != "sat" || len(si.Args) != 2 || si.Args[1].K != KInt {
			continue
		}
		zs, bs, ok := j.substArg(si.Args[0])
		if !ok {
			continue
		}
		v := si.Args[1]
		for _, rec := range j.list {
			if rec.a.K != KInt || rec.b.K != KInt || rec.a.S != v.S {
				continue
			}
			d := v.N - rec.a.N
			if d < -3 || d > 3 {
				continue
			}
			bi := rec.b
			bi.N += d
			y := lookupTerm(si.Op, si.T, bs, bi)
			if y == 0 {
				continue
			}
			fb, k := b.facts[y]
			if !k {
				continue
			}
			z := term(si.Op, si.T, zs, Val{K: KInt, S: rec.z, N: d})
			if _, dup := j.r.facts[z]; dup {
				continue
			}
			joinFactInto(j.r, z, a.facts[x], fb)
		}
	}
}

func lookupTerm(op string, t types.Type, args ...Val) Sym {
	var sb strings.Builder
	sb.WriteString(op)
	for _, a := range args {
		sb.WriteByte('|')
		argKey(&sb, a)
	}
	if t != nil {
		sb.WriteByte('#')
		sb.WriteString(types.TypeString(t, nil))
	}
	return termTab[sb.String()]
}

func (j *joiner) zone() {
	// participants
	seen := map[Sym]bool{}
	var ps, side []pairRec
	for _, p := range j.list {
		if seen[p.z] {
			continue
		}
		if p.a.S == p.b.S && p.a.N == p.b.N && !j.a.inZone(p.a) && !j.b.inZone(p.b) {
			// Unrelated to anything, but a length whose bounds differ may be
			// related to a value that is new in the joined state.
			if p.z != 0 && syms[p.z].Op == "len" {
				al, ah := j.a.rng(p.a)
				bl, bh := j.b.rng(p.b)
				if al != bl || ah != bh {
					seen[p.z] = true
					side = append(side, p)
				}
			}
			continue
		}
		seen[p.z] = true
		ps = append(ps, p)
	}
	if len(ps) > 60 {
		ps = ps[:60]
	}
	main := len(ps)
	if len(side) > 8 {
		side = side[:8]
	}
	ps = append(ps, side...)
	for x, p := range ps {
		for y, q := range ps {
			if p.z == q.z || x >= main && y >= main {
				continue
			}
			if (x >= main || y >= main) && p.a.S == p.b.S && q.a.S == q.b.S && p.a.S != 0 && q.a.S != 0 {
				continue
			}
			ca := j.a.subUB(p.a, q.a)
			if ca == math.MaxInt64 {
				continue
			}
			cb := j.b.subUB(p.b, q.b)
			if cb == math.MaxInt64 {
				continue
			}
			// bounds on the values actually used, a+off and b+off
			off := p.off - q.off
			ca, cb = addSat(ca, off), addSat(cb, off)
			c := ca
			if cb > c {
				c = cb
				if j.widen {
					switch {
					case cb <= -1:
						c = -1
					case cb <= 0:
						c = 0
					case cb <= 1:
						c = 1
					default:
						continue
					}
				}
			}
			if c > 4096 || c > 1 && j.intervalOnly(p, q, ca-off, cb-off) {
				continue
			}
			c -= off
			fp, fq := j.r.fact(p.z), j.r.fact(q.z)
			if addSat(fp.Hi, negSat(fq.Lo)) > c {
				j.r.zone[[2]Sym{p.z, q.z}] = c
			}
		}
	}
}

// intervalOnly: the bound says no more than the ranges do.
func (j *joiner) intervalOnly(p, q pairRec, ca, cb int64) bool {
	_, h := j.a.rng(p.a)
	l, _ := j.a.rng(q.a)
	if addSat(h, negSat(l)) > ca {
		return false
	}
	_, h = j.b.rng(p.b)
	l, _ = j.b.rng(q.b)
	return addSat(h, negSat(l)) <= cb
}

var thresholds = []int64{0, 1, 2, 3, 4, 7, 8, 9, 10, 12, 15, 16, 31, 32, 63, 64, 97, 98, 100, 127, 128, 160, 255, 256, 320, 999, 1000, 1450, 2047, 2048, 5060, 32767, 32768, 65535, 65536, 131072, 999999, 1 << 31, 1 << 32, 1 << 40, 1 << 41}

func (j *joiner) widenFacts() {
	for _, l := range j.images {
		for _, p := range l {
			fz, ok := j.r.facts[p.z]
			if !ok || p.a.K != KInt {
				continue
			}
			if p.a.S != 0 && !isIntSym(p.z) {
				continue
			}
			al, ah := j.a.rng(p.a)
			g := *fz
			ch := false
			if fz.Hi > ah {
				g.Hi = addSat(j.up(addSat(fz.Hi, p.off)), -p.off)
				ch = true
			}
			if fz.Lo < al {
				g.Lo = addSat(j.down(addSat(fz.Lo, p.off)), -p.off)
				ch = true
			}
			if ch {
				j.r.facts[p.z] = &g
			}
		}
	}
	for _, p := range j.list {
		fz := j.r.fact(p.z)
		al, ah := j.a.rng(p.a)
		g := *fz
		if fz.Hi > ah {
			g.Hi = addSat(j.up(addSat(fz.Hi, p.off)), -p.off)
		}
		if fz.Lo < al {
			g.Lo = addSat(j.down(addSat(fz.Lo, p.off)), -p.off)
		}
		if g.Hi != fz.Hi || g.Lo != fz.Lo {
			j.r.facts[p.z] = &g
		}
	}
}

func isIntSym(z Sym) bool { return syms[z].T != nil && isInt(syms[z].T) }

func (j *joiner) up(x int64) int64 {
	if j.coarse {
		for _, t := range []int64{255, 65535, 1 << 32} {
			if t >= x {
				return t
			}
		}
		return math.MaxInt64
	}
	return nextUp(x)
}

func (j *joiner) down(x int64) int64 {
	if j.coarse {
		if x >= 1 {
			return 1
		}
		if x >= 0 {
			return 0
		}
		return math.MinInt64
	}
	return nextDown(x)
}

func nextUp(x int64) int64 {
	for _, t := range thresholds {
		if t >= x {
			return t
		}
	}
	return math.MaxInt64
}
func nextDown(x int64) int64 {
	if x >= 0 {
		best := int64(0)
		for _, t := range thresholds {
			if t <= x {
				best = t
			}
		}
		return best
	}
	for _, t := range thresholds {
		if -t <= x {
			return -t
		}
	}
	return math.MinInt64
}

// subsumed reports whether B fits into A: every left symbol has one image and
// everything the left state knows also holds on the right.
func (j *joiner) subsumed() bool {
	// non-functional or constant-breaking pairs show up as pairs whose left
	// side is not a plain symbol, or left symbols with several images.
	for k, z := range j.pairs {
		if z == 0 {
			continue
		}
		switch k[0] {
		case 'n':
			var as, bs Sym
			var n int64
			fmt.Sscanf(k, "n%d~%d+%d", &as, &bs, &n)
			if as == 0 {
				return false
			}
		case 'u':
			if strings.HasPrefix(k, "ufalse") {
				// only on the right: new knowledge unless the symbol is shared
				if _, ok := j.pairs[fmt.Sprintf("id%s", k[6:])]; !ok {
					return false
				}
			}
		case 'v':
			// left must be a symbol; checked through images below
			i := strings.IndexByte(k, '~')
			if !leftIsSym(k[1:i]) {
				return false
			}
		}
	}
	for x, l := range j.images {
		if len(l) > 1 {
			b0 := l[0].b
			for _, p := range l[1:] {
				if !sameImage(p.b, b0) {
					return false
				}
			}
		}
		fa := j.a.fact(x)
		fr := j.r.fact(l[0].z)
		if !factLeq(fr, fa) {
			return false
		}
	}
	// every known fact of A must survive
	for x, fa := range j.a.facts {
		if len(j.images[x]) > 0 {
			continue
		}
		if op := syms[x].Op; op != "" && op != "init" && op != "len" {
			if fa.B != 0 && termLive(j, x) {
				return false
			}
			if !trivialFact(x, fa) && termLive(j, x) {
				return false
			}
		}
	}
	for k, c := range j.a.zone {
		zx, bx, ok1 := j.image(k[0])
		zy, by, ok2 := j.image(k[1])
		_, _ = zx, zy
		if !ok1 || !ok2 {
			continue
		}
		if bx.K != KInt || by.K != KInt {
			continue
		}
		if j.b.subUB(bx, by) > c {
			return false
		}
	}
	return true
}

func termLive(j *joiner, x Sym) bool {
	ok := true
	for _, a := range syms[x].Args {
		valSyms(a, func(y Sym) {
			if syms[y].Op == "" && len(j.images[y]) == 0 {
				ok = false
			}
		})
	}
	return ok
}

func trivialFact(x Sym, f *Fact) bool {
	d := defaultFact(x)
	return f.Nil == d.Nil && f.HasPts == d.HasPts && f.Lo <= d.Lo && f.Hi >= d.Hi && f.Set == nil && !f.HasIn && len(f.Out) == 0 && f.B == 0 && f.Par == 0
}

func leftIsSym(k string) bool {
	// keys produced by argKey for plain symbols: s<d>, b<d>:0, p<d>, f<d>, fn<d>, k..
	if k == "" {
		return false
	}
	digits := func(s string) bool {
		if s == "" {
			return false
		}
		for _, c := range s {
			if c < '0' || c > '9' {
				return false
			}
		}
		return true
	}
	switch {
	case strings.HasPrefix(k, "fn"):
		return digits(k[2:])
	case k[0] == 's', k[0] == 'p', k[0] == 'f':
		return digits(k[1:])
	case k[0] == 'b':
		i := strings.IndexByte(k, ':')
		return i > 1 && k[1:i] != "0"
	case k[0] == 'k':
		return true
	}
	return false
}

func sameImage(a, b Val) bool {
	return a.S == b.S && a.N == b.N && (a.S != 0 || valKey(a) == valKey(b))
}

// factLeq reports whether f is at least as strong as g (f implies g).
func factLeq(f, g *Fact) bool {
	if g.Nil != 0 && f.Nil != g.Nil {
		return false
	}
	if g.HasPts {
		if !f.HasPts {
			return false
		}
		for _, x := range f.Pts {
			in := false
			for _, y := range g.Pts {
				if x == y {
					in = true
				}
			}
			if !in {
				return false
			}
		}
	}
	if g.Alts != nil {
		if f.Alts == nil && f.Nil != 1 {
			return false
		}
		if len(f.Alts) > len(g.Alts) {
			return false
		}
	}
	if f.Lo < g.Lo || f.Hi > g.Hi {
		return false
	}
	if g.Set != nil {
		a, b := setOf(f), setOf(g)
		if f.Lo < 0 || f.Hi > 255 {
			return false
		}
		for i := range a {
			if a[i]&^b[i] != 0 {
				return false
			}
		}
	}
	if g.HasIn {
		if !f.HasIn {
			return false
		}
		for _, x := range f.In {
			if !hasStr(g.In, x) {
				return false
			}
		}
	}
	for _, x := range g.Out {
		if !(hasStr(f.Out, x) || f.HasIn && !hasStr(f.In, x)) {
			return false
		}
	}
	if g.B != 0 && f.B != g.B {
		return false
	}
	if g.Par != 0 && f.Par != g.Par {
		return false
	}
	return true
}

// joinLeaf merges two values of one state into one that may be either.
func joinLeaf(sa *State, a Val, sb *State, b Val, t types.Type, r *State, _ func(r, x, y Val)) Val {
	j := &joiner{a: sa, b: sb, r: r, pairs: map[string]Sym{}, taken: map[Sym]bool{}, images: map[Sym][]pairRec{}, noRename: true}
	v := j.pairLocal(a, b)
	return v
}

// pairLocal is pair within a single state (no renaming, no term merging).
func (j *joiner) pairLocal(a, b Val) Val {
	if a.K == KCond {
		a = j.a.boolSym(a)
	}
	if b.K == KCond {
		b = j.b.boolSym(b)
	}
	if a.K == KUndef {
		return b
	}
	if b.K == KUndef {
		return a
	}
	if valEq(a, b) {
		return a
	}
	if a.K == KSlice || b.K == KSlice {
		if a.K == KNil {
			a = nilSlice()
		}
		if b.K == KNil {
			b = nilSlice()
		}
		if a.K != KSlice || b.K != KSlice {
			return opaque(freshSym("w", nil))
		}
	}
	if len(a.El) > 0 && len(a.El) == len(b.El) && a.K == b.K && (a.K == KSlice || a.K == KStruct || a.K == KTuple || a.K == KIface && a.S == 0 && b.S == 0 && types.Identical(a.T, b.T)) {
		r := Val{K: a.K, T: a.T, El: make([]Val, len(a.El))}
		for i := range r.El {
			r.El[i] = j.pairLocal(a.El[i], b.El[i])
		}
		return r
	}
	kind := a.K
	if kind == KNil {
		kind = b.K
	}
	t := pickType(a, b, nil)
	switch kind {
	case KInt:
		t = types.Typ[types.Int]
	case KPtr, KStr, KBool, KIface, KFunc:
	default:
		kind = KOpaque
	}
	if kind == KIface {
		t = nil
		for _, v := range []Val{a, b} {
			if v.K == KIface && v.S != 0 {
				t = syms[v.S].T
			}
		}
	}
	z := freshSym("w", t)
	fa, fb := *j.a.factOf(a), *j.b.factOf(b)
	joinFactInto(j.r, z, &fa, &fb)
	if kind == KIface {
		j.r.facts[z].Alts = unionAlts(&fa, &fb)
	}
	if kind == KStr {
		la, lb := j.a.strLen(a), j.b.strLen(b)
		al, ah := j.a.rng(la)
		bl, bh := j.b.rng(lb)
		if bl < al {
			al = bl
		}
		if bh > ah {
			ah = bh
		}
		if al > 0 || ah < maxLen {
			lz := j.r.lenSym(z)
			j.r.updFact(lz, func(f *Fact) { f.Lo, f.Hi = al, ah })
		}
	}
	if kind == KInt {
		// relate to both when they share an ordering with common symbols
		for _, p := range []Val{a, b} {
			_ = p
		}
	}
	return Val{K: kind, S: z}
}
