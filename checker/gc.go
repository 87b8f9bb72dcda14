package main

import (
	"fmt"
	"sort"
	"strings"

	"go/types"
)

// reachInfo is the set of objects and symbols a state can still use.
type reachInfo struct {
	objs map[*Obj]bool
	syms map[Sym]bool
}

func (s *State) reach(extra ...Val) *reachInfo {
	r := &reachInfo{objs: map[*Obj]bool{}, syms: map[Sym]bool{}}
	var work []*Obj
	addObj := func(o *Obj) {
		if o != nil && !r.objs[o] {
			r.objs[o] = true
			work = append(work, o)
		}
	}
	var addVal func(v Val)
	var addSym func(x Sym)
	addSym = func(x Sym) {
		if x == 0 || r.syms[x] {
			return
		}
		r.syms[x] = true
		si := syms[x]
		for _, a := range si.Args {
			addVal(a)
		}
		f := s.fact(x)
		for _, l := range f.Pts {
			addObj(l.O)
		}
		for _, a := range f.Alts {
			addVal(a)
		}
		if !f.HasPts {
			if o, ok := symObjs[x]; ok {
				addObj(o)
			}
		}
	}
	addVal = func(v Val) {
		if v.L.O != nil {
			addObj(v.L.O)
		}
		if v.S != 0 {
			addSym(v.S)
		}
		for _, e := range v.El {
			addVal(e)
		}
	}
	for _, f := range s.frames {
		for _, v := range f.regs {
			addVal(v)
		}
		for _, d := range f.defers {
			addVal(d.fn)
			for _, a := range d.args {
				addVal(a)
			}
		}
		for _, o := range f.keep {
			addObj(o)
		}
	}
	for _, v := range s.mon.Vals {
		addVal(v)
	}
	for o := range s.heap {
		// an element found by name in a list that is not spelled out
		if o.Parent != 0 && syms[o.Parent].Op == "param" {
			addObj(o)
		}
	}
	addVal(s.ret)
	for _, v := range extra {
		addVal(v)
	}
	for o := range s.heap {
		if o.Global {
			addObj(o)
		}
	}
	for {
		for len(work) > 0 {
			o := work[len(work)-1]
			work = work[:len(work)-1]
			if os := s.heap[o]; os != nil {
				for k, v := range os.cells {
					if strings.HasPrefix(k, "$idx:") {
						continue
					}
					addVal(v)
				}
			}
		}
		// objects behind untouched contents of reachable input objects
		n := 0
		for o := range s.heap {
			if r.objs[o] || o.Parent == 0 {
				continue
			}
			if s.parentLive(r, o) {
				addObj(o)
				n++
			}
		}
		for _, o := range childSums {
			if r.objs[o] {
				continue
			}
			if _, in := s.heap[o]; in && o.parent != nil && r.objs[o.parent] {
				addObj(o)
				n++
			}
		}
		if n == 0 {
			break
		}
	}
	return r
}

func (s *State) parentLive(r *reachInfo, o *Obj) bool {
	for o != nil && o.Parent != 0 {
		if r.syms[o.Parent] {
			return true
		}
		si := syms[o.Parent]
		if si.Op != "init" {
			return false
		}
		if r.objs[si.L.O] {
			return true
		}
		o = si.L.O
	}
	return false
}

func (s *State) leafLive(r *reachInfo, x Sym) bool {
	if r.syms[x] {
		return true
	}
	si := syms[x]
	if si.Op == "init" {
		return r.objs[si.L.O] || s.parentLive(r, si.L.O)
	}
	return false
}

func (s *State) termLive(r *reachInfo, x Sym) bool {
	if s.leafLive(r, x) {
		return true
	}
	si := syms[x]
	if si.Op == "" || si.Op == "init" {
		return false
	}
	ok := true
	for _, a := range si.Args {
		s.argLive(r, a, &ok)
	}
	return ok
}

func (s *State) argLive(r *reachInfo, v Val, ok *bool) {
	if v.S != 0 && !s.termLive(r, v.S) {
		*ok = false
	}
	for _, e := range v.El {
		s.argLive(r, e, ok)
	}
}

// gc drops unreachable objects and facts.
func (s *State) gc(extra ...Val) {
	r := s.reach(extra...)
	for o := range s.heap {
		if !r.objs[o] && !o.Global {
			delete(s.heap, o)
		}
	}
	for x := range s.facts {
		if !s.termLive(r, x) {
			delete(s.facts, x)
		}
	}
	for k := range s.zone {
		if k[0] != 0 && !s.termLive(r, k[0]) || k[1] != 0 && !s.termLive(r, k[1]) {
			// keep transitive consequences through the dropped symbol
			s.projectZone(r)
			break
		}
	}
}

func (s *State) projectZone(r *reachInfo) {
	dead := map[Sym]bool{}
	for k := range s.zone {
		for _, x := range k {
			if x != 0 && !s.termLive(r, x) {
				dead[x] = true
			}
		}
	}
	var ds []Sym
	for x := range dead {
		ds = append(ds, x)
	}
	sort.Slice(ds, func(i, k int) bool { return ds[i] < ds[k] })
	for _, d := range ds {
		var in, out [][2]Sym
		for k := range s.zone {
			if k[1] == d { // a - d <= c
				in = append(in, k)
			}
			if k[0] == d { // d - b <= c
				out = append(out, k)
			}
		}
		for _, i := range in {
			for _, o := range out {
				if i[0] == o[1] {
					continue
				}
				k := [2]Sym{i[0], o[1]}
				c := addSat(s.zone[i], s.zone[o])
				if old, ok := s.zone[k]; !ok || c < old {
					s.zone[k] = c
				}
			}
		}
		for _, k := range append(in, out...) {
			delete(s.zone, k)
		}
	}
}

// substituter rewrites a whole state.
type substituter struct {
	st   *State
	memo map[Sym]Val
	sym  func(x Sym) (Val, bool) // replacement of leaf and init symbols
	obj  func(o *Obj) *Obj
}

func (u *substituter) loc(l Loc) Loc {
	if l.O != nil {
		l.O = u.obj(l.O)
	}
	return l
}

func (u *substituter) val(v Val) Val {
	r := v
	if v.L.O != nil {
		r.L = u.loc(v.L)
	}
	if len(v.El) > 0 {
		r.El = make([]Val, len(v.El))
		for i, e := range v.El {
			r.El[i] = u.val(e)
		}
	}
	if v.S != 0 {
		n := u.symv(v.S)
		if n.S == v.S && n.N == 0 {
			return r
		}
		switch v.K {
		case KInt:
			if n.K == KInt {
				return Val{K: KInt, S: n.S, N: n.N + v.N}
			}
			return v
		default:
			if n.S != 0 && (n.K == KInt || n.K == v.K) && n.N == 0 {
				r.S = n.S
				return r
			}
			if len(v.El) > 0 && v.K == KPtr {
				n.El, n.Str = r.El, r.Str
			}
			return n
		}
	}
	return r
}

// symv returns the value a symbol turns into; for renamed symbols K is KInt.
func (u *substituter) symv(x Sym) Val {
	if v, ok := u.memo[x]; ok {
		return v
	}
	u.memo[x] = Val{K: KInt, S: x}
	if v, ok := u.sym(x); ok {
		u.memo[x] = v
		return v
	}
	si := syms[x]
	if si.Op == "" || si.Op == "init" {
		return u.memo[x]
	}
	ch := false
	args := make([]Val, len(si.Args))
	for i, a := range si.Args {
		args[i] = u.val(a)
		if !valEq(args[i], a) {
			ch = true
		}
	}
	if !ch {
		return u.memo[x]
	}
	z := term(si.Op, si.T, args...)
	u.memo[x] = Val{K: KInt, S: z}
	return u.memo[x]
}

func (u *substituter) fact(f *Fact) *Fact {
	g := *f
	if len(f.Pts) > 0 {
		g.Pts = nil
		for _, l := range f.Pts {
			g.Pts = unionPts(g.Pts, []Loc{u.loc(l)})
		}
	}
	if len(f.Alts) > 0 {
		g.Alts = nil
		for _, a := range f.Alts {
			g.Alts = append(g.Alts, u.val(a))
		}
	}
	return &g
}

// fold turns the most recently allocated object of a site into the summary of
// the older ones.
func (s *State) fold(o, old *Obj) {
	// child objects reached through initial contents
	om := map[*Obj]*Obj{o: old}
	chk := map[*Obj]bool{}
	var mapObj func(p *Obj) *Obj
	mapObj = func(p *Obj) *Obj {
		if n, ok := om[p]; ok {
			return n
		}
		if chk[p] || p.Parent == 0 {
			return p
		}
		chk[p] = true
		si := syms[p.Parent]
		if si.Op == "init" {
			q := mapObj(si.L.O)
			if q != si.L.O {
				t := si.T
				n := childSummary(q, si.L.Path, t)
				om[p] = n
				return n
			}
		}
		chk[p] = false
		return p
	}
	u := &substituter{st: s, memo: map[Sym]Val{}, obj: mapObj}
	u.sym = func(x Sym) (Val, bool) {
		si := syms[x]
		if si.Op != "init" {
			return Val{}, false
		}
		q := mapObj(si.L.O)
		if q == si.L.O {
			return Val{}, false
		}
		return Val{K: KInt, S: u.renamed(x, q)}, true
	}
	s.applySubst(u)
	s.foldSlices()
}

func (s *State) foldSlices() {}

// renamed gives an init symbol of a folded object a new name, keeping what is known.
func (u *substituter) renamed(x Sym, q *Obj) Sym {
	si := syms[x]
	z := freshSym("old"+shortPath(si.L.Path), si.T)
	f := *u.st.fact(x)
	if isPtrSym(x) && !f.HasPts && f.Nil != 1 {
		if elemOf(si.T) != nil {
			f.HasPts = true
			f.Pts = []Loc{{childSummary(q, si.L.Path, si.T), ""}}
		}
	}
	u.st.facts[z] = &f
	return z
}

func shortPath(p string) string {
	if len(p) > 30 {
		p = p[:30]
	}
	return p
}

func (s *State) applySubst(u *substituter) {
	// Facts first (keys), so that renamed symbols get theirs.
	nf := map[Sym]*Fact{}
	keys := make([]Sym, 0, len(s.facts))
	for x := range s.facts {
		keys = append(keys, x)
	}
	sort.Slice(keys, func(i, k int) bool { return keys[i] < keys[k] })
	for _, x := range keys {
		v := u.symv(x)
		if v.S != 0 && v.N == 0 && (v.K == KInt) {
			nf[v.S] = u.fact(s.facts[x])
		} else if v.S != 0 && v.N == 0 {
			nf[v.S] = u.fact(s.facts[x])
		}
	}
	for i, f := range s.frames {
		g := &Frame{fn: f.fn, ctx: f.ctx, call: f.call, owner: s, keep: f.keep}
		g.regs = make(map[ssaValue]Val, len(f.regs))
		for _, k := range sortedRegs(f.regs) {
			g.regs[k] = u.val(f.regs[k])
		}
		for _, d := range f.defers {
			nd := Deferred{call: d.call, fn: u.val(d.fn)}
			for _, a := range d.args {
				nd.args = append(nd.args, u.val(a))
			}
			g.defers = append(g.defers, nd)
		}
		s.frames[i] = g
	}
	m := &Mon{Key: s.mon.Key, Vals: map[string]Val{}}
	for _, k := range sortedKeys(s.mon.Vals) {
		m.Vals[k] = u.val(s.mon.Vals[k])
	}
	s.mon = m
	s.ret = u.val(s.ret)
	// facts created while renaming live in s.facts under new names
	for x, f := range s.facts {
		if _, ok := nf[x]; !ok {
			if _, was := u.memo[x]; !was {
				nf[x] = u.fact(f)
			}
		}
	}
	oldFacts := s.facts
	_ = oldFacts
	s.facts = nf
	nz := map[[2]Sym]int64{}
	for k, c := range s.zone {
		a, b := Val{K: KInt}, Val{K: KInt}
		if k[0] != 0 {
			a = u.symv(k[0])
		}
		if k[1] != 0 {
			b = u.symv(k[1])
		}
		if a.K != KInt || b.K != KInt {
			continue
		}
		c = addSat(c, b.N-a.N)
		if a.S == b.S {
			continue
		}
		if a.S == 0 || b.S == 0 {
			continue
		}
		kk := [2]Sym{a.S, b.S}
		if o, ok := nz[kk]; !ok || c < o {
			nz[kk] = c
		}
	}
	s.zone = nz
	// Heap.
	oh := s.heap
	s.heap = map[*Obj]*OState{}
	ol := make([]*Obj, 0, len(oh))
	for o := range oh {
		ol = append(ol, o)
	}
	sort.Slice(ol, func(i, k int) bool { return ol[i].ID < ol[k].ID })
	type pend struct {
		o  *Obj
		os *OState
	}
	var pends []pend
	for _, o := range ol {
		os := &OState{cells: map[string]Val{}, ver: oh[o].ver, owner: s}
		for _, k := range sortedKeys(oh[o].cells) {
			v := u.val(oh[o].cells[k])
			nk := k
			if i := strings.Index(k, "[@"); i >= 0 && !strings.HasPrefix(k, "$") {
				j := strings.IndexByte(k, ']')
				if iv, ok := oh[o].cells["$idx:"+k[i+2:j]]; ok {
					nv := u.val(iv)
					nk = k[:i] + "[@" + valKey(nv) + k[j:]
				}
			}
			if strings.HasPrefix(k, "$idx:") {
				nk = "$idx:" + valKey(v)
			}
			os.cells[nk] = v
		}
		n := u.obj(o)
		if n == o {
			s.heap[o] = os
		} else {
			pends = append(pends, pend{n, os})
		}
	}
	// merge folded objects into summaries
	for _, p := range pends {
		cur := s.heap[p.o]
		if cur == nil {
			if p.o.Input && p.o.Summary && len(p.os.cells) == 0 {
				continue
			}
			n := &OState{cells: map[string]Val{}, ver: p.os.ver, owner: s}
			s.heap[p.o] = n
			for k, v := range p.os.cells {
				if strings.Contains(k, "[@") && !strings.HasPrefix(k, "$") {
					k = starPath(k)
				}
				if strings.HasPrefix(k, "$idx:") {
					continue
				}
				if old, ok := n.cells[k]; ok {
					v = s.weakJoin(old, v, cellType(p.o, k, v))
				}
				n.cells[k] = v
			}
			if p.o.Input && !p.o.sawFold {
				// contents of earlier folded objects may be the defaults
				continue
			}
			continue
		}
		for _, k := range sortedKeys(p.os.cells) {
			v := p.os.cells[k]
			if strings.Contains(k, "[@") && !strings.HasPrefix(k, "$") {
				k = starPath(k)
			}
			if strings.HasPrefix(k, "$idx:") {
				continue
			}
			cw := s.wstate(p.o)
			if old, ok := cw.cells[k]; ok {
				cw.cells[k] = s.weakJoin(old, v, cellType(p.o, k, v))
			} else if strings.Contains(k, "[*]") {
				cw.cells[k] = v
			} else if !strings.HasPrefix(k, "$") {
				if t := cellType(p.o, k, v); t != nil {
					d := s.defaultCell(Loc{p.o, k}, t)
					s.wstate(p.o).cells[k] = s.weakJoin(d, v, t)
				}
			}
		}
		cw := s.wstate(p.o)
		for _, k := range sortedKeys(cw.cells) {
			if _, ok := p.os.cells[k]; !ok && !strings.HasPrefix(k, "$") && !strings.Contains(k, "[") {
				if t := cellType(p.o, k, cw.cells[k]); t != nil {
					d := zeroVal(t)
					if p.o.Input {
						d = s.defaultCell(Loc{p.o, k}, t)
					}
					s.wstate(p.o).cells[k] = s.weakJoin(cw.cells[k], d, t)
				}
			} else if !ok && strings.HasPrefix(k, "$") {
				delete(s.wstate(p.o).cells, k)
			}
		}
	}
}

func sortedRegs(m map[ssaValue]Val) []ssaValue {
	ks := make([]ssaValue, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, k int) bool { return ks[i].Name() < ks[k].Name() })
	return ks
}

var _ = fmt.Sprint
var _ types.Type
