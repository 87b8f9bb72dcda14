package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A function that scans its input is cut at every block several paths lead to. What happens from
// one cut to the next is interpreted from an arbitrary state about which only the facts found for
// that cut are known (differences of integers, nil pointers, which fields are filled in); the facts
// are weakened until they hold on every way to the cut. The result is the function's automaton: its
// edges say which bytes are looked at, how far the cursor moves and what is stored.
type scan struct {
	c      *Check
	e      *Engine
	fn     *ssa.Function
	fi     *fnInfo
	data   ssa.Value
	dobj   *Obj
	n      Val
	once   map[ssa.Value]bool
	consts map[ssa.Value]bool // registers that only ever hold constants
	cursor map[ssa.Value]bool
	base   *State
	args   map[ssa.Value]Val
	nodes  map[string]*scanNode
	local  map[*ssa.BasicBlock]bool
	order  []*scanNode
	start  *scanNode
	texts  map[Sym]Val // strings made of bytes
	failed string
}

type scanNode struct {
	id      int
	key     string
	b       *ssa.BasicBlock
	live    []ssa.Value
	ints    []ssa.Value
	env     map[ssa.Value]Val // symbols of the entry state
	objs    map[*Obj]*Obj
	entry   *State
	p       Val // cursor at entry
	rewound Val // where the cursor was put back to last
	facts   *scanFacts
	dirty   bool
	edges   []*scanEdge
	runs    int
}

// scanFacts is what holds whenever a cut is reached.
type scanFacts struct {
	diff map[[2]string]int64
	nil_ map[string]uint8
	full map[string]bool     // fields: non-empty text, non-nil pointer
	num  map[string][2]int64 // fields: bounds of a number
	set  [4]uint64           // bytes under the cursor
	same map[string]Val      // constants
}

type scanEdge struct {
	from, to *scanNode
	st       *State
	ret      Val
	isRet    bool
	p        Val // cursor afterwards
	look     map[int64]*[4]uint64
	tape     []scanAct
	rewind   bool // the cursor is put somewhere else
	onward   bool // beyond where it was put the last time
	env      map[ssa.Value]Val
}

type scanAct struct {
	kind string // store, call
	name string // place or function
	vals []Val
	in   ssa.Instruction
}

const allBytes = ^uint64(0)

func fullSet() [4]uint64 { return [4]uint64{allBytes, allBytes, allBytes, allBytes} }

func setHas(s *[4]uint64, b int) bool { return s == nil || s[b/64]&(1<<(b%64)) != 0 }

// scanOf extracts the automaton of a function whose first parameter is the input.
func (c *Check) scanOf(e *Engine, fn *ssa.Function) *scan {
	s := &scan{c: c, e: e, fn: fn, fi: e.fi(fn), nodes: map[string]*scanNode{}, local: map[*ssa.BasicBlock]bool{}, once: map[ssa.Value]bool{}, consts: map[ssa.Value]bool{}, cursor: map[ssa.Value]bool{}, args: map[ssa.Value]Val{}}
	for _, p := range fn.Params {
		if isByteSlice(p.Type()) {
			s.data = p
			break
		}
	}
	if s.data == nil {
		s.failed = "no input"
		return s
	}
	s.webs()
	if len(s.cursor) == 0 {
		s.failed = "no cursor over the input"
		return s
	}
	s.hooks()
	// the beginning
	st := e.entryState()
	f := &Frame{fn: fn, regs: map[ssa.Value]Val{}, ctx: fn.Name(), owner: st}
	for _, p := range fn.Params {
		v := e.genericArg(st, fn.Name()+"."+p.Name(), p.Type())
		f.regs[p] = v
		s.args[p] = v
	}
	d := f.regs[s.data]
	if d.K != KSlice || d.El[0].S == 0 {
		s.failed = "input is not a slice of bytes"
		return s
	}
	s.dobj = objOfSym(d.El[0].S)
	s.n = d.El[2]
	st.frames = []*Frame{f}
	st.setMonVal("$G", iconst(-1))
	e.fnSeen[fn] = true
	start := &scanNode{id: -1, key: "start", b: fn.Blocks[0], entry: st, p: iconst(0)}
	s.base = st
	s.start = start
	s.region(start)
	for len(start.edges) > 0 && s.failed == "" {
		var w *scanNode
		for _, n := range s.order {
			if n.dirty && (w == nil || s.fi.order[n.b] < s.fi.order[w.b]) {
				w = n
			}
		}
		if w == nil {
			break
		}
		w.dirty = false
		w.runs++
		if w.runs > 60 {
			s.failed = "facts do not settle"
			break
		}
		s.enter(w)
		s.region(w)
		if e.gaveUp != "" {
			s.failed = e.gaveUp
		}
	}
	s.order = append([]*scanNode{start}, s.order...)
	return s
}

func (s *scan) hooks() {
	e := s.e
	e.onStore = func(e *Engine, tg target, v Val, in *ssa.Store) {
		if !s.noted(tg.st) {
			return
		}
		loc := tg.l
		name := loc.Path
		idx := undef
		if len(tg.el) > 0 {
			idx = tg.el[0]
		}
		s.note(tg.st, scanAct{kind: "store", name: name, vals: []Val{ploc(loc), idx, v}, in: in})
	}
	s.texts = map[Sym]Val{}
	e.onBytesToString = func(st *State, b, v Val) { s.texts[v.S] = b }
	old := e.onCall
	e.onCall = func(e *Engine, cc *callCtx) ([]callRes, bool) {
		if cc.fn != nil && s.noted(cc.st) {
			s.note(cc.st, scanAct{kind: "call", name: fnName(cc.fn), vals: append([]Val(nil), cc.args...), in: cc.in})
		}
		if old != nil {
			return old(e, cc)
		}
		return nil, false
	}
}

// noted: in the function itself or a helper without loops or recursion.
func (s *scan) noted(st *State) bool {
	seen := map[*ssa.Function]bool{}
	for _, f := range st.frames {
		if seen[f.fn] {
			return false
		}
		seen[f.fn] = true
		if f.fn != s.fn && (len(s.e.fi(f.fn).heads) > 0 || selfCalls(f.fn)) {
			return false
		}
	}
	return len(st.frames) > 0
}

func selfCalls(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

// note writes to the tape, which is kept in the path's key.
func (s *scan) note(st *State, a scanAct) {
	n := strings.Count(st.mon.Key, ";")
	k := fmt.Sprintf("$t%d", n)
	st.setMon(st.mon.Key + fmt.Sprintf("%s %s %p;", a.kind, a.name, a.in))
	st.setMonVal(k, Val{K: KTuple, El: a.vals})
	tapeIns[fmt.Sprintf("%p", a.in)] = a.in
}

var tapeIns = map[string]ssa.Instruction{}

func tapeOf(st *State) []scanAct {
	var r []scanAct
	for i, l := range strings.Split(st.mon.Key, ";") {
		f := strings.Split(l, " ")
		if len(f) != 3 {
			continue
		}
		v, _ := st.monVal(fmt.Sprintf("$t%d", i))
		r = append(r, scanAct{kind: f[0], name: f[1], vals: v.El, in: tapeIns[f[2]]})
	}
	return r
}

// webs finds the cursor, the constants-only registers and what is computed at most once.
func (s *scan) webs() {
	// blocks on a cycle
	idx := map[*ssa.BasicBlock]int{}
	low := map[*ssa.BasicBlock]int{}
	on := map[*ssa.BasicBlock]bool{}
	cyc := map[*ssa.BasicBlock]bool{}
	var stack []*ssa.BasicBlock
	n := 0
	type fr struct {
		b *ssa.BasicBlock
		k int
	}
	work := []fr{}
	push := func(b *ssa.BasicBlock) {
		n++
		idx[b], low[b] = n, n
		stack = append(stack, b)
		on[b] = true
		work = append(work, fr{b, 0})
	}
	push(s.fn.Blocks[0])
	for len(work) > 0 {
		t := &work[len(work)-1]
		if t.k < len(t.b.Succs) {
			x := t.b.Succs[t.k]
			t.k++
			if idx[x] == 0 {
				push(x)
			} else if on[x] && idx[x] < low[t.b] {
				low[t.b] = idx[x]
			}
			continue
		}
		b := t.b
		work = work[:len(work)-1]
		if len(work) > 0 {
			if u := work[len(work)-1].b; low[b] < low[u] {
				low[u] = low[b]
			}
		}
		if low[b] == idx[b] {
			var comp []*ssa.BasicBlock
			for {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[x] = false
				comp = append(comp, x)
				if x == b {
					break
				}
			}
			if len(comp) > 1 {
				for _, x := range comp {
					cyc[x] = true
				}
			}
		}
	}
	for _, b := range s.fn.Blocks {
		for _, y := range b.Succs {
			if y == b {
				cyc[b] = true
			}
		}
	}
	for _, p := range s.fn.Params {
		s.once[p] = true
	}
	var phis []*ssa.Phi
	for _, b := range s.fn.Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			ph, isPhi := in.(*ssa.Phi)
			if isPhi {
				phis = append(phis, ph)
			}
			if !cyc[b] && !isPhi {
				s.once[v] = true
			}
			// the cursor: what the input is indexed with
			if ia, ok := in.(*ssa.IndexAddr); ok && ia.X == s.data {
				x := ia.Index
				for {
					if bo, ok := x.(*ssa.BinOp); ok {
						if _, k := bo.Y.(*ssa.Const); k {
							x = bo.X
							continue
						}
					}
					break
				}
				if _, ok := x.(*ssa.Const); !ok {
					s.cursor[x] = true
				}
			}
		}
	}
	// what is joined with the cursor is the cursor; an index that goes the other way (end--) is not
	steps := func(v ssa.Value) (ssa.Value, int64, bool) {
		d := int64(0)
		for {
			bo, ok := v.(*ssa.BinOp)
			if !ok {
				return v, d, true
			}
			k, ok := bo.Y.(*ssa.Const)
			if !ok || k.Value == nil {
				return v, d, true
			}
			n, ok := constant.Int64Val(k.Value)
			if !ok {
				return v, d, true
			}
			switch bo.Op.String() {
			case "+":
				d += n
			case "-":
				d -= n
			default:
				return v, d, true
			}
			v = bo.X
		}
	}
	// the largest web of joined registers among the candidates
	parent := map[ssa.Value]ssa.Value{}
	var find func(v ssa.Value) ssa.Value
	find = func(v ssa.Value) ssa.Value {
		for parent[v] != nil && parent[v] != v {
			v = parent[v]
		}
		return v
	}
	for _, ph := range phis {
		if !isInt(ph.Type()) {
			continue
		}
		for _, x := range ph.Edges {
			r, _, _ := steps(x)
			if _, ok := r.(*ssa.Const); ok {
				continue
			}
			if a, b := find(ph), find(r); a != b {
				parent[a] = b
			}
		}
	}
	size := map[ssa.Value]int{}
	for v := range s.cursor {
		size[find(v)]++
	}
	var best ssa.Value
	for v, k := range size {
		if best == nil || k > size[best] {
			best = v
		}
	}
	if best != nil {
		m := map[ssa.Value]bool{}
		// several variables may share a web through rewinding (p = mark): tell them apart by name
		name := ""
		cnt := map[string]int{}
		for v := range s.cursor {
			if find(v) == best {
				if ph, ok := v.(*ssa.Phi); ok {
					cnt[ph.Comment]++
				}
			}
		}
		for k, x := range cnt {
			if name == "" || x > cnt[name] || x == cnt[name] && k < name {
				name = k
			}
		}
		for _, ph := range phis {
			if isInt(ph.Type()) && find(ph) == best && ph.Comment == name {
				m[ph] = true
			}
		}
		s.cursor = m
	}
	// constants only
	bad := map[*ssa.Phi]bool{}
	for ch := true; ch; {
		ch = false
		for _, ph := range phis {
			if bad[ph] {
				continue
			}
			for _, x := range ph.Edges {
				switch y := x.(type) {
				case *ssa.Const:
					if isInt(y.Type()) {
						continue
					}
				case *ssa.Phi:
					if !bad[y] {
						continue
					}
				}
				bad[ph] = true
				ch = true
				break
			}
		}
	}
	for _, ph := range phis {
		if !bad[ph] && isInt(ph.Type()) && !s.cursor[ph] {
			s.consts[ph] = true
		}
	}
}

func (s *scan) isCut(b *ssa.BasicBlock) bool { return len(b.Preds) > 1 && !s.isLocal(b) }

// isLocal: the ways to the block are a few branches just before it, which are kept apart.
func (s *scan) isLocal(b *ssa.BasicBlock) bool {
	if r, ok := s.local[b]; ok {
		return r
	}
	s.local[b] = false
	d := b.Idom()
	if d == nil || s.fi.heads[b] {
		return false
	}
	in := map[*ssa.BasicBlock]bool{}
	stack := append([]*ssa.BasicBlock(nil), b.Preds...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if x == d || in[x] {
			continue
		}
		in[x] = true
		if len(in) > 4 || !d.Dominates(x) || s.fi.heads[x] {
			return false
		}
		stack = append(stack, x.Preds...)
	}
	s.local[b] = true
	return true
}

// region interprets from a node to the next cuts.
func (s *scan) region(n *scanNode) {
	type item struct {
		st *State
		b  *ssa.BasicBlock
	}
	n.edges = nil
	st := n.entry.clone()
	st.setMon("")
	stack := []item{{st, n.b}}
	steps := 0
	for len(stack) > 0 && s.e.gaveUp == "" {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		s.e.blocks[it.b] = true
		if steps++; steps > 5000 {
			s.failed = "too many paths between two cuts"
			return
		}
		outs := s.e.block(it.st, it.b)
		for i := len(outs) - 1; i >= 0; i-- {
			o := outs[i]
			if !o.ret && !s.isCut(o.to) {
				o.st.pruneRegs(s.fi.liveInPhi(o.to))
				stack = append(stack, item{o.st, o.to})
				continue
			}
			ed := &scanEdge{from: n, st: o.st, look: map[int64]*[4]uint64{}, tape: tapeOf(o.st)}
			s.looks(n, ed)
			if o.ret {
				ed.isRet = true
				ed.ret = o.st.ret
				n.edges = append(n.edges, ed)
				continue
			}
			o.st.pruneRegs(s.fi.liveInPhi(o.to))
			ed.env = o.st.top().regs
			for v := range s.cursor {
				if x, ok := ed.env[v]; ok {
					ed.p = x
					break
				}
			}
			if ed.p.K == KInt {
				if _, ok := offsetFrom(ed.p, n.p); !ok {
					g, _ := o.st.monVal("$G")
					ed.rewind = true
					ed.onward = o.st.lt(g, ed.p)
					o.st.setMonVal("$G", ed.p)
				}
			}
			ed.to = s.arrive(o.st, o.to)
			n.edges = append(n.edges, ed)
		}
	}
}

// looks collects what is known of the bytes looked at.
func (s *scan) looks(n *scanNode, ed *scanEdge) {
	for x, f := range ed.st.facts {
		i, ok := s.byteIndex(x)
		if !ok {
			continue
		}
		off, ok := offsetFrom(i, n.p)
		if !ok {
			continue
		}
		set := byteSet(f)
		if old := ed.look[off]; old != nil {
			for i := range set {
				set[i] &= old[i]
			}
		}
		ed.look[off] = &set
	}
}

// byteIndex: the symbol is a byte of the input; where.
func (s *scan) byteIndex(x Sym) (Val, bool) {
	si := syms[x]
	switch {
	case si.Op == "at" && len(si.Args) > 1 && si.Args[0].L.O == s.dobj:
		return si.Args[1], true
	case si.Op == "init" && si.L.O == s.dobj:
		var k int64
		if _, err := fmt.Sscanf(si.L.Path, "[%d]", &k); err == nil && si.L.Path == fmt.Sprintf("[%d]", k) {
			return iconst(k), true
		}
	}
	return undef, false
}

// byteSym is the symbol of the input's byte at an index.
func (s *scan) byteSym(x Val) Sym {
	if x.isConstInt() {
		return initSym(Loc{s.dobj, fmt.Sprintf("[%d]", x.N)}, elemOf(s.data.Type()))
	}
	return term("at", elemOf(s.data.Type()), ploc(Loc{s.dobj, ""}), x, strc(""), iconst(0))
}

func byteSet(f *Fact) (r [4]uint64) {
	for i := 0; i < 256; i++ {
		if int64(i) < f.Lo || int64(i) > f.Hi || f.Set != nil && !setHas(f.Set, i) {
			continue
		}
		r[i/64] |= 1 << (i % 64)
	}
	return
}

// offsetFrom: v = p + d.
func offsetFrom(v, p Val) (int64, bool) {
	a, d, ok := affine(v)
	b, f, ok2 := affine(p)
	if !ok || !ok2 || a != b {
		return 0, false
	}
	return d - f, true
}

// structOf is the structure type a register points to.
func structOf(v ssa.Value) types.Type {
	t := derefType(v.Type())
	if t == nil {
		return nil
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return nil
	}
	return t
}

func scanName(v ssa.Value) string { return v.Name() }

// arrive joins a state's facts into the node it reaches.
func (s *scan) arrive(st *State, b *ssa.BasicBlock) *scanNode {
	regs := st.top().regs
	key := fmt.Sprint(b.Index)
	for _, v := range sortedRegs(regs) {
		if s.consts[v] && regs[v].isConstInt() {
			key += fmt.Sprintf("|%s=%d", v.Name(), regs[v].N)
		}
		// whether a place for a value has been chosen
		if t := derefType(v.Type()); t != nil && !s.once[v] {
			if _, ok := t.Underlying().(*types.Basic); ok {
				if k := st.nilness(regs[v]); k != 0 {
					key += fmt.Sprintf("|%s?%d", v.Name(), k)
				}
			}
		}
	}
	n := s.nodes[key]
	if n == nil {
		n = &scanNode{id: len(s.nodes), key: key, b: b, env: map[ssa.Value]Val{}, objs: map[*Obj]*Obj{}}
		for v := range s.fi.liveInPhi(b) {
			n.live = append(n.live, v)
		}
		sort.Slice(n.live, func(i, j int) bool { return n.live[i].Name() < n.live[j].Name() })
		for _, v := range n.live {
			if isInt(v.Type()) && !s.once[v] {
				n.ints = append(n.ints, v)
			}
		}
		s.nodes[key] = n
		s.order = append(s.order, n)
	}
	f := s.factsAt(st, n)
	if n.facts == nil {
		n.facts = f
		n.dirty = true
		return n
	}
	if n.facts.join(f) {
		n.dirty = true
	}
	return n
}

func (s *scan) factsAt(st *State, n *scanNode) *scanFacts {
	f := &scanFacts{diff: map[[2]string]int64{}, nil_: map[string]uint8{}, full: map[string]bool{}, num: map[string][2]int64{}, set: fullSet(), same: map[string]Val{}}
	regs := st.top().regs
	type tv struct {
		n string
		v Val
	}
	ts := []tv{{"0", iconst(0)}, {"N", s.n}}
	if g, ok := st.monVal("$G"); ok {
		ts = append(ts, tv{"$G", g})
	}
	for _, v := range n.ints {
		if x, ok := regs[v]; ok && x.K == KInt {
			ts = append(ts, tv{v.Name(), x})
			if x.isConstInt() {
				f.same[v.Name()] = x
			}
		}
	}
	for i := range ts {
		for j := range ts {
			if i == j {
				continue
			}
			ub := st.subUB(ts[i].v, ts[j].v)
			if ub > 1<<40 || j != 0 && ub > 2 {
				continue
			}
			if ub < -2 && i != 0 {
				ub = -2
			}
			f.diff[[2]string{ts[i].n, ts[j].n}] = ub
		}
	}
	for _, v := range n.live {
		x, ok := regs[v]
		if !ok {
			continue
		}
		switch v.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Slice:
			if k := st.nilness(x); k != 0 {
				f.nil_[v.Name()] = k
			}
		}
		if isStr(v.Type()) {
			if lo, _ := st.rng(st.strLen(x)); lo >= 1 {
				f.full[v.Name()] = true
			}
		}
		if t := structOf(v); t != nil && st.nilness(x) == 2 {
			l, ok := loc1(st, x)
			if !ok {
				continue
			}
			for _, fl := range structFields(t) {
				if isInt(fl.Type()) {
					lo, hi := st.rng(st.load(Loc{l.O, l.Path + "." + fl.Name()}, fl.Type()))
					if lo >= 0 && hi <= 1<<40 {
						f.num[v.Name()+"."+fl.Name()] = [2]int64{lo, hi}
					}
					continue
				}
				if filled(st, st.load(Loc{l.O, l.Path + "." + fl.Name()}, fl.Type()), fl.Type()) {
					f.full[v.Name()+"."+fl.Name()] = true
				}
			}
		}
	}
	for v := range s.cursor {
		if x, ok := regs[v]; ok {
			d := st.top()
			_ = d
			y := s.byteSym(x)
			if ff, ok := st.facts[y]; ok {
				f.set = byteSet(ff)
			}
		}
	}
	return f
}

// filled: a text that is not empty, a pointer that is not nil.
func filled(st *State, v Val, t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice:
		return st.nilness(v) == 2
	}
	switch {
	case isStr(t):
		lo, _ := st.rng(st.strLen(v))
		return lo >= 1
	}
	return false
}

func (a *scanFacts) join(b *scanFacts) bool {
	ch := false
	for k, x := range a.diff {
		y, ok := b.diff[k]
		switch {
		case !ok:
			delete(a.diff, k)
			ch = true
		case y > x:
			switch {
			case k[1] == "0" && y-x > 2*x/3 && y > 8: // something that grows by factors
			case k[1] == "0" && y > 2 && y <= 255:
				y = 255
			case k[1] == "0" && y > 255 && x < 255:
				y = 255
			case k[1] == "0" && y > 255:
				y = math.MaxInt64
			case k[0] == "0" && y > 0, y > 2:
				y = math.MaxInt64
			}
			if y == math.MaxInt64 {
				delete(a.diff, k)
			} else {
				a.diff[k] = y
			}
			ch = true
		}
	}
	for k, x := range a.nil_ {
		if b.nil_[k] != x {
			delete(a.nil_, k)
			ch = true
		}
	}
	for k := range a.full {
		if !b.full[k] {
			delete(a.full, k)
			ch = true
		}
	}
	for k, x := range a.num {
		y, ok := b.num[k]
		switch {
		case !ok:
			delete(a.num, k)
			ch = true
		case y[0] < x[0] || y[1] > x[1]:
			if y[0] > x[0] {
				y[0] = x[0]
			}
			if y[1] < x[1] {
				y[1] = x[1]
			}
			a.num[k] = y
			ch = true
		}
	}
	for k, x := range a.same {
		if y, ok := b.same[k]; !ok || !valEq(x, y) {
			delete(a.same, k)
			ch = true
		}
	}
	for i := range a.set {
		if o := a.set[i] | b.set[i]; o != a.set[i] {
			a.set[i] = o
			ch = true
		}
	}
	return ch
}

// enter builds the entry state of a node from its facts.
func (s *scan) enter(n *scanNode) {
	e := s.e
	st := e.entryState()
	f := &Frame{fn: s.fn, regs: map[ssa.Value]Val{}, ctx: s.fn.Name() + "/" + n.key, owner: st}
	st.frames = []*Frame{f}
	// the input
	for p, v := range s.args {
		_ = p
		st.sliceInv(v)
	}
	if d := s.args[s.data]; d.K == KSlice {
		st.assumeNil(psym(d.El[0].S), false)
	}
	if n.rewound.K == KUndef {
		n.rewound = isym(freshSym("rewound@"+n.key, types.Typ[types.Int]))
	}
	fresh := func(v ssa.Value) Val {
		if x, ok := n.env[v]; ok {
			return x
		}
		x := freshVal(fmt.Sprintf("%s@%s", v.Name(), n.key), v.Type())
		n.env[v] = x
		return x
	}
	for _, v := range n.live {
		name := v.Name()
		if s.once[v] {
			if x, ok := s.args[v]; ok {
				f.regs[v] = x
				continue
			}
			if x, ok := s.onceVal(v); ok {
				f.regs[v] = s.renew(st, n, v, x)
				if t := structOf(v); t != nil {
					s.fill(st, n, f.regs[v], t, name)
				}
				continue
			}
		}
		if x, ok := n.facts.same[name]; ok {
			f.regs[v] = x
			continue
		}
		switch v.Type().Underlying().(type) {
		case *types.Pointer:
			k := n.facts.nil_[name]
			t := structOf(v)
			switch {
			case k == 1:
				f.regs[v] = nilVal
			case k == 2 && t != nil:
				o := e.alloc(st, fmt.Sprintf("%s@%s", name, n.key), fmt.Sprintf("%s@%s", name, n.key), t, true)
				f.regs[v] = ptrTo(o)
				s.fill(st, n, f.regs[v], t, name)
			default:
				x := fresh(v)
				f.regs[v] = x
				if k == 2 {
					st.assumeNil(x, false)
				}
			}
			continue
		}
		x := fresh(v)
		f.regs[v] = x
		st.sliceInv(x)
		switch v.Type().Underlying().(type) {
		case *types.Interface, *types.Slice:
			if k := n.facts.nil_[name]; k != 0 {
				if x.K == KSlice {
					x = psym(x.El[0].S)
				}
				st.assumeNil(x, k == 1)
			}
		}
		if isStr(v.Type()) && n.facts.full[name] {
			l := st.strLen(x)
			st.addDiff(iconst(1), l, 0)
		}
	}
	val := func(k string) (Val, bool) {
		switch k {
		case "0":
			return iconst(0), true
		case "N":
			return s.n, true
		case "$G":
			return n.rewound, true
		}
		for _, v := range n.ints {
			if v.Name() == k {
				return f.regs[v], true
			}
		}
		return undef, false
	}
	keys := make([][2]string, 0, len(n.facts.diff))
	for k := range n.facts.diff {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i][0] != keys[j][0] {
			return keys[i][0] < keys[j][0]
		}
		return keys[i][1] < keys[j][1]
	})
	for _, k := range keys {
		a, ok := val(k[0])
		b, ok2 := val(k[1])
		if ok && ok2 {
			st.addDiff(a, b, n.facts.diff[k])
		}
	}
	n.p = undef
	st.setMonVal("$G", n.rewound)
	for v := range s.cursor {
		if x, ok := f.regs[v]; ok {
			n.p = x
			if n.facts.set != fullSet() {
				y := s.byteSym(x)
				set := n.facts.set
				st.updFact(y, func(ff *Fact) {
					ff.Set = &set
					for ff.Lo = 0; ff.Lo < 255 && !setHas(&set, int(ff.Lo)); ff.Lo++ {
					}
					for ff.Hi = 255; ff.Hi > 0 && !setHas(&set, int(ff.Hi)); ff.Hi-- {
					}
				})
			}
		}
	}
	n.entry = st
}

// onceVal finds what a register that is computed once holds.
func (s *scan) onceVal(v ssa.Value) (Val, bool) {
	for _, ed := range s.rootEdges() {
		if x, ok := ed.env[v]; ok {
			return x, true
		}
	}
	return undef, false
}

func (s *scan) rootEdges() []*scanEdge {
	if s.start == nil {
		return nil
	}
	return s.start.edges
}

// renew replaces what was made before the loop by something of arbitrary contents.
func (s *scan) renew(st *State, n *scanNode, v ssa.Value, x Val) Val {
	switch x.K {
	case KPtr:
		if x.S == 0 && x.L.O != nil {
			return ploc(Loc{s.renewObj(st, n, x.L.O), x.L.Path})
		}
	case KSlice:
		if b := x.El[0]; b.K == KPtr && b.S == 0 && b.L.O != nil {
			return mkSlice(ploc(Loc{s.renewObj(st, n, b.L.O), b.L.Path}), x.El[1], x.El[2], x.El[3])
		}
	}
	return x
}

func (s *scan) renewObj(st *State, n *scanNode, o *Obj) *Obj {
	if o.Input {
		return o
	}
	if r := n.objs[o]; r != nil {
		if _, ok := st.heap[r]; ok {
			return r
		}
	}
	r := s.e.alloc(st, fmt.Sprintf("%s@%s", o.Name, n.key), fmt.Sprintf("%s@%s", o.Name, n.key), o.Type, true)
	n.objs[o] = r
	return r
}

// fill assumes what is known of a structure's fields.
func (s *scan) fill(st *State, n *scanNode, p Val, t types.Type, name string) {
	l, ok := loc1(st, p)
	if !ok {
		return
	}
	for _, fl := range structFields(t) {
		at := Loc{l.O, l.Path + "." + fl.Name()}
		if r, ok := n.facts.num[name+"."+fl.Name()]; ok {
			if r[0] == r[1] {
				st.store(at, iconst(r[0]), fl.Type())
			} else if x := st.load(at, fl.Type()); x.K == KInt && x.S != 0 {
				st.setLo(x.S, r[0])
				st.setHi(x.S, r[1])
			}
			continue
		}
		if !n.facts.full[name+"."+fl.Name()] {
			continue
		}
		switch {
		case isStr(fl.Type()):
			st.addDiff(iconst(1), st.strLen(st.load(at, fl.Type())), 0)
		default:
			x := st.load(at, fl.Type())
			if x.K == KSlice {
				x = psym(x.El[0].S)
			}
			st.assumeNil(x, false)
		}
	}
}

func (s *scan) debug() {
	if os.Getenv("GOSIP_SCAN") == "" {
		return
	}
	for _, n := range s.order {
		fmt.Fprintf(os.Stderr, "node %d %s runs=%d\n", n.id, n.key, n.runs)
		if n.facts != nil {
			var ks []string
			for k, v := range n.facts.diff {
				ks = append(ks, fmt.Sprintf("%s-%s<=%d", k[0], k[1], v))
			}
			for k, v := range n.facts.nil_ {
				ks = append(ks, fmt.Sprintf("%s:%d", k, v))
			}
			for k := range n.facts.full {
				ks = append(ks, k+"!")
			}
			sort.Strings(ks)
			fmt.Fprintln(os.Stderr, "   ", strings.Join(ks, " "))
		}
		for _, ed := range n.edges {
			to := "return"
			if ed.to != nil {
				to = ed.to.key
			}
			d, ok := offsetFrom(ed.p, n.p)
			fmt.Fprintf(os.Stderr, "    -> %s move %d %v tape %d looks %d\n", to, d, ok, len(ed.tape), len(ed.look))
		}
	}
}
