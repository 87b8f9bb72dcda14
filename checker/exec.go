package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var dbgBlock = os.Getenv("GOSIP_BLOCK")

// Engine runs the abstract interpretation.
type Engine struct {
	p         *Program
	info      map[*ssa.Function]*fnInfo
	sites     map[string]*Obj
	oldSites  map[*Obj]*Obj
	globals   map[*ssa.Global]*Obj
	baseHeap  map[*Obj]*OState // contents of constant globals
	baseFacts map[Sym]*Fact

	intrinsics map[string]func(e *Engine, c *callCtx) []callRes
	// rule hooks
	onObligation    func(o *Obligation)
	onEvent         func(e *Engine, st *State, ev *Event) []*State
	onRecv          func(e *Engine, st *State, ch Val, elem types.Type, instr ssa.Instruction) []recvRes
	onByte          func(e *Engine, st *State, v Val) []callRes // a byte of text is read
	onBlock         func(e *Engine, st *State, b *ssa.BasicBlock)
	onCall          func(e *Engine, c *callCtx) ([]callRes, bool)
	onStore         func(e *Engine, tg target, v Val, in *ssa.Store)
	loadOf          map[*ssa.UnOp]*ssa.UnOp
	onLoad          func(e *Engine, tg target, v Val, in *ssa.UnOp)
	onBytesToString func(st *State, b, s Val)
	onCopy          func(st *State, in ssa.Instruction, dst, src, n Val)
	onAppend        func(st *State, in ssa.Instruction, a, b Val, inPlace bool)
	genericOnly     bool
	paths           bool // one state per path
	splitCalls      bool // the ways a call ends are paths of their own
	concrete        bool // small concrete structures: partition on pointers, keep loop allocations apart, inline recursion
	initPhase       bool
	rec             map[string]*recSum
	keyFn           func(st *State) string
	unrollMax       int
	overflow        func(in ssa.Instruction) bool
	rolled          bool                      // loops are not unrolled
	wrap64          bool                      // 64-bit values near the ends of their range are possible
	pathKey         func(c Val) (t, f string) // what tells the branches of a condition apart later
	noInline        func(fn *ssa.Function) bool

	sums      map[string]*summary
	obls      map[string]*Obligation
	fnSeen    map[*ssa.Function]bool
	callSites map[ssa.Instruction]bool
	blocks    map[*ssa.BasicBlock]bool
	steps     int
	maxSteps  int
	maxParts  int // partitions of one block before they are joined
	gaveUp    string
	fillAt    Val
	depth     int
	inSummary map[*ssa.Function]int
	siteHits  map[string]int
}

// Obligation is one proof obligation.
type Obligation struct {
	Kind  string
	Pos   token.Pos
	Fn    *ssa.Function
	In    ssa.Instruction
	OK    bool
	Msg   string
	Trace string
	Key   string
}

// Event is something visible outside the function.
type Event struct {
	Kind string // send, close, go, write, call:<name>, store, ...
	In   ssa.Instruction
	Args []Val
	Name string
}

type recvRes struct {
	st *State
	v  Val
	ok Val
}

type callCtx struct {
	st    *State
	fn    *ssa.Function
	name  string
	args  []Val
	in    ssa.Instruction
	sig   *types.Signature
	site  string
	bound []Val
}

type callRes struct {
	st *State
	v  Val
}

type fnInfo struct {
	fn      *ssa.Function
	rpo     []*ssa.BasicBlock
	order   map[*ssa.BasicBlock]int
	heads   map[*ssa.BasicBlock]bool
	liveIn  map[*ssa.BasicBlock]map[ssa.Value]bool
	liveAt  map[ssa.Instruction]map[ssa.Value]bool // live after calls
	unroll  map[*ssa.Phi]bool
	bounds  map[*ssa.Phi][]ssa.Value // what an unrolled counter is compared with
	steps   map[ssa.Value]*ssa.Phi   // values a constant away from a counter
	keyRegs map[*ssa.BasicBlock][]ssa.Value
}

type summary struct {
	entry  *State
	exits  map[string]*State
	busy   bool
	dirty  bool
	visits int
}

func newEngine(p *Program) *Engine {
	e := &Engine{p: p, info: map[*ssa.Function]*fnInfo{}, sites: map[string]*Obj{}, oldSites: map[*Obj]*Obj{}, globals: map[*ssa.Global]*Obj{},
		intrinsics: map[string]func(e *Engine, c *callCtx) []callRes{}, sums: map[string]*summary{}, obls: map[string]*Obligation{},
		fnSeen: map[*ssa.Function]bool{}, callSites: map[ssa.Instruction]bool{}, blocks: map[*ssa.BasicBlock]bool{}, maxSteps: 4000000, maxParts: 400, unrollMax: 0, inSummary: map[*ssa.Function]int{}, siteHits: map[string]int{}, rec: map[string]*recSum{}}
	e.installStd()
	return e
}

// ---- static function info ----

func (e *Engine) fi(fn *ssa.Function) *fnInfo {
	if i, ok := e.info[fn]; ok {
		return i
	}
	i := &fnInfo{fn: fn, order: map[*ssa.BasicBlock]int{}, heads: map[*ssa.BasicBlock]bool{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, liveAt: map[ssa.Instruction]map[ssa.Value]bool{}, unroll: map[*ssa.Phi]bool{}, bounds: map[*ssa.Phi][]ssa.Value{}, steps: map[ssa.Value]*ssa.Phi{}, keyRegs: map[*ssa.BasicBlock][]ssa.Value{}}
	e.info[fn] = i
	// RPO and loop heads by iterative DFS.
	state := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	type fr struct {
		b *ssa.BasicBlock
		k int
	}
	stack := []fr{{fn.Blocks[0], 0}}
	state[fn.Blocks[0]] = 1
	for len(stack) > 0 {
		t := &stack[len(stack)-1]
		if t.k < len(t.b.Succs) {
			s := t.b.Succs[t.k]
			t.k++
			switch state[s] {
			case 0:
				state[s] = 1
				stack = append(stack, fr{s, 0})
			case 1:
				i.heads[s] = true
			}
			continue
		}
		state[t.b] = 2
		post = append(post, t.b)
		stack = stack[:len(stack)-1]
	}
	for k := len(post) - 1; k >= 0; k-- {
		i.order[post[k]] = len(i.rpo)
		i.rpo = append(i.rpo, post[k])
	}
	// Liveness.
	use := func(set map[ssa.Value]bool, v ssa.Value) {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return
		}
		set[v] = true
	}
	liveOut := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range i.rpo {
		i.liveIn[b] = map[ssa.Value]bool{}
		liveOut[b] = map[ssa.Value]bool{}
	}
	compute := func(b *ssa.BasicBlock, record bool) map[ssa.Value]bool {
		live := map[ssa.Value]bool{}
		for _, s := range b.Succs {
			for v := range i.liveIn[s] {
				live[v] = true
			}
			pi := -1
			for k, p := range s.Preds {
				if p == b {
					pi = k
				}
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				delete(live, ph)
				_ = pi
			}
		}
		for _, s := range b.Succs {
			for k, p := range s.Preds {
				if p != b {
					continue
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					use(live, ph.Edges[k])
				}
			}
		}
		for k := len(b.Instrs) - 1; k >= 0; k-- {
			in := b.Instrs[k]
			if v, ok := in.(ssa.Value); ok {
				if record {
					switch in.(type) {
					case *ssa.Call:
						l := make(map[ssa.Value]bool, len(live))
						for x := range live {
							if x != v {
								l[x] = true
							}
						}
						i.liveAt[in] = l
					}
				}
				delete(live, v)
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil {
					use(live, *op)
				}
			}
			if x, ok := in.(*ssa.UnOp); ok && x.Op == token.MUL {
				if y := e.sameLoad(x); y != nil {
					use(live, y)
				}
			}
		}
		return live
	}
	for ch := true; ch; {
		ch = false
		for k := len(i.rpo) - 1; k >= 0; k-- {
			b := i.rpo[k]
			l := compute(b, false)
			// phis of b are defined at b; live-in excludes them but they are live after entry
			if len(l) != len(i.liveIn[b]) {
				i.liveIn[b] = l
				ch = true
			}
		}
	}
	for _, b := range i.rpo {
		compute(b, true)
	}
	// Counted loops worth unrolling.
	for b := range i.heads {
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !isInt(ph.Type()) {
				continue
			}
			if ok, bounds, derived := countedPhi(ph, i); ok {
				i.unroll[ph] = true
				i.bounds[ph] = bounds
				for v := range derived {
					if v != ph {
						i.steps[v] = ph
					}
				}
			}
		}
	}
	return i
}

// startsAt: the counter's first value is the constant.
func startsAt(ph *ssa.Phi, c *ssa.Const, i *fnInfo) bool {
	for k, ed := range ph.Edges {
		if i.order[ph.Block().Preds[k]] >= i.order[ph.Block()] {
			continue
		}
		if x, ok := ed.(*ssa.Const); ok && x.Value != nil && c.Value != nil && constant.Compare(x.Value, token.EQL, c.Value) {
			return true
		}
	}
	return false
}

// countedPhi recognises loop counters: constant steps, compared with a constant or a parameter.
func countedPhi(ph *ssa.Phi, i *fnInfo) (ok bool, bounds []ssa.Value, derived map[ssa.Value]bool) {
	derived = map[ssa.Value]bool{ph: true}
	for ch := true; ch; {
		ch = false
		for v := range derived {
			for _, r := range *v.Referrers() {
				if bo, ok := r.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
					if _, c := bo.Y.(*ssa.Const); c && derived[bo.X] && !derived[bo] {
						derived[bo] = true
						ch = true
					}
				}
				if cv, ok := r.(*ssa.Convert); ok && !derived[cv] && isInt(cv.Type()) {
					derived[cv] = true
					ch = true
				}
			}
		}
	}
	for k, ed := range ph.Edges {
		if i.order[ph.Block().Preds[k]] >= i.order[ph.Block()] { // back edge
			if !derived[ed] || ed == ph {
				return false, nil, nil
			}
		}
	}
	for v := range derived {
		for _, r := range *v.Referrers() {
			if bo, ok := r.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					o := bo.Y
					if o == v {
						o = bo.X
					}
					switch c := o.(type) {
					case *ssa.Const:
						if (bo.Op == token.EQL || bo.Op == token.NEQ) && startsAt(ph, c, i) {
							continue // asks for the first round, bounds nothing
						}
						return true, nil, derived
					case *ssa.Parameter:
						if b, ok := o.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
							return true, nil, derived
						}
						bounds = append(bounds, o)
					default:
						bounds = append(bounds, o)
					}
				}
			}
		}
	}
	return len(bounds) > 0, bounds, derived
}

// bounded tells whether a loop's bound is known to be a small number.
func bounded(st *State, bounds []ssa.Value) bool {
	for _, b := range bounds {
		x, ok := st.top().regs[b]
		if !ok || x.K != KInt {
			continue
		}
		if lo, hi := st.rng(x); lo == hi && lo <= 512 {
			return true
		}
	}
	return len(bounds) == 0
}

// ---- obligations and diagnostics ----

func (e *Engine) oblige(st *State, in ssa.Instruction, kind string, ok bool, msg string) {
	pos := token.NoPos
	if in != nil {
		pos = instrPos(in)
	}
	fn := st.top().fn
	key := fmt.Sprintf("%s|%p", kind, in)
	o := e.obls[key]
	if o == nil {
		o = &Obligation{Kind: kind, Pos: pos, Fn: fn, In: in, OK: true, Key: key}
		e.obls[key] = o
	}
	if !ok && o.OK {
		o.OK = false
		o.Msg = msg
		o.Trace = st.where()
		if os.Getenv("GOSIP_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "FAIL %s %s: %s [%s] key=%q\n", kind, e.p.pos(pos), msg, o.Trace, st.mon.Key)
			if os.Getenv("GOSIP_DUMP") != "" {
				fmt.Fprintln(os.Stderr, st.dump())
			}
		}
	}
	if e.onObligation != nil && !ok {
		e.onObligation(o)
	}
}

func (s *State) where() string {
	var p []string
	for _, f := range s.frames {
		p = append(p, f.fn.Name())
	}
	return strings.Join(p, " > ")
}

func instrPos(in ssa.Instruction) token.Pos {
	if p := in.Pos(); p.IsValid() {
		return p
	}
	// nearest position in the block
	b := in.Block()
	if b == nil {
		return token.NoPos
	}
	best := token.NoPos
	for _, x := range b.Instrs {
		if x.Pos().IsValid() {
			best = x.Pos()
		}
		if x == in && best.IsValid() {
			return best
		}
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && (*o).Pos().IsValid() {
			return (*o).Pos()
		}
	}
	return best
}

func (e *Engine) fireEvent(st *State, ev *Event) []*State {
	if e.onEvent == nil {
		return []*State{st}
	}
	return e.onEvent(e, st, ev)
}

// ---- objects ----

func (e *Engine) site(st *State, in ssa.Instruction, tag string) string {
	return fmt.Sprintf("%s/%p%s", st.top().ctx, in, tag)
}

// alloc makes the (most recent) object of a site.
func (e *Engine) alloc(st *State, site, name string, t types.Type, input bool) *Obj {
	if e.concrete {
		for k := 1; k < 16; k++ {
			o := e.sites[site]
			if o == nil {
				break
			}
			if _, ok := st.heap[o]; !ok {
				break
			}
			if !st.reach().objs[o] && !e.mentions(st, o) {
				break
			}
			site = fmt.Sprintf("%s#%d", site, k)
		}
	}
	o := e.sites[site]
	if o == nil {
		o = newObj(name, site, t)
		o.Input = input
		e.sites[site] = o
	}
	if _, ok := st.heap[o]; ok {
		r := st.reach()
		if r.objs[o] || e.mentions(st, o) {
			old := e.oldSites[o]
			if old == nil {
				old = newObj(name+"*", site+"*", t)
				old.Input = input
				old.Summary = true
				old.Tag = o.Tag
				e.oldSites[o] = old
			}
			st.fold(o, old)
		} else {
			delete(st.heap, o)
		}
	}
	if input {
		// forget what was known about earlier contents
		for x := range st.facts {
			if si := syms[x]; si.Op == "init" && rootIs(si.L.O, o) {
				delete(st.facts, x)
			}
		}
		for c := range st.heap {
			if c.Parent != 0 && rootIs(c, o) {
				delete(st.heap, c)
			}
		}
	}
	st.heap[o] = &OState{cells: map[string]Val{}, owner: st}
	return o
}

func (e *Engine) mentions(st *State, o *Obj) bool {
	for x := range st.facts {
		found := false
		symDeps(x, func(y Sym) {
			if si := syms[y]; si.Op == "init" && rootIs(si.L.O, o) {
				found = true
			}
		})
		if found {
			r := st.reach()
			if r.syms[x] {
				return true
			}
		}
	}
	// values holding initial contents of o
	r := st.reach()
	for x := range r.syms {
		if si := syms[x]; si.Op == "init" && rootIs(si.L.O, o) {
			return true
		}
	}
	return false
}

func rootIs(p, o *Obj) bool {
	for p != nil {
		if p == o {
			return true
		}
		if p.Parent == 0 || syms[p.Parent].Op != "init" {
			return false
		}
		p = syms[p.Parent].L.O
	}
	return false
}

func (e *Engine) globalObj(g *ssa.Global) *Obj {
	if o, ok := e.globals[g]; ok {
		return o
	}
	o := newObj(g.Pkg.Pkg.Name()+"."+g.Name(), "global", g.Type().(*types.Pointer).Elem())
	o.Global = true
	o.Input = !e.initPhase
	e.globals[g] = o
	return o
}

// ---- values ----

func (e *Engine) val(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Global:
		return ploc(Loc{e.globalObj(c), ""})
	case *ssa.Function:
		return Val{K: KFunc, Fn: c}
	case *ssa.Builtin:
		return Val{K: KFunc, S: freshSym(c.Name(), nil)}
	case *ssa.FreeVar:
	}
	if x, ok := st.top().regs[v]; ok {
		return x
	}
	if os.Getenv("GOSIP_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "undefined register %s in %s\n", v.Name(), st.top().fn)
	}
	return freshVal("undef."+v.Name(), v.Type())
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return iconst(n)
			}
			if n, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
				return Val{K: KInt, S: term("const", t, strc(strconv.FormatUint(n, 10)))}
			}
		case u.Info()&types.IsBoolean != 0:
			return bconst(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return strc(constant.StringVal(c.Value))
		}
		return opaque(term("const", t, strc(c.Value.ExactString())))
	}
	return opaque(term("const", t, strc(c.Value.ExactString())))
}

// ---- running functions ----

// call analyses fn from st and returns the states after it.
func (e *Engine) call(st *State, fn *ssa.Function, args, bound []Val, in ssa.Instruction, ctx string) []callRes {
	if e.depth > 60 {
		e.giveUp("call depth")
		return nil
	}
	e.fnSeen[fn] = true
	f := &Frame{fn: fn, regs: map[ssa.Value]Val{}, ctx: ctx, call: in, owner: st}
	for i, p := range fn.Params {
		if i < len(args) {
			f.regs[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bound) {
			f.regs[p] = bound[i]
		}
	}
	if in != nil && len(st.frames) > 0 {
		// keep only what is still needed in the caller
		top := st.wtop()
		if l, ok := e.fi(top.fn).liveAt[in]; ok {
			for k := range top.regs {
				if !l[k] {
					delete(top.regs, k)
				}
			}
		}
	}
	st.frames = append(append([]*Frame(nil), st.frames...), f)
	e.depth++
	exits := e.body(st)
	e.depth--
	var out []callRes
	for _, x := range exits {
		v := x.ret
		x.ret = undef
		x.frames = append([]*Frame(nil), x.frames[:len(x.frames)-1]...)
		out = append(out, callRes{x, v})
	}
	return out
}

func (e *Engine) giveUp(why string) {
	if e.gaveUp == "" {
		e.gaveUp = why
		if os.Getenv("GOSIP_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "GAVE UP:", why)
		}
	}
}

type entry struct {
	changes int
	st      *State
	visits  int
	dirty   bool
}

// body runs the function of the top frame to a fixed point.
func (e *Engine) body(st0 *State) []*State {
	fn := st0.top().fn
	if len(fn.Blocks) == 0 {
		e.giveUp("no body: " + fn.String())
		return nil
	}
	fi := e.fi(fn)
	entries := map[*ssa.BasicBlock]map[string]*entry{}
	collapsed := map[*ssa.BasicBlock]bool{}
	noUnroll := map[*ssa.Phi]bool{}
	pending := map[*ssa.BasicBlock]bool{}
	exits := map[string]*State{}
	var exitOrder []string

	key := func(st *State, b *ssa.BasicBlock) string {
		var sb strings.Builder
		sb.WriteString(st.mon.Key)
		if e.keyFn != nil {
			sb.WriteByte('#')
			sb.WriteString(e.keyFn(st))
		}
		if collapsed[b] {
			return sb.String()
		}
		regs := st.top().regs
		for _, v := range sortedRegs(regs) {
			x := regs[v]
			ph, ok := v.(*ssa.Phi)
			if !ok {
				ph, ok = fi.steps[v], fi.steps[v] != nil
			}
			if ok && fi.unroll[ph] && !noUnroll[ph] && !e.rolled && x.isConstInt() && bounded(st, fi.bounds[ph]) {
				fmt.Fprintf(&sb, "|%s=%d", v.Name(), x.N)
				continue
			}
			if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 && x.isConstInt() {
				if _, ok := ex.Tuple.(*ssa.Select); ok {
					fmt.Fprintf(&sb, "|%s=%d", v.Name(), x.N)
					continue
				}
			}
			if k := partKey(st, v.Type(), x); k != "" {
				sb.WriteString("|" + v.Name() + k)
			}
			if e.concrete {
				switch {
				case x.K == KNil:
					sb.WriteString("|" + v.Name() + "nil")
				case x.K == KPtr && x.S == 0 && x.L.O != nil:
					fmt.Fprintf(&sb, "|%s&%d%s", v.Name(), x.L.O.ID, x.L.Path)
				}
			}
		}
		return sb.String()
	}
	var add func(b *ssa.BasicBlock, st *State)
	add = func(b *ssa.BasicBlock, st *State) {
		m := entries[b]
		if m == nil {
			m = map[string]*entry{}
			entries[b] = m
		}
		k := key(st, b)
		en := m[k]
		if en == nil {
			if len(m) >= e.maxParts {
				// too many partitions: fall back to one per monitor key
				if !collapsed[b] {
					collapsed[b] = true
					old := m
					entries[b] = map[string]*entry{}
					for _, kk := range sortedKeys(old) {
						add(b, old[kk].st)
					}
					add(b, st)
					return
				}
			}
			m[k] = &entry{st: st, dirty: true}
			pending[b] = true
			return
		}
		if dbgBlock != "" && dbgBlock == fmt.Sprintf("%s:%d", fn.Name(), b.Index) {
			fmt.Fprintf(os.Stderr, "=== visit %d\nOLD\n%s\nIN\n%s\n", en.visits+1, en.st.dump(), st.dump())
		}
		en.visits++
		widen := fi.heads[b] && en.visits > 3 || en.visits > 60
		n, ch := joinW(en.st, st, widen, en.visits > 8)
		if ch {
			en.changes++
			if en.changes > 500 {
				e.giveUp("no convergence in " + fn.String())
				return
			}
			if dbgBlock != "" && dbgBlock == fmt.Sprintf("%s:%d", fn.Name(), b.Index) {
				fmt.Fprintf(os.Stderr, "NEW\n%s\n", n.dump())
			}
			if os.Getenv("GOSIP_TRACE") != "" && en.visits > 190 {
				fmt.Fprintf(os.Stderr, "OLD\n%s\nIN\n%s\nNEW\n%s\n", en.st.dump(), st.dump(), n.dump())
			}
			if os.Getenv("GOSIP_TRACE") != "" && en.visits > 20 {
				fmt.Fprintf(os.Stderr, "visit %d %s b%d key %q\n", en.visits, fn, b.Index, k)
			}
			en.st = n
			en.dirty = true
			pending[b] = true
		}
	}
	st0.top()
	add(fn.Blocks[0], st0)
	for len(pending) > 0 && e.gaveUp == "" {
		var b *ssa.BasicBlock
		for x := range pending {
			if b == nil || fi.order[x] < fi.order[b] {
				b = x
			}
		}
		delete(pending, b)
		m := entries[b]
		for _, k := range sortedKeys(m) {
			en := m[k]
			if en == nil || !en.dirty {
				continue
			}
			en.dirty = false
			s := en.st.clone()
			e.blocks[b] = true
			for _, o := range e.block(s, b) {
				if o.ret {
					o.st.pruneRegs(nil)
					o.st.gc()
					rk := o.st.mon.Key + partRet(o.st, fn)
					if e.keyFn != nil {
						rk += "#" + e.keyFn(o.st)
					}
					if old, ok := exits[rk]; ok {
						n, ch := join(old, o.st, false)
						if ch {
							exits[rk] = n
						}
					} else {
						exits[rk] = o.st
						exitOrder = append(exitOrder, rk)
					}
					continue
				}
				// unrolling control
				for _, in := range o.to.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if fi.unroll[ph] && !noUnroll[ph] && !o.st.top().regs[ph].isConstInt() {
						noUnroll[ph] = true
					}
				}
				o.st.pruneRegs(fi.liveInPhi(o.to))
				o.st.gc()
				add(o.to, o.st)
			}
			if e.steps > e.maxSteps {
				e.giveUp("step limit")
			}
		}
	}
	var out []*State
	for _, k := range exitOrder {
		out = append(out, exits[k])
	}
	return out
}

// partKey is the partition component of one register.
func partKey(st *State, t types.Type, x Val) string {
	switch x.K {
	case KBool, KCond:
		if r, ok := st.evalCond(x); ok {
			if r {
				return "T"
			}
			return "F"
		}
	case KIface, KNil:
		if isErrorType(t) {
			switch st.nilness(x) {
			case 1:
				return "n"
			case 2:
				return "e"
			}
		}
	}
	return ""
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

func partRet(st *State, fn *ssa.Function) string {
	res := fn.Signature.Results()
	var sb strings.Builder
	at := func(i int) Val {
		if res.Len() == 1 {
			return st.ret
		}
		if st.ret.K == KTuple && i < len(st.ret.El) {
			return st.ret.El[i]
		}
		return undef
	}
	for i := 0; i < res.Len(); i++ {
		v := at(i)
		if k := partKey(st, res.At(i).Type(), v); k != "" {
			fmt.Fprintf(&sb, "|%d%s", i, k)
		}
		// nil and non-nil pointers are kept apart too
		if v.K == KPtr || v.K == KNil {
			fmt.Fprintf(&sb, "|%dp%d", i, st.nilness(v))
		}
	}
	return sb.String()
}

func (s *State) pruneRegs(live map[ssa.Value]bool) {
	f := s.wtop()
	for k := range f.regs {
		if !live[k] {
			delete(f.regs, k)
		}
	}
}

func (fi *fnInfo) liveInPhi(b *ssa.BasicBlock) map[ssa.Value]bool {
	l := fi.liveIn[b]
	n := make(map[ssa.Value]bool, len(l)+4)
	for k := range l {
		n[k] = true
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n[ph] = true
	}
	return n
}

type blockOut struct {
	st  *State
	to  *ssa.BasicBlock
	ret bool
}

// edge moves along an edge, evaluating phis.
func (e *Engine) edge(st *State, from, to *ssa.BasicBlock, out []blockOut) []blockOut {
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	type pv struct {
		ph *ssa.Phi
		v  Val
	}
	var ps []pv
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := e.val(st, ph.Edges[pi])
		if v.K == KNil {
			if _, ok := ph.Type().Underlying().(*types.Slice); ok {
				v = nilSlice()
			}
		}
		ps = append(ps, pv{ph, v})
	}
	for _, p := range ps {
		st.setReg(p.ph, p.v)
	}
	return append(out, blockOut{st: st, to: to})
}

// block executes a basic block.
func (e *Engine) block(st *State, b *ssa.BasicBlock) (out []blockOut) {
	if e.onBlock != nil {
		e.onBlock(e, st, b)
	}
	cur := []*State{st}
	for _, in := range b.Instrs {
		if e.gaveUp != "" {
			return nil
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			for _, s := range cur {
				c := e.val(s, x.Cond)
				if r, ok := s.evalCond(c); ok {
					k := 1
					if r {
						k = 0
					}
					out = e.edgeTo(s, b, k, out)
					continue
				}
				t := s.clone()
				f := s.clone()
				if e.paths && (e.splitCalls || len(s.mon.Key) < 400) {
					t.setMon(fmt.Sprintf("%s/%d+", s.mon.Key, b.Index))
					f.setMon(fmt.Sprintf("%s/%d-", s.mon.Key, b.Index))
				}
				if e.pathKey != nil {
					kt, kf := e.pathKey(c)
					t.setMon(t.mon.Key + kt)
					f.setMon(f.mon.Key + kf)
				}
				if t.assume(c, true) {
					out = e.edgeTo(t, b, 0, out)
				}
				if f.assume(c, false) {
					out = e.edgeTo(f, b, 1, out)
				}
			}
			return out
		case *ssa.Jump:
			for _, s := range cur {
				out = e.edgeTo(s, b, 0, out)
			}
			return out
		case *ssa.Return:
			for _, s := range cur {
				switch len(x.Results) {
				case 0:
					s.ret = undef
				case 1:
					s.ret = e.val(s, x.Results[0])
				default:
					t := Val{K: KTuple}
					for _, r := range x.Results {
						t.El = append(t.El, e.val(s, r))
					}
					s.ret = t
				}
				s.ret = s.normRet(s.ret)
				out = append(out, blockOut{st: s, ret: true})
			}
			return out
		case *ssa.Panic:
			for _, s := range cur {
				v := e.val(s, x.X)
				for _, s2 := range e.fireEvent(s, &Event{Kind: "panic", In: in, Args: []Val{v}}) {
					e.oblige(s2, in, "panic", false, "explicit panic reachable")
				}
			}
			return out
		}
		var next []*State
		for _, s := range cur {
			e.steps++
			next = append(next, e.instr(s, in)...)
		}
		cur = next
		if len(cur) > 2000 {
			if os.Getenv("DBG") != "" {
				for i := 0; i < 2000; i += 100 {
					fmt.Fprintln(os.Stderr, in, cur[i].mon.Key)
				}
			}
			e.giveUp("state explosion in " + b.Parent().String())
			return nil
		}
		if len(cur) == 0 {
			return out
		}
	}
	return out
}

func (s *State) normRet(v Val) Val {
	if v.K == KCond {
		return s.boolSym(v)
	}
	if v.K == KTuple {
		r := v
		r.El = make([]Val, len(v.El))
		for i, x := range v.El {
			r.El[i] = s.normRet(x)
		}
		return r
	}
	return v
}

func (e *Engine) edgeTo(s *State, b *ssa.BasicBlock, k int, out []blockOut) []blockOut {
	to := b.Succs[k]
	// when both successors are the same block, phi edges differ by position
	if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] {
		n := 0
		for i, p := range to.Preds {
			if p == b {
				if n == k {
					return e.edgeIdx(s, i, to, out)
				}
				n++
			}
		}
	}
	return e.edge(s, b, to, out)
}

func (e *Engine) edgeIdx(st *State, pi int, to *ssa.BasicBlock, out []blockOut) []blockOut {
	vals := map[*ssa.Phi]Val{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = e.val(st, ph.Edges[pi])
	}
	for ph, v := range vals {
		st.setReg(ph, v)
	}
	return append(out, blockOut{st: st, to: to})
}

// ---- pointers ----

type target struct {
	st *State
	l  Loc
	el []Val // element index when symbolic
	tr string
}

// resolve finds what a pointer may refer to, splitting the state.
func (e *Engine) resolve(st *State, v Val, in ssa.Instruction, what string) []target {
	switch v.K {
	case KNil:
		e.oblige(st, in, "nil", false, "nil dereference: "+what)
		return nil
	case KPtr:
	default:
		e.oblige(st, in, "nil", false, "dereference of unknown value: "+what)
		return nil
	}
	if v.S == 0 {
		e.oblige(st, in, "nil", true, "")
		if len(v.El) > 0 {
			return []target{{st: st, l: v.L, el: v.El, tr: v.Str}}
		}
		return []target{{st: st, l: v.L}}
	}
	switch st.nilness(v) {
	case 1:
		e.oblige(st, in, "nil", false, "nil dereference: "+what+" = "+render(v))
		return nil
	case 0:
		e.oblige(st, in, "nil", false, "possible nil dereference: "+what+" = "+render(v))
		if !st.assumeNil(psym(v.S), false) {
			return nil
		}
	default:
		e.oblige(st, in, "nil", true, "")
	}
	f := st.fact(v.S)
	if !f.HasPts {
		o := objOfSym(v.S)
		if len(v.El) > 0 {
			return []target{{st: st, l: Loc{o, ""}, el: v.El, tr: v.Str}}
		}
		return []target{{st: st, l: Loc{o, ""}}}
	}
	var out []target
	for i, l := range f.Pts {
		s := st
		if i < len(f.Pts)-1 {
			s = st.clone()
		}
		if len(f.Pts) > 1 {
			s.updFact(v.S, func(f *Fact) { f.HasPts = true; f.Pts = []Loc{l} })
		}
		if len(v.El) > 0 {
			out = append(out, target{st: s, l: l, el: v.El, tr: v.Str})
		} else {
			out = append(out, target{st: s, l: l})
		}
	}
	return out
}

func (t *target) ptr() Val {
	if len(t.el) > 0 {
		return Val{K: KPtr, L: t.l, El: t.el, Str: t.tr}
	}
	return ploc(t.l)
}

// ptrType returns the Go type of the pointed-to place.
func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (e *Engine) loadPtr(tg target, t types.Type) Val {
	if len(tg.el) > 0 {
		return tg.st.loadElem(tg.l, tg.el[0], tg.tr, t)
	}
	return tg.st.load(tg.l, t)
}

func (e *Engine) storePtr(tg target, v Val, t types.Type) {
	if len(tg.el) > 0 {
		tg.st.storeElem(tg.l, tg.el[0], tg.tr, v, t)
		return
	}
	tg.st.store(tg.l, v, t)
}

func pathStep(p string) string { return p }

// ---- integer arithmetic ----

func (e *Engine) arith(st *State, in ssa.Instruction, op token.Token, x, y Val, t types.Type, yt types.Type) Val {
	if x.K == KStr && y.K == KStr && op == token.ADD {
		return st.concat(x, y)
	}
	if x.K != KInt || y.K != KInt {
		if x.K == KOpaque || y.K == KOpaque {
			return opaque(term("f"+op.String(), t, x, y))
		}
		return freshVal("arith", t)
	}
	lo, hi := intRange(t)
	name := ""
	switch op {
	case token.ADD:
		name = "add"
	case token.SUB:
		name = "sub"
	case token.MUL:
		name = "mul"
	case token.QUO:
		name = "quo"
	case token.REM:
		name = "rem"
	case token.AND:
		name = "and"
	case token.OR:
		name = "or"
	case token.XOR:
		name = "xor"
	case token.SHL:
		name = "shl"
	case token.SHR:
		name = "shr"
	case token.AND_NOT:
		name = "andnot"
	}
	if op == token.QUO || op == token.REM {
		l, h := st.rng(y)
		nz := l > 0 || h < 0
		if !nz {
			if r, k := st.evalCond(cond(token.EQL, y, iconst(0))); k && !r {
				nz = true
			}
		}
		e.oblige(st, in, "div", nz, "possible division by zero")
		if !nz && !st.assume(cond(token.NEQ, y, iconst(0)), true) {
			return freshVal("dead", t)
		}
	}
	if op == token.SHL || op == token.SHR {
		if b, ok := yt.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned == 0 {
			l, _ := st.rng(y)
			e.oblige(st, in, "shift", l >= 0, "possible negative shift count")
		}
	}
	if x.S == 0 && y.S == 0 {
		if op == token.SHL || op == token.ADD || op == token.MUL || op == token.SUB {
			ex := exactOp(op, x.N, y.N)
			if ex < lo || ex > hi {
				e.overflowed(st, in, t)
			}
		}
		if r, ok := concreteOp(name, x.N, y.N, t); ok {
			return iconst(r)
		}
	}
	// linear cases that stay in range
	switch op {
	case token.ADD, token.SUB:
		if y.S == 0 || op == token.ADD && x.S == 0 {
			a, k := x, y.N
			if x.S == 0 {
				a, k = y, x.N
			} else if op == token.SUB {
				k = -k
			}
			l, h := st.rng(a)
			l, h = addSat(l, k), addSat(h, k)
			if inRange(l, h, lo, hi) {
				return Val{K: KInt, S: a.S, N: a.N + k}
			}
			e.overflowed(st, in, t)
		} else if op == token.SUB && x.S == y.S {
			return iconst(x.N - y.N)
		}
	case token.MUL:
		if y.S == 0 && y.N == 1 {
			return x
		}
		if x.S == 0 && x.N == 1 {
			return y
		}
		if y.S == 0 && y.N == 0 || x.S == 0 && x.N == 0 {
			return iconst(0)
		}
	case token.AND:
		if y.S == 0 && y.N == 0 || x.S == 0 && x.N == 0 {
			return iconst(0)
		}
	case token.SHL, token.SHR:
		if y.S == 0 && y.N == 0 {
			return x
		}
	case token.OR, token.XOR:
		if y.S == 0 && y.N == 0 {
			return x
		}
		if x.S == 0 && x.N == 0 {
			return y
		}
	}
	if op == token.ADD || op == token.MUL || op == token.AND || op == token.OR || op == token.XOR {
		if valKey(x) > valKey(y) {
			x, y = y, x
		}
	}
	s := term(name, t, x, y)
	l, h, rel := e.arithRange(st, op, x, y, t)
	if l < lo || h > hi || l == math.MinInt64 || h == math.MaxInt64 {
		mayWrap[s] = true
	}
	if l < lo || h > hi || e.wrap64 && (l == math.MinInt64 || h == math.MaxInt64) {
		e.overflowed(st, in, t)
		l, h = lo, hi
		rel = false
	}
	if _, ok := st.facts[s]; !ok {
		st.updFact(s, func(f *Fact) {
			if l > f.Lo {
				f.Lo = l
			}
			if h < f.Hi {
				f.Hi = h
			}
		})
	}
	if rel {
		switch op {
		case token.ADD: // s - x in rng(y)
			yl, yh := st.rng(y)
			st.addDiff(isym(s), x, yh)
			st.addDiff(x, isym(s), negSat(yl))
			xl, xh := st.rng(x)
			st.addDiff(isym(s), y, xh)
			st.addDiff(y, isym(s), negSat(xl))
		case token.SUB: // s = x - y
			yl, yh := st.rng(y)
			st.addDiff(isym(s), x, negSat(yl))
			st.addDiff(x, isym(s), yh)
			if d := st.subUB(x, y); d != math.MaxInt64 {
				st.setHi(s, d)
			}
			if d := st.subUB(y, x); d != math.MaxInt64 {
				st.setLo(s, negSat(d))
			}
		}
	}
	return isym(s)
}

func exactOp(op token.Token, a, b int64) int64 {
	switch op {
	case token.ADD:
		return addSat(a, b)
	case token.SUB:
		return addSat(a, negSat(b))
	case token.MUL:
		return mulSat(a, b)
	case token.SHL:
		if b < 0 || b > 62 {
			if a == 0 {
				return 0
			}
			return math.MaxInt64
		}
		return mulSat(a, 1<<uint(b))
	}
	return 0
}

func inRange(l, h, lo, hi int64) bool {
	return l != math.MinInt64 && h != math.MaxInt64 && l >= lo && h <= hi || l >= lo && h <= hi && l != math.MinInt64 && h < math.MaxInt64
}

func (e *Engine) overflowed(st *State, in ssa.Instruction, t types.Type) {
	if e.overflow != nil && e.overflow(in) {
		e.oblige(st, in, "overflow", false, "arithmetic may wrap in "+t.String())
	}
}

func maxAbsPow2(h int64) int64 {
	p := int64(1)
	for p <= h && p > 0 {
		p <<= 1
	}
	if p <= 0 {
		return math.MaxInt64
	}
	return p - 1
}

// clearBits bounds x &^ m for x in [lo,hi], lo >= 0.
func clearBits(lo, hi, m int64) (int64, int64, bool) {
	if m&(m+1) == 0 {
		return lo &^ m, hi &^ m, false
	}
	l := lo - m
	if l < 0 {
		l = 0
	}
	return l, hi, false
}

// mayWrap holds the results of operations that could leave their type where they were computed.
var mayWrap = map[Sym]bool{}

// quoBound: a bound of m*X + y from a test X <= L/m.
func (st *State) quoBound(x, y Val) int64 {
	h := int64(math.MaxInt64)
	if x.S == 0 || syms[x.S].Op != "mul" || x.N != 0 {
		return h
	}
	a, m := syms[x.S].Args[0], syms[x.S].Args[1]
	if a.isConstInt() {
		a, m = m, a
	}
	if !m.isConstInt() || m.N <= 0 || a.S == 0 {
		return h
	}
	for k, c := range st.zone {
		if k[0] != a.S || syms[k[1]].Op != "quo" || !valEq(syms[k[1]].Args[1], m) {
			continue
		}
		l := syms[k[1]].Args[0]
		if lo, _ := st.rng(l); lo < 0 {
			continue
		}
		f, w1, ok := linOf(st, l)
		g, w2, ok2 := linOf(st, y)
		if !ok || !ok2 || w1 || w2 {
			continue
		}
		for s, n := range g.c {
			f.c[s] += n
			if f.c[s] == 0 {
				delete(f.c, s)
			}
		}
		f.k += g.k
		if _, hi, fin := f.rng(st); fin {
			if b := addSat(hi, mulSat(m.N, c+a.N)); b < h {
				h = b
			}
		}
	}
	return h
}

func (e *Engine) arithRange(st *State, op token.Token, x, y Val, t types.Type) (lo, hi int64, rel bool) {
	xl, xh := st.rng(x)
	yl, yh := st.rng(y)
	switch op {
	case token.ADD:
		h := addSat(xh, yh)
		for _, b := range []int64{st.quoBound(x, y), st.quoBound(y, x)} {
			if b < h {
				h = b
			}
		}
		return addSat(xl, yl), h, true
	case token.SUB:
		lo, hi = addSat(xl, negSat(yh)), addSat(xh, negSat(yl))
		if d := st.subUB(x, y); d < hi {
			hi = d
		}
		if d := st.subUB(y, x); d != math.MaxInt64 && negSat(d) > lo {
			lo = negSat(d)
		}
		return lo, hi, true
	case token.MUL:
		c := []int64{mulSat(xl, yl), mulSat(xl, yh), mulSat(xh, yl), mulSat(xh, yh)}
		lo, hi = c[0], c[0]
		for _, v := range c {
			if v < lo {
				lo = v
			}
			if v > hi {
				hi = v
			}
		}
		return lo, hi, false
	case token.QUO:
		if yl > 0 && xl >= 0 {
			return xl / yh, satDiv(xh, yl), false
		}
		if yl > 0 {
			m := satDiv(xh, yl)
			n := satDiv(xl, yl)
			return n, m, false
		}
		l, h := intRange(t)
		return l, h, false
	case token.REM:
		m := yh
		if negSat(yl) > m {
			m = negSat(yl)
		}
		if m != math.MaxInt64 {
			m--
		}
		if xl >= 0 {
			if xh < m {
				m = xh
			}
			return 0, m, false
		}
		return negSat(m), m, false
	case token.AND:
		if xl == xh && xl < 0 {
			xl, xh, yl, yh = yl, yh, xl, xh
		}
		if yl == yh && yl < 0 && xl >= 0 {
			return clearBits(xl, xh, ^yl)
		}
		if yl >= 0 && xl >= 0 {
			h := yh
			if xh < h {
				h = xh
			}
			return 0, h, false
		}
		if yl >= 0 {
			return 0, yh, false
		}
		if xl >= 0 {
			return 0, xh, false
		}
	case token.OR, token.XOR:
		if xl >= 0 && yl >= 0 {
			h := xh
			if yh > h {
				h = yh
			}
			l := int64(0)
			if op == token.OR {
				l = xl
				if yl > l {
					l = yl
				}
			}
			return l, maxAbsPow2(h), false
		}
	case token.AND_NOT:
		if xl >= 0 && yl == yh && yl >= 0 {
			return clearBits(xl, xh, yl)
		}
		if xl >= 0 {
			return 0, xh, false
		}
	case token.SHL:
		if yl >= 0 && yh < 62 && xl >= 0 {
			return mulSat(xl, 1<<uint(yl)), mulSat(xh, 1<<uint(yh)), false
		}
		if yl >= 0 && yh < 62 {
			return mulSat(xl, 1<<uint(yh)), mulSat(xh, 1<<uint(yh)), false
		}
		return math.MinInt64, math.MaxInt64, false
	case token.SHR:
		if yl >= 0 && xl >= 0 {
			if yl > 62 {
				return 0, 0, false
			}
			sh := yh
			if sh > 62 {
				sh = 62
			}
			return xl >> uint(sh), xh >> uint(yl), false
		}
		if xl >= 0 {
			return 0, xh, false
		}
		return xl, xh, false
	}
	l, h := intRange(t)
	return l, h, false
}

func satDiv(a, b int64) int64 {
	if b == 0 {
		return a
	}
	if a == math.MaxInt64 || a == math.MinInt64 {
		return a
	}
	return a / b
}

// concat joins strings symbolically.
func (s *State) concat(x, y Val) Val {
	if x.isConstStr() && y.isConstStr() {
		return strc(x.Str + y.Str)
	}
	if x.isConstStr() && x.Str == "" {
		return y
	}
	if y.isConstStr() && y.Str == "" {
		return x
	}
	var parts []Val
	for _, v := range []Val{x, y} {
		if v.S != 0 && syms[v.S].Op == "cat" {
			parts = append(parts, syms[v.S].Args...)
		} else {
			parts = append(parts, v)
		}
	}
	var m []Val
	for _, p := range parts {
		if len(m) > 0 && m[len(m)-1].isConstStr() && p.isConstStr() {
			m[len(m)-1] = strc(m[len(m)-1].Str + p.Str)
			continue
		}
		m = append(m, p)
	}
	if len(m) > 30 {
		return ssym(freshSym("longcat", types.Typ[types.String]))
	}
	z := term("cat", types.Typ[types.String], m...)
	var lo, hi int64
	for _, p := range m {
		l, h := s.rng(s.strLen(p))
		lo, hi = addSat(lo, l), addSat(hi, h)
	}
	l := s.lenSym(z)
	if _, ok := s.facts[l]; !ok {
		s.updFact(l, func(f *Fact) {
			if lo > f.Lo {
				f.Lo = lo
			}
			if hi < f.Hi {
				f.Hi = hi
			}
		})
	}
	if lo > 0 {
		s.strExclude(z, "")
	}
	return ssym(z)
}

// add of two integer values known not to wrap (lengths, offsets).
func (s *State) addv(a, b Val) Val {
	if a.K != KInt || b.K != KInt {
		return isym(freshSym("add", types.Typ[types.Int]))
	}
	if a.S == 0 {
		return Val{K: KInt, S: b.S, N: b.N + a.N}
	}
	if b.S == 0 {
		return Val{K: KInt, S: a.S, N: a.N + b.N}
	}
	x, y := a, b
	if valKey(x) > valKey(y) {
		x, y = y, x
	}
	z := term("add", types.Typ[types.Int], x, y)
	xl, xh := s.rng(x)
	yl, yh := s.rng(y)
	if _, ok := s.facts[z]; !ok {
		s.updFact(z, func(f *Fact) { f.Lo, f.Hi = addSat(xl, yl), addSat(xh, yh) })
	}
	s.addDiff(isym(z), x, yh)
	s.addDiff(x, isym(z), negSat(yl))
	s.addDiff(isym(z), y, xh)
	s.addDiff(y, isym(z), negSat(xl))
	return isym(z)
}

func (s *State) subv(a, b Val) Val {
	if a.S == b.S {
		return iconst(a.N - b.N)
	}
	if b.S == 0 {
		return Val{K: KInt, S: a.S, N: a.N - b.N}
	}
	z := term("sub", types.Typ[types.Int], a, b)
	hi := s.subUB(a, b)
	lo := negSat(s.subUB(b, a))
	if _, ok := s.facts[z]; !ok {
		s.updFact(z, func(f *Fact) { f.Lo, f.Hi = lo, hi })
	} else {
		s.setLo(z, lo)
		s.setHi(z, hi)
	}
	bl, bh := s.rng(b)
	s.addDiff(isym(z), a, negSat(bl))
	s.addDiff(a, isym(z), bh)
	return isym(z)
}

var _ = sort.Strings
