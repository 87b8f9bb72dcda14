package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S01", "The automata of both SIP parsers are extracted from their intermediate code: every block several paths lead to is interpreted from an arbitrary state of which only facts proved for all ways to it are known. Every index, slice, nil dereference, conversion and allocation on every edge is an obligation. The description parser and the error texts are interpreted likewise.", checkS01)
	register("S02", "In the automata of both SIP parsers every cycle moves the cursor forward, is a counted inner loop, or passes a rewind that is proved to lead beyond the place the previous one led to. Every other loop and recursion below the parsers runs over a range, a shrinking rest or a list.", checkS02)
}

// msgScan is the automaton of the message parser, uriScan that of the URI parser.
func (c *Check) msgScan() *scan {
	return c.memoScan("sip.ParseMsg", func(e *Engine) { e.contractParseURI(); e.contractSDPParse() })
}
func (c *Check) uriScan() *scan { return c.memoScan("sip.ParseURI", nil) }

func (c *Check) memoScan(name string, prep func(e *Engine)) *scan {
	if c.scans == nil {
		c.scans = map[string]*scan{}
	}
	if s, ok := c.scans[name]; ok {
		return s
	}
	fn := c.fn(name)
	if fn == nil {
		c.scans[name] = nil
		return nil
	}
	e := c.engine()
	if prep != nil {
		prep(e)
	}
	s := c.scanOf(e, fn)
	if s.failed != "" {
		c.unsure("%s: %s", name, s.failed)
		c.scans[name] = nil
		return nil
	}
	s.debug()
	for f := range e.fnSeen {
		c.analysed(f)
	}
	edges := 0
	for _, n := range s.order {
		edges += len(n.edges)
	}
	seen := 0
	for _, b := range fn.Blocks {
		if e.blocks[b] {
			seen++
		}
	}
	c.count(name+" blocks", len(fn.Blocks))
	c.count(name+" blocks reached", seen)
	c.count("cuts", len(s.order))
	c.count("edges", edges)
	c.scans[name] = s
	return s
}

func checkS01(c *Check) {
	c.rules = append(c.rules, "crash", "result", "error text")
	ms, us := c.msgScan(), c.uriScan()
	for _, s := range []*scan{ms, us} {
		if s != nil {
			c.obligations(s.e, "crash", nil)
		}
	}
	// what the message parser relies on
	if us != nil {
		n := 0
		us.returns(func(ed *scanEdge, v []Val) {
			n++
			if len(v) != 2 {
				return
			}
			if ed.st.nilness(v[1]) != 2 && ed.st.nilness(v[0]) != 2 && ed.st.nilness(us.args[us.data]) != 1 {
				if us.dataNil(ed.st) {
					return
				}
				c.fail("result", c.p.pos(us.fn.Pos()), "sip.ParseURI: result", "a URI can be returned as nil without an error")
			}
		})
		c.count("results of ParseURI", n)
	}
	if fn := c.fn("sdp.Parse"); fn != nil {
		e := c.engine()
		rs := e.run(fn, nil)
		c.obligations(e, "crash", nil)
		for _, r := range rs {
			if r.v.K == KTuple && r.st.nilness(r.v.El[1]) != 2 && r.st.nilness(r.v.El[0]) != 2 {
				c.fail("result", c.p.pos(fn.Pos()), "sdp.Parse: result", "a description can be returned as nil without an error")
			}
		}
	}
	// error texts, for the values the parsers put into them
	if ms != nil {
		n := 0
		ms.returns(func(ed *scanEdge, v []Val) {
			if len(v) == 2 && ed.st.nilness(v[1]) != 1 {
				c.errorText(ms, ed.st, v[1])
				n++
			}
		})
		c.count("error results", n)
	}
	if us != nil {
		us.returns(func(ed *scanEdge, v []Val) {
			if len(v) == 2 && ed.st.nilness(v[1]) != 1 {
				c.errorText(us, ed.st, v[1])
			}
		})
	}
}

func (s *scan) dataNil(st *State) bool {
	d := s.args[s.data]
	return d.K == KSlice && st.nilness(d.El[0]) == 1
}

// returns visits the function's results.
func (s *scan) returns(f func(ed *scanEdge, v []Val)) {
	for _, n := range s.order {
		for _, ed := range n.edges {
			if ed.isRet {
				v := []Val{ed.ret}
				if ed.ret.K == KTuple {
					v = ed.ret.El
				}
				f(ed, v)
			}
		}
	}
}

// errorText interprets the Error method of a returned error.
func (c *Check) errorText(s *scan, st *State, v Val) {
	if v.K != KIface || v.T == nil || len(v.El) == 0 {
		return
	}
	m, _, _ := types.LookupFieldOrMethod(v.T, true, nil, "Error")
	f, ok := m.(*types.Func)
	if !ok {
		return
	}
	fn := c.p.prog.FuncValue(f)
	if fn == nil || !c.p.inRepo(fn) || c.errSeen[fn] {
		return
	}
	if c.errSeen == nil {
		c.errSeen = map[*ssa.Function]bool{}
	}
	c.errSeen[fn] = true
	e := c.engine()
	// any contents: more than the parsers put into it
	e.run(fn, nil)
	c.obligations(e, "error text", nil)
	c.count("error texts", 1)
}

// ---- S02 ----

func checkS02(c *Check) {
	c.rules = append(c.rules, "cycle", "rewind", "loop", "recursion")
	below := map[*ssa.Function]bool{}
	for _, s := range []*scan{c.msgScan(), c.uriScan()} {
		if s == nil {
			continue
		}
		s.progress()
		for f := range s.e.fnSeen {
			if f != s.fn {
				below[f] = true
			}
		}
	}
	if fn := c.fn("sdp.Parse"); fn != nil {
		e := c.engine()
		e.run(fn, nil)
		c.gaveUp(e, "sdp.Parse")
		for f := range e.fnSeen {
			below[f] = true
		}
		below[fn] = true
		for ch := true; ch; {
			ch = false
			for f := range below {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if call, ok := in.(ssa.CallInstruction); ok {
							if g := call.Common().StaticCallee(); g != nil && c.p.inRepo(g) && !below[g] {
								below[g] = true
								ch = true
							}
						}
					}
				}
			}
		}
	}
	var fns []*ssa.Function
	for f := range below {
		if c.p.inRepo(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		c.analysed(f)
		c.finite(f)
	}
}

// progress shows that no cycle of the automaton stands still.
func (s *scan) progress() {
	c := s.c
	type arc struct {
		ed *scanEdge
		d  int64
	}
	var arcs []arc
	for _, n := range s.order {
		for _, ed := range n.edges {
			if ed.to == nil {
				continue
			}
			if ed.rewind {
				c.count("rewinds", 1)
				if !ed.onward {
					c.fail("rewind", c.p.pos(s.edgePos(ed)), fnName(s.fn)+": rewind", "the cursor is put back to a place that is not shown to lie beyond where it was put back to before: the same input can be read again and again")
				}
				continue
			}
			if ed.p.K != KInt || n.p.K != KInt {
				continue // no cursor: before or after the automaton
			}
			d, ok := offsetFrom(ed.p, n.p)
			if !ok {
				continue
			}
			arcs = append(arcs, arc{ed, d})
		}
	}
	c.count("automaton edges", len(arcs))
	removed := map[*scanEdge]bool{}
	for round := 0; round < 60; round++ {
		// a cycle whose moves do not add up to something positive
		M := int64(len(s.order) + 1)
		dist := map[*scanNode]int64{}
		pred := map[*scanNode]*scanEdge{}
		var last *scanNode
		for i := 0; i <= len(s.order); i++ {
			last = nil
			for _, a := range arcs {
				if removed[a.ed] {
					continue
				}
				if w := dist[a.ed.from] + a.d*M - 1; w < dist[a.ed.to] {
					dist[a.ed.to] = w
					pred[a.ed.to] = a.ed
					last = a.ed.to
				}
			}
			if last == nil {
				break
			}
			if i > 40 {
				// look for the cycle early
				if cy := cycleOf(pred); cy != nil {
					break
				}
			}
		}
		if last == nil {
			c.count("automata without a standing cycle", 1)
			return
		}
		cy := cycleOf(pred)
		if cy == nil {
			c.unsure("%s: progress is not decided", fnName(s.fn))
			return
		}
		if !s.possible(cy) {
			// no byte takes all of its edges; leave one of them out only for this cycle
			c.unsure("%s: a cycle of different bytes is not decided", fnName(s.fn))
			return
		}
		if cut := s.counted(cy); cut != nil {
			c.count("inner loops", 1)
			for _, ed := range cut {
				removed[ed] = true
			}
			continue
		}
		var at []string
		for _, ed := range cy {
			at = append(at, c.p.pos(s.edgePos(ed)))
		}
		c.fail("cycle", at[0], fnName(s.fn)+": standing cycle", "a cycle of the automaton does not move the cursor forward: %s", strings.Join(dedup(at), " -> "))
		return
	}
	c.unsure("%s: too many inner loops", fnName(s.fn))
}

func dedup(a []string) []string {
	var r []string
	for _, x := range a {
		if len(r) == 0 || r[len(r)-1] != x {
			r = append(r, x)
		}
	}
	return r
}

func cycleOf(pred map[*scanNode]*scanEdge) []*scanEdge {
	done := map[*scanNode]bool{}
	var ns []*scanNode
	for n := range pred {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i].id < ns[j].id })
	for _, n := range ns {
		on := map[*scanNode]bool{}
		x := n
		for x != nil && !on[x] && !done[x] {
			on[x] = true
			if pred[x] == nil {
				x = nil
				break
			}
			x = pred[x].from
		}
		if x != nil && on[x] {
			var cy []*scanEdge
			y := x
			for {
				ed := pred[y]
				cy = append([]*scanEdge{ed}, cy...)
				y = ed.from
				if y == x {
					return cy
				}
			}
		}
		for k := range on {
			done[k] = true
		}
	}
	return nil
}

// edgePos is a place in the source the edge passes.
func (s *scan) edgePos(ed *scanEdge) token.Pos {
	for _, a := range ed.tape {
		if p := instrPos(a.in); p.IsValid() {
			return p
		}
	}
	for _, b := range []*ssa.BasicBlock{ed.from.b, func() *ssa.BasicBlock {
		if ed.to != nil {
			return ed.to.b
		}
		return nil
	}()} {
		if b == nil {
			continue
		}
		for _, in := range b.Instrs {
			if p := instrPos(in); p.IsValid() {
				return p
			}
		}
	}
	return s.fn.Pos()
}

// possible: some input lets all edges of a cycle be taken once.
func (s *scan) possible(cy []*scanEdge) bool {
	at := int64(0)
	seen := map[int64][4]uint64{}
	for _, ed := range cy {
		for off, set := range ed.look {
			cur, ok := seen[at+off]
			if !ok {
				cur = fullSet()
			}
			for i := range cur {
				cur[i] &= set[i]
			}
			if cur == ([4]uint64{}) {
				return false
			}
			seen[at+off] = cur
		}
		d, _ := offsetFrom(ed.p, ed.from.p)
		at += d
	}
	return true
}

// counted finds a register that runs towards a bound around the cycle; its edges are returned.
func (s *scan) counted(cy []*scanEdge) []*scanEdge {
	head := cy[0].from
	for k := range cy {
		// try each node of the cycle as its head
		r := append(append([]*scanEdge(nil), cy[k:]...), cy[:k]...)
		head = r[0].from
		for _, v := range head.ints {
			if s.cursor[v] || head.env[v].K != KInt {
				continue
			}
			d, fixed, ok := s.around(r, head, v)
			if !ok || d == 0 {
				continue
			}
			// bounded by the input or by what does not change
			bound := false
			for _, b := range append([]string{"0", "N"}, fixed...) {
				if b == v.Name() {
					continue
				}
				var f [2]string
				if d < 0 {
					f = [2]string{b, v.Name()}
				} else {
					f = [2]string{v.Name(), b}
				}
				if _, ok := head.facts.diff[f]; ok {
					bound = true
				}
			}
			if bound {
				return []*scanEdge{r[len(r)-1]}
			}
		}
	}
	return nil
}

// around follows the integer registers around a cycle: how much v changes, which ones come back as they were.
func (s *scan) around(cy []*scanEdge, head *scanNode, v ssa.Value) (int64, []string, bool) {
	type track struct {
		from ssa.Value
		d    int64
	}
	cur := map[ssa.Value]track{}
	for _, x := range head.ints {
		cur[x] = track{x, 0}
	}
	for _, ed := range cy {
		next := map[ssa.Value]track{}
		for _, x := range ed.to.ints {
			y, ok := ed.env[x]
			if !ok {
				continue
			}
			for _, z := range ed.from.ints {
				t, ok := cur[z]
				if !ok {
					continue
				}
				zv, ok := ed.from.env[z]
				if !ok {
					continue
				}
				if a, d, ok := affine(y); ok && a != 0 && a == zv.S {
					next[x] = track{t.from, t.d + d}
				}
			}
		}
		cur = next
	}
	var fixed []string
	res, ok := int64(0), false
	for _, x := range head.ints {
		t, has := cur[x]
		if !has {
			continue
		}
		if x == v && t.from == v {
			res, ok = t.d, true
		}
		if t.from == x && t.d == 0 {
			fixed = append(fixed, x.Name())
		}
	}
	return res, fixed, ok
}

// finite checks the loops and recursion of a function below the parsers.
func (c *Check) finite(fn *ssa.Function) {
	if len(fn.Blocks) == 0 {
		return
	}
	fi := c.engine().fi(fn)
	for _, b := range fi.rpo {
		if !fi.heads[b] {
			continue
		}
		c.count("loops", 1)
		body := naturalLoop(fi, b)
		why := loopEnds(fi, b, body)
		if why == "?" && c.standing(b, body) {
			why = "there is a way through this loop that changes nothing of what decides about leaving it"
		}
		switch why {
		case "":
			c.count("loops that end", 1)
		case "?":
			c.unsure("%s: loop at %s: its end is not decided", fnName(fn), c.p.pos(blockPos(b)))
		default:
			c.fail("loop", c.p.pos(blockPos(b)), fnName(fn)+": loop", "%s", why)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok || call.Common().StaticCallee() != fn {
				continue
			}
			c.count("recursive calls", 1)
			ok = false
			same := true
			for i, a := range call.Common().Args {
				if i >= len(fn.Params) {
					continue
				}
				if a != fn.Params[i] {
					same = false
				}
				if shrinks(a, fn.Params[i]) {
					ok = true
				}
			}
			switch {
			case ok:
			case same:
				c.fail("recursion", c.p.pos(instrPos(in)), fnName(fn)+": recursion", "the function calls itself with what it was called with")
			default:
				c.unsure("%s: recursion at %s: its end is not decided", fnName(fn), c.p.pos(instrPos(in)))
			}
		}
	}
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if p := instrPos(in); p.IsValid() {
			return p
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if p := instrPos(in); p.IsValid() {
				return p
			}
		}
	}
	return b.Parent().Pos()
}

func naturalLoop(fi *fnInfo, h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if fi.order[p] >= fi.order[h] {
			if _, ok := fi.order[p]; ok && !body[p] {
				body[p] = true
				work = append(work, p)
			}
		}
	}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range x.Preds {
			if _, ok := fi.order[p]; ok && !body[p] {
				body[p] = true
				work = append(work, p)
			}
		}
	}
	return body
}

// loopEnds returns "" when the loop runs over a range, a list or a shrinking rest, "?" when that is not known.
func loopEnds(fi *fnInfo, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) string {
	// a range over a map or a string
	for b := range body {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				for _, r := range *nx.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 && leaves(ex, body) {
						return ""
					}
				}
			}
		}
	}
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		all, any := true, false
		for k, ed := range ph.Edges {
			if !body[h.Preds[k]] {
				continue
			}
			any = true
			if !advances(ed, ph) && !shrinks(ed, ph) {
				all = false
			}
		}
		if !any || !all {
			continue
		}
		if !leaves(ph, body) {
			continue
		}
		if away(h, ph, body) {
			return "the loop's counter runs away from its bound"
		}
		return ""
	}
	// nothing that decides about leaving ever changes
	fixed := true
	exits := 0
	for b := range body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if body[b.Succs[0]] && body[b.Succs[1]] {
			continue
		}
		exits++
		if changes(iff.Cond, body, map[ssa.Value]bool{}) {
			fixed = false
		}
	}
	if exits == 0 || fixed {
		for b := range body {
			switch b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return, *ssa.Panic:
				return "?"
			}
		}
		return "nothing that decides about leaving this loop changes in it"
	}
	return "?"
}

// standing: some way once around the loop leaves everything its branches depend on as it was, and
// no branch on the way excludes another.
func (c *Check) standing(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	var path []*ssa.BasicBlock
	on := map[*ssa.BasicBlock]bool{}
	found := false
	left := 20000
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if left--; left < 0 || found {
			return
		}
		path = append(path, b)
		on[b] = true
		for _, s := range b.Succs {
			if s == h {
				found = found || c.standingPath(path, h)
			} else if body[s] && !on[s] {
				walk(s)
			}
		}
		on[b] = false
		path = path[:len(path)-1]
	}
	walk(h)
	return found
}

func (c *Check) standingPath(path []*ssa.BasicBlock, h *ssa.BasicBlock) bool {
	at := map[*ssa.BasicBlock]int{}
	for i, b := range path {
		at[b] = i
	}
	// what a value is on this path
	val := func(v ssa.Value) ssa.Value {
		for {
			ph, ok := v.(*ssa.Phi)
			if !ok || ph.Block() == h {
				return v
			}
			i, ok := at[ph.Block()]
			if !ok || i == 0 {
				return v
			}
			k := -1
			for j, p := range ph.Block().Preds {
				if p == path[i-1] {
					k = j
				}
			}
			v = ph.Edges[k]
		}
	}
	used := map[*ssa.Phi]bool{}
	var pure func(v ssa.Value, d int) bool
	pure = func(v ssa.Value, d int) bool {
		v = val(v)
		if d > 20 {
			return false
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			return true
		}
		if _, here := at[in.Block()]; !here {
			return true
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() != h {
				return false
			}
			used[x] = true
			return true
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil {
				if g.Pkg == nil {
					return false
				}
				switch g.Pkg.Pkg.Path() {
				case "strings", "bytes", "strconv", "unicode":
				default:
					return false
				}
			} else if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.IndexAddr, *ssa.Index, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.Slice, *ssa.Lookup:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		default:
			return false
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && !pure(*op, d+1) {
				return false
			}
		}
		return true
	}
	truth := map[ssa.Value]bool{}
	for i, b := range path {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				a := x.Addr
				for {
					if y, ok := a.(*ssa.IndexAddr); ok {
						a = y.X
					} else if y, ok := a.(*ssa.FieldAddr); ok {
						a = y.X
					} else {
						break
					}
				}
				if al, ok := a.(*ssa.Alloc); !ok || at[al.Block()] == 0 && al.Block() != h {
					return false // arguments of a call are made on the way; anything else may matter
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.Next, *ssa.Go, *ssa.Defer:
				return false
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g == nil {
					if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
						return false
					}
				} else if c.p.inRepo(g) {
					return false
				}
			}
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		next := h
		if i+1 < len(path) {
			next = path[i+1]
		}
		if b.Succs[0] == b.Succs[1] {
			continue
		}
		t := b.Succs[0] == next
		cv := val(iff.Cond)
		if k, ok := cv.(*ssa.Const); ok && k.Value != nil && (k.Value.String() == "true") != t {
			return false
		}
		if old, ok := truth[cv]; ok && old != t {
			return false
		}
		truth[cv] = t
		if !pure(cv, 0) {
			return false
		}
	}
	last := path[len(path)-1]
	for ph := range used {
		for k, p := range h.Preds {
			if p == last && val(ph.Edges[k]) != ssa.Value(ph) {
				return false
			}
		}
	}
	return true
}

// changes: computed in the loop from something that is not constant there.
func changes(v ssa.Value, body map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok || !body[in.Block()] {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v {
				if y, ok := e.(ssa.Instruction); ok && body[y.Block()] && e != v {
					return true
				}
			}
		}
		return false
	case *ssa.BinOp:
		return changes(x.X, body, seen) || changes(x.Y, body, seen)
	case *ssa.Convert:
		return changes(x.X, body, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL || x.Op == token.ARROW {
			return true
		}
		return changes(x.X, body, seen)
	}
	return true
}

// advances: v is ph plus or minus a constant.
func advances(v ssa.Value, ph ssa.Value) bool {
	if m, ok := v.(*ssa.Phi); ok && v != ph {
		for _, e := range m.Edges {
			if _, deep := e.(*ssa.Phi); deep || !advances(e, ph) {
				return false
			}
		}
		return true
	}
	n := 0
	for v != ph {
		bo, ok := v.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD && bo.Op != token.SUB {
			return false
		}
		k, ok := bo.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Int64() == 0 {
			return false
		}
		v = bo.X
		n++
	}
	return n > 0
}

// shrinks: v is a later part of ph (a list's rest, a text's end).
func shrinks(v, ph ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	steps := 0
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == ph {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return walk(x.X)
			}
		case *ssa.FieldAddr:
			steps++
			return walk(x.X)
		case *ssa.Slice:
			if k, ok := x.Low.(*ssa.Const); ok && k.Value != nil && k.Int64() > 0 {
				steps++
			} else if bo, ok := x.Low.(*ssa.BinOp); ok && bo.Op == token.ADD {
				if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil && k.Int64() > 0 {
					steps++
				}
			}
			return walk(x.X)
		}
		return false
	}
	return walk(v) && steps > 0
}

// leaves: some condition computed from v decides about leaving the loop.
func leaves(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if ok && (!body[b.Succs[0]] || !body[b.Succs[1]]) && uses(iff.Cond, v, 0) {
			return true
		}
	}
	return false
}

func uses(x, v ssa.Value, d int) bool {
	if x == v {
		return true
	}
	if d > 6 {
		return false
	}
	in, ok := x.(ssa.Instruction)
	if !ok {
		return false
	}
	if _, ok := x.(*ssa.Phi); ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && uses(*op, v, d+1) {
			return true
		}
	}
	return false
}

// away: the counter is compared with a bound it moves away from.
func away(h *ssa.BasicBlock, ph *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	step := int64(0)
	for k, ed := range ph.Edges {
		if !body[h.Preds[k]] {
			continue
		}
		v, d := ed, int64(0)
		for v != ssa.Value(ph) {
			bo, ok := v.(*ssa.BinOp)
			if !ok {
				return false
			}
			n := bo.Y.(*ssa.Const).Int64()
			if bo.Op == token.SUB {
				n = -n
			}
			d += n
			v = bo.X
		}
		if step != 0 && (d > 0) != (step > 0) {
			return false
		}
		step = d
	}
	for b := range body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || body[b.Succs[0]] && body[b.Succs[1]] {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := bo.Op
		left, right := uses(bo.X, ph, 0), uses(bo.Y, ph, 0)
		if left == right {
			continue
		}
		if right {
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !body[b.Succs[0]] {
			op = negOp(op)
		}
		switch op { // while this holds the loop goes on
		case token.LSS, token.LEQ:
			if step > 0 {
				return false
			}
		case token.GTR, token.GEQ:
			if step < 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}
