package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S09", "The message automaton is followed together with the last bytes read, so that at every state it is known whether an empty line has just ended the headers. The code after the automaton is interpreted from there: every path that returns a message must have a declared length of zero or one equal to the number of bytes left, and must then hand over exactly those bytes, right after the empty line, with the declared type, or as the result of the description parser.", checkS09)
}

// bodyWalk knows the bytes around the cursor: before it (at most five) and after it (at most three).
// R is a carriage return, N a line feed, o anything else, ? not known.
type bodyWalk struct {
	c    *Check
	s    *scan
	seen map[bodyState]bool
	work []bodyState
	at   map[*scanNode]map[string]bool
}

type bodyState struct {
	n             *scanNode
	before, ahead string
	headers       bool // the start line is over
}

func byteClasses(set *[4]uint64) string {
	if set == nil {
		return "RNo"
	}
	r := ""
	if setHas(set, '\r') {
		r += "R"
	}
	if setHas(set, '\n') {
		r += "N"
	}
	x := *set
	x[0] &^= 1<<'\r' | 1<<'\n'
	if x != [4]uint64{} {
		r += "o"
	}
	return r
}

func (w *bodyWalk) add(x bodyState) {
	if len(x.before) > 5 {
		x.before = x.before[len(x.before)-5:]
	}
	if len(x.ahead) > 3 {
		x.ahead = x.ahead[:3]
	}
	x.ahead = strings.TrimRight(x.ahead, "?")
	x.before = strings.TrimLeft(x.before, "?")
	if !w.seen[x] {
		w.seen[x] = true
		w.work = append(w.work, x)
		if w.at[x.n] == nil {
			w.at[x.n] = map[string]bool{}
		}
		w.at[x.n][x.before] = true
	}
}

// fill makes the known bytes ahead agree with what an edge looks at; every way.
func (x bodyState) fill(ed *scanEdge) []bodyState {
	r := []bodyState{x}
	for o := int64(-5); o < 6; o++ {
		set := x.n.byteAt(ed, o)
		if set == nil {
			continue
		}
		cl := byteClasses(set)
		var next []bodyState
		for _, y := range r {
			if o < 0 {
				if k := int64(len(y.before)) + o; k >= 0 && y.before[k] != '?' && !strings.Contains(cl, y.before[k:k+1]) {
					continue
				}
				next = append(next, y)
				continue
			}
			for int64(len(y.ahead)) <= o {
				y.ahead += "?"
			}
			if y.ahead[o] != '?' {
				if strings.Contains(cl, y.ahead[o:o+1]) {
					next = append(next, y)
				}
				continue
			}
			for i := range cl {
				z := y
				z.ahead = y.ahead[:o] + cl[i:i+1] + y.ahead[o+1:]
				next = append(next, z)
			}
		}
		r = next
	}
	return r
}

// move puts the cursor d bytes further.
func (x bodyState) move(d int64) bodyState {
	for ; d > 0; d-- {
		b := "?"
		if x.ahead != "" {
			b, x.ahead = x.ahead[:1], x.ahead[1:]
		}
		x.before += b
	}
	for ; d < 0; d++ {
		b := "?"
		if x.before != "" {
			b, x.before = x.before[len(x.before)-1:], x.before[:len(x.before)-1]
		}
		x.ahead = b + x.ahead
	}
	return x
}

const emptyLine = "RNRN"

func checkS09(c *Check) {
	c.rules = append(c.rules, "length compared", "whole rest", "declared type", "description parsed", "after the empty line", "first empty line")
	s := c.msgScan()
	if s == nil {
		return
	}
	w := &bodyWalk{c: c, s: s, seen: map[bodyState]bool{}, at: map[*scanNode]map[string]bool{}}
	h := &hdrWalk{c: c, s: s, heads: map[*scanNode]bool{}}
	h.findHeads()
	if len(h.heads) == 0 {
		c.unsure("the place where a header begins was not found")
		return
	}
	blocks := map[*ssa.BasicBlock]bool{}
	for n := range h.heads {
		blocks[n.b] = true
	}
	w.add(bodyState{n: s.start})
	passed := map[string]bool{}
	for len(w.work) > 0 && len(w.seen) < 500000 {
		x := w.work[len(w.work)-1]
		w.work = w.work[:len(w.work)-1]
		for _, ed := range x.n.edges {
			if ed.to == nil || ed.isRet {
				continue
			}
			d, known := offsetFrom(ed.p, x.n.p)
			for _, y := range x.fill(ed) {
				switch {
				case x.n.p.K == KUndef && ed.p.K == KInt && x.n == s.start:
					// the cursor begins
					y = bodyState{before: "^^^^^"}
				case x.n.p.K == KUndef || ed.p.K == KUndef || !known:
					y = bodyState{}
				default:
					if x.headers && strings.HasSuffix(x.before, emptyLine) && d > 0 {
						// reading on where the headers have ended
						passed[c.p.pos(s.edgePos(ed))] = true
					}
					y = y.move(d)
				}
				y.n, y.headers = ed.to, x.headers || blocks[ed.to.b]
				w.add(y)
			}
		}
	}
	if len(w.work) > 0 {
		c.unsure("too many states of last bytes")
		return
	}
	c.count("states with last bytes", len(w.seen))
	for _, p := range sortedKeys(passed) {
		c.fail("first empty line", p, "sip.ParseMsg", "an empty line has been read, but the parser reads further instead of ending the headers there")
	}
	w.finish()
}

// finish interprets what follows the automaton.
func (w *bodyWalk) finish() {
	c, s := w.c, w.s
	// nodes from which the cursor is never used again
	uses := map[*scanNode]bool{}
	for _, n := range s.order {
		if n.p.K == KInt {
			uses[n] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, n := range s.order {
			for _, ed := range n.edges {
				if ed.to != nil && uses[ed.to] && !uses[n] {
					uses[n], ch = true, true
				}
			}
		}
	}
	tail := map[*ssa.BasicBlock]bool{}
	for _, n := range s.order {
		if !uses[n] {
			tail[n.b] = true
		}
	}
	kept := s.keptRegs()
	ends := 0
	for _, n := range s.order {
		if n.entry == nil {
			continue
		}
		last, stores := false, false
		for _, ed := range n.edges {
			last = last || ed.isRet || ed.to != nil && !uses[ed.to]
			for _, a := range ed.tape {
				stores = stores || a.kind == "store" && s.fieldAt(a.vals[0]) == "Payload"
			}
		}
		if n == s.start || !uses[n] {
			continue
		}
		if stores && !last {
			c.unsure("the payload is set at %s, before the headers have ended", c.p.pos(blockPos(n.b)))
		}
		if last {
			ends += w.end(n, tail, kept[n])
		}
	}
	c.count("accepting paths", ends)
	if ends == 0 {
		c.unsure("no path was found that returns a message")
	}
}

// end follows one node to the function's returns.
func (w *bodyWalk) end(n *scanNode, tail map[*ssa.BasicBlock]bool, kept map[ssa.Value]bool) int {
	c, s := w.c, w.s
	type item struct {
		st *State
		b  *ssa.BasicBlock
	}
	st := n.entry.clone()
	st.setMon("")
	// copies of parts of the input
	app, cpy := s.e.onAppend, s.e.onCopy
	defer func() { s.e.onAppend, s.e.onCopy = app, cpy }()
	s.e.onAppend = func(st *State, in ssa.Instruction, a, b Val, inPlace bool) {
		if !inPlace && a.K == KSlice && a.El[2].isConstInt() && a.El[2].N == 0 {
			st.setMonVal("$append "+c.p.pos(in.Pos()), b)
		} else if l, ok := loc1(st, a.El[0]); ok && inPlace && a.El[2].isConstInt() && a.El[2].N == 0 {
			st.setMonVal("$copy "+l.O.Name+c.p.pos(l.O.Pos)+" "+render(a.El[1]), b)
		}
	}
	s.e.onCopy = func(st *State, in ssa.Instruction, dst, src, n Val) {
		if l, ok := loc1(st, dst.El[0]); ok {
			st.setMonVal("$copy "+l.O.Name+c.p.pos(l.O.Pos)+" "+render(dst.El[1]), src)
		}
	}
	stack := []item{{st, n.b}}
	count := 0
	for steps := 0; len(stack) > 0; steps++ {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if steps > 3000 {
			c.unsure("too many paths after the automaton")
			return count
		}
		outs := s.e.block(it.st, it.b)
		for i := len(outs) - 1; i >= 0; i-- {
			o := outs[i]
			if o.ret {
				if w.accepted(n, o.st, kept) {
					count++
				}
				continue
			}
			if s.isCut(o.to) && !tail[o.to] {
				continue
			}
			o.st.pruneRegs(s.fi.liveInPhi(o.to))
			stack = append(stack, item{o.st, o.to})
		}
	}
	return count
}

func (w *bodyWalk) accepted(n *scanNode, st *State, kept map[ssa.Value]bool) bool {
	c, s := w.c, w.s
	if st.ret.K != KTuple || len(st.ret.El) != 2 {
		return false
	}
	msg, err := st.ret.El[0], st.ret.El[1]
	if st.nilness(err) == 2 || st.nilness(msg) == 1 {
		return false
	}
	where := c.p.pos(blockPos(n.b))
	if msg.K != KPtr || msg.S != 0 || msg.L.O == nil {
		c.unsure("the message returned at %s is not known", where)
		return true
	}
	regs := n.entry.top().regs
	one := func(is func(types.Type) bool, what string) (Val, bool) {
		var names []string
		var r Val
		for v := range kept {
			if is(v.Type()) && !(isInt(v.Type()) && s.position(n, v)) {
				r = regs[v]
				names = append(names, v.Name())
			}
		}
		sort.Strings(names)
		if len(names) != 1 {
			c.unsure("the %s cannot be told apart: %v", what, names)
			return undef, false
		}
		return r, true
	}
	clen, ok := one(isInt, "declared length")
	if !ok {
		return true
	}
	pt := msgField(msg.L.O, "Payload")
	l := Loc{msg.L.O, msg.L.Path + ".Payload"}
	pay := st.load(l, pt)
	var q, ln, part Val
	set := pay.K == KIface && pay.T != nil && len(pay.El) == 1
	kind := ""
	if !set {
		if st.nilness(pay) == 2 {
			c.unsure("a payload of unknown type is handed over at %s", where)
			return true
		}
		if st.subUB(clen, iconst(0)) > 0 {
			c.fail("length compared", where, "sip.ParseMsg", "a message whose declared length may be positive is returned without a payload")
		}
		return true
	}
	switch {
	case strings.HasSuffix(typeText(pay.T), "sip.MiscPayload"):
		kind = "bytes"
		o := pay.El[0]
		if o.K != KPtr || o.S != 0 || o.L.O == nil {
			if st.nilness(o) == 1 {
				c.fail("whole rest", where, "sip.ParseMsg", "the payload handed over is a nil pointer")
			} else {
				c.unsure("the payload at %s is not known", where)
			}
			return true
		}
		mt := derefType(pay.T)
		part = st.load(Loc{o.L.O, o.L.Path + ".D"}, structFieldType(mt, "D"))
		t := st.load(Loc{o.L.O, o.L.Path + ".T"}, structFieldType(mt, "T"))
		ctype, ok := one(isStr, "declared type")
		if !ok {
			return true
		}
		if r, known := st.sameVal(t, ctype); !known || !r {
			if known || t.K == KStr && (t.S == 0 || definiteLeaf(t.S)) {
				c.fail("declared type", where, "sip.ParseMsg", "the payload's type is not the declared content type")
			} else {
				c.unsure("the payload's type at %s is not known", where)
			}
		}
		k, m := st.evalCond(condEq(ctype, strc("application/sdp")))
		if !m || k {
			c.fail("description parsed", where, "sip.ParseMsg", "a body declared as application/sdp may be handed over unparsed")
		}
	case strings.HasSuffix(typeText(pay.T), "sdp.SDP"):
		kind = "description"
		found := false
		for _, a := range tapeOf(st) {
			if a.kind == "call" && a.name == "sdp.Parse" && len(a.vals) == 1 {
				found = true
				part = s.texts[a.vals[0].S]
			}
		}
		if !found || st.nilness(pay.El[0]) != 2 {
			c.fail("description parsed", where, "sip.ParseMsg", "the session description handed over is not one that was parsed successfully")
			return true
		}
	default:
		c.unsure("a payload of type %s is handed over at %s", typeText(pay.T), where)
		return true
	}
	part = w.original(st, part)
	if part.K == KSlice && !valEq(part.El[0], s.args[s.data].El[0]) && !w.older(n, part.El[0]) {
		c.unsure("the bytes handed over at %s are not known", where)
		return true
	}
	if part.K != KSlice || !valEq(part.El[0], s.args[s.data].El[0]) {
		c.fail("whole rest", where, "sip.ParseMsg", "the %s handed over are not taken from the bytes received", kind)
		return true
	}
	q, ln = part.El[1], part.El[2]
	d, ok := offsetFrom(q, n.p)
	if a, b := st.subUB(q, n.p), st.subUB(n.p, q); !ok && a == -b && a < 8 && a > -8 {
		d, ok = a, true
	}
	if !ok {
		if b, _, _ := affine(q); b == 0 || s.positionSym(n, b) {
			c.fail("after the empty line", where, "sip.ParseMsg", "the payload does not begin where the headers end")
			return true
		}
		c.unsure("the place where the payload begins is not known at %s", where)
		return true
	}
	for b := range w.at[n] {
		y := bodyState{before: b}.move(d)
		if !strings.HasSuffix(y.before, emptyLine) {
			c.fail("after the empty line", where, "sip.ParseMsg", "the payload begins after %s, not right after the empty line", showBytes(y.before))
			break
		}
	}
	if rest := lin(st, s.n, 1, q, -1); !rest.same(st, lin(st, ln, 1)) {
		c.fail("whole rest", where, "sip.ParseMsg", "the payload is not all of the bytes after the empty line")
	}
	f := lin(st, clen, 1, s.n, -1, q, 1)
	switch f.zero(st) {
	case no:
		if st.subUB(clen, iconst(0)) > 0 {
			c.fail("length compared", where, "sip.ParseMsg", "a body is handed over although its length may differ from the declared length")
		}
	case maybe:
		c.unsure("the declared length is not known to be compared at %s", where)
	}
	return true
}

// older: something the automaton itself worked with, not made to hold the payload.
func (w *bodyWalk) older(n *scanNode, base Val) bool {
	for _, v := range n.live {
		if y, ok := n.entry.top().regs[v]; ok && y.K == KSlice && valEq(y.El[0], base) {
			return true
		}
	}
	return false
}

// original: what a slice is a copy of.
func (w *bodyWalk) original(st *State, v Val) Val {
	if v.K != KSlice {
		return v
	}
	l, ok := loc1(st, v.El[0])
	if !ok || l.O == nil {
		return v
	}
	var r []Val
	for k, x := range st.mon.Vals {
		if k == "$append "+w.c.p.pos(l.O.Pos) && v.El[1].isConstInt() && v.El[1].N == 0 || k == "$copy "+l.O.Name+w.c.p.pos(l.O.Pos)+" "+render(v.El[1]) {
			r = append(r, x)
		}
	}
	if len(r) == 1 && r[0].K == KSlice && lin(st, r[0].El[2], 1).same(st, lin(st, v.El[2], 1)) {
		return r[0]
	}
	return v
}

// position: the register holds a place in the input at the node, on some way to it.
func (s *scan) position(n *scanNode, v ssa.Value) bool {
	type at struct {
		n *scanNode
		v ssa.Value
	}
	seen := map[at]bool{}
	work := []at{{n, v}}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		for _, m := range s.order {
			if m.entry == nil {
				continue
			}
			for _, ed := range m.edges {
				y, ok := ed.env[x.v]
				if ed.to != x.n || !ok || y.S == 0 {
					continue
				}
				if _, ok := offsetFrom(y, m.p); ok {
					return true
				}
				for _, u := range m.live {
					if z, ok := m.entry.top().regs[u]; ok && valEq(y, z) {
						work = append(work, at{m, u})
					}
				}
			}
		}
	}
	return false
}

func (s *scan) positionSym(n *scanNode, x Sym) bool {
	for _, v := range n.live {
		if y, ok := n.entry.top().regs[v]; ok && y.K == KInt && y.S == x && isInt(v.Type()) && s.position(n, v) {
			return true
		}
	}
	return false
}

func typeText(t types.Type) string {
	if p := derefType(t); p != nil {
		t = p
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return t.String()
}

func showBytes(s string) string {
	r := strings.NewReplacer("R", "CR ", "N", "LF ", "o", "x ", "?", "? ", "^", "").Replace(s)
	return "'" + strings.TrimSpace(r) + "'"
}

// lin is a sum of values with coefficients.
func lin(st *State, a ...any) *linForm {
	r := &linForm{c: map[Sym]int64{}}
	for i := 0; i < len(a); i += 2 {
		v := a[i].(Val)
		k, ok := a[i+1].(int)
		if !ok {
			return nil
		}
		f, _, good := linOf(st, v)
		if !good {
			return nil
		}
		r.k += int64(k) * f.k
		for s, n := range f.c {
			r.c[s] += int64(k) * n
			if r.c[s] == 0 {
				delete(r.c, s)
			}
		}
	}
	return r
}

func (f *linForm) String() string { return fmt.Sprint(f.k, f.c) }

func (f *linForm) same(st *State, g *linForm) bool {
	if f == nil || g == nil {
		return false
	}
	h := &linForm{k: f.k - g.k, c: map[Sym]int64{}}
	for s, n := range f.c {
		h.c[s] += n
	}
	for s, n := range g.c {
		h.c[s] -= n
	}
	for s, n := range h.c {
		if n == 0 {
			delete(h.c, s)
		}
	}
	return h.zero(st) == yes
}

// zero: the sum is known to be zero, by itself or by a constraint of the state. A sum no constraint
// speaks of is not.
func (f *linForm) zero(st *State) tri {
	if f == nil {
		return maybe
	}
	if len(f.c) == 0 {
		if f.k == 0 {
			return yes
		}
		return no
	}
	// upper bounds of f and -f that a single constraint gives
	below := func(sign int64) bool {
		for k, b := range st.zone {
			g := lin(st, isym(k[0]), 1, isym(k[1]), -1)
			if g == nil {
				continue
			}
			eq := len(g.c) == len(f.c)
			for s, n := range f.c {
				eq = eq && g.c[s] == sign*n
			}
			// g.c = sign*f.c; g <= b, so sign*f <= b - g.k + sign*f.k
			if eq && b-g.k+sign*f.k <= 0 {
				return true
			}
		}
		return false
	}
	up, down := below(1), below(-1)
	if up && down {
		return yes
	}
	for k := range st.zone {
		if g := lin(st, isym(k[0]), 1, isym(k[1]), -1); g == nil && !up && !down {
			return maybe
		}
	}
	return no
}
