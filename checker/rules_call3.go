package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D03", "Every step of the call's loop, and its beginning, is interpreted from each kind of state. On every path that ends the call each owner channel is closed exactly once, nothing is sent on it afterwards, and every socket opened is closed; on the others none is closed and the loop goes on with one socket whose receiver is alive. For every socket the communication on the step's paths is composed with the communication automaton of its receiver goroutine, and all joint states are explored: in none can either wait for something that need not happen, send on a closed channel or close one twice, and the receiver always finishes.", checkD03)
}

// recvRole is a receiver goroutine.
type recvRole struct {
	fn               *ssa.Function
	aut              *commAut
	sock, msgs, errs int // arguments
}

// sockPair is a socket with the channels of its receiver.
type sockPair struct {
	sock, msgs, errs *Obj
	role             *recvRole
	caps             map[string]int
	born             int // the act that started it, 0: before the step
	name             string
}

func chanElem(t types.Type) types.Type {
	if ch, ok := t.Underlying().(*types.Chan); ok {
		return ch.Elem()
	}
	return nil
}

// receiverRole extracts the automaton of a goroutine that reads a socket.
func (c *Check) receiverRole(fn *ssa.Function) *recvRole {
	if c.roles == nil {
		c.roles = map[*ssa.Function]*recvRole{}
	}
	if r, ok := c.roles[fn]; ok {
		return r
	}
	r := &recvRole{fn: fn, sock: -1, msgs: -1, errs: -1}
	c.roles[fn] = r
	var ts []types.Type
	for _, v := range fn.FreeVars {
		ts = append(ts, v.Type())
	}
	for _, p := range fn.Params {
		ts = append(ts, p.Type())
	}
	for i, t := range ts {
		el := chanElem(t)
		switch {
		case el != nil && types.Identical(el, types.Universe.Lookup("error").Type()):
			r.errs = i
		case el != nil && strings.HasSuffix(el.String(), "sip.Msg"):
			r.msgs = i
		case strings.HasSuffix(t.String(), "net.UDPConn"):
			r.sock = i
		}
	}
	if r.sock < 0 || r.msgs < 0 || r.errs < 0 || len(fn.FreeVars) > 0 {
		return r
	}
	e := c.engine()
	var m *Obj
	if parse := c.p.fn("sip.ParseMsg"); parse != nil {
		e.intrinsics[parse.String()] = func(e *Engine, cc *callCtx) []callRes {
			b := cc.st.clone()
			return []callRes{{cc.st, tuple(ptrTo(m), nilVal)}, {b, tuple(nilVal, e.errVal(b, "ParseMsg"))}}
		}
	}
	for _, n := range []string{"trace", "addTimestamp", "addReceived", "fixMessagesFromStrictRouters"} {
		if f := c.p.fn("dialog." + n); f != nil {
			e.intrinsics[f.String()] = noEffect
		}
	}
	objs := map[string]*Obj{}
	r.aut = c.commOf(e, fn, func(st *State, a []Val) []Val {
		m = c.input("msg", "sip.Msg")
		st.setMonVal("$msg", ptrTo(m))
		for n, i := range map[string]int{"sock": r.sock, "msgs": r.msgs, "errs": r.errs} {
			t := fn.Params[i].Type()
			if n == "sock" {
				t = elemOf(t)
			}
			if objs[n] == nil {
				objs[n] = newObj(n, "in:"+n, t)
				objs[n].Input = true
				if n == "sock" {
					objs[n].Tag = "socket"
				}
			}
			a[i] = ptrTo(objs[n])
			st.setMonVal("$"+n, a[i])
		}
		return a
	}, func(st *State, v Val) string {
		if o := objOf(st, v); o != nil {
			for n, x := range objs {
				if x == o {
					return n
				}
			}
		}
		return ""
	})
	return r
}

func capOf(st *State, o *Obj) int {
	if os := st.heap[o]; os != nil {
		if v, ok := os.cells["$cap"]; ok && v.isConstInt() {
			return int(v.N)
		}
	}
	return 0
}

// started makes the pair a goroutine serves.
func (r *stepRun) pairOf(st *State, fn *ssa.Function, args []Val) *sockPair {
	role := r.c.receiverRole(fn)
	if role == nil || role.aut == nil || len(args) <= role.sock || len(args) <= role.msgs || len(args) <= role.errs {
		return nil
	}
	p := &sockPair{role: role, sock: objOf(st, args[role.sock]), msgs: objOf(st, args[role.msgs]), errs: objOf(st, args[role.errs])}
	if p.sock == nil || p.msgs == nil || p.errs == nil {
		return nil
	}
	p.caps = map[string]int{"msgs": capOf(st, p.msgs), "errs": capOf(st, p.errs)}
	return p
}

func checkD03(c *Check) {
	c.rules = append(c.rules, "closed once", "used after close", "sockets", "receiver", "hang", "closed twice", "send on closed", "goes on", "waits")
	c.steps(everyStep(), func(r *stepRun) {
		var pairs []*sockPair
		// those of the start
		if r.ev.kind != "begin" {
			var proto *sockPair
			for _, g := range r.gos {
				if proto = r.pairOf(g.st, g.fn, g.args); proto != nil {
					break
				}
			}
			if proto == nil {
				c.unsure("the goroutine that reads the call's socket is not followed")
				return
			}
			for _, k := range []string{"sock", "csock"} {
				s := objOf(r.st0, c.get(r.st0, r.d, k))
				m, e := objOf(r.st0, c.get(r.st0, r.d, k+"Msgs")), objOf(r.st0, c.get(r.st0, r.d, k+"Errs"))
				if s != nil && m != nil && e != nil {
					pairs = append(pairs, &sockPair{sock: s, msgs: m, errs: e, role: proto.role, caps: proto.caps, name: k})
				}
			}
		}
		for i, a := range r.nodes {
			if a.kind != "go" {
				continue
			}
			p := r.pairOf(a.st, a.fn, a.args)
			if p == nil {
				c.unsure("%s: the goroutine started at %s is not followed", r.label(), c.p.pos(instrPos(a.in)))
				return
			}
			p.born, p.name = i, fmt.Sprintf("socket opened at step %d", i)
			pairs = append(pairs, p)
		}
		for _, o := range r.outs {
			r.ending(o, pairs)
		}
		seen := map[string]bool{}
		for _, p := range pairs {
			aut := r.pairAut(p)
			bad, n := commProduct(p.role.aut, aut.reduce().reduce(), p.caps)
			if n < 0 {
				c.unsure("%s: too many joint states", r.label())
				continue
			}
			c.count("joint states", n)
			for _, b := range bad {
				if k := b.rule + b.where + b.what; !seen[k] {
					seen[k] = true
					c.fail(b.rule, b.where, r.label(), "%s (%s): %s", r.label(), p.name, b.text)
				}
			}
			c.count("sockets followed", 1)
		}
	})
}

// ending checks what is open and closed at the end of a path.
func (r *stepRun) ending(o stepOut, pairs []*sockPair) {
	c, st := r.c, o.st
	if o.end == "block" {
		r.bad("hang", o, "the call waits for something that cannot happen")
		return
	}
	owner := map[string]int{"errChan": 0, "stateChan": 0, "peerChan": 0}
	open := map[*Obj]string{}
	told := map[*Obj]bool{} // error channels that have delivered
	mine := map[*Obj]bool{}
	for _, p := range pairs {
		if p.born == 0 {
			open[p.sock] = p.name
		}
		mine[p.msgs], mine[p.errs] = true, true
	}
	for _, p := range pairs {
		if p.born == 0 && (r.ev.kind == "err" && p.name == "sock" || r.ev.kind == "cerr" && p.name == "csock") {
			told[p.errs] = true
		}
	}
	begun := map[int]bool{}
	for _, a := range o.trace {
		switch a.kind {
		case "dial":
			if a.o != nil {
				open[a.o] = "socket opened by " + a.ch
			}
		case "sockclose":
			if a.o == nil {
				c.unsure("%s: the socket closed at %s is not followed", r.label(), c.p.pos(instrPos(a.in)))
				return
			}
			delete(open, a.o)
		case "go":
			begun[a.n] = true
		case "close":
			if _, ok := owner[a.ch]; ok {
				owner[a.ch]++
			}
		case "err", "state", "peer":
			if owner[a.ch] > 0 {
				r.bad("used after close", o, "something is sent on %s after it is closed", a.ch)
			}
		case "recv":
			if a.o != nil && !mine[a.o] && a.ch != "requestTimer" && a.ch != "responseTimer" && !strings.Contains(a.o.Name, "After") {
				r.bad("waits", o, "the call waits on %s outside its loop", a.ch)
			}
			for _, p := range pairs {
				if a.o == p.errs {
					told[p.errs] = true
				}
			}
		}
	}
	c.count("endings checked", 1)
	if o.end == "return" {
		for _, k := range []string{"errChan", "stateChan", "peerChan"} {
			if owner[k] != 1 {
				r.bad("closed once", o, "the call ends with %s closed %d times", k, owner[k])
			}
		}
		for _, n := range open {
			r.bad("sockets", o, "the call ends with its %s open", n)
		}
		return
	}
	for k, n := range owner {
		if n != 0 {
			r.bad("closed once", o, "the call goes on with %s closed", k)
		}
	}
	for _, k := range []string{"sock", "csock"} {
		s := objOf(st, c.get(st, r.d, k))
		m, e := objOf(st, c.get(st, r.d, k+"Msgs")), objOf(st, c.get(st, r.d, k+"Errs"))
		if s == nil && (k == "csock" || st.nilness(c.get(st, r.d, k)) != 1) {
			continue
		}
		var cur *sockPair
		for _, p := range pairs {
			if p.sock == s && p.msgs == m && p.errs == e && (p.born == 0 || begun[p.born]) {
				cur = p
			}
		}
		if cur == nil {
			r.bad("goes on", o, "the call goes on with a %s without a receiver that delivers on its channels", k)
			continue
		}
		if _, ok := open[cur.sock]; !ok {
			r.bad("goes on", o, "the call goes on with its %s closed", k)
		}
		if told[cur.errs] {
			r.bad("goes on", o, "the call goes on with a %s whose receiver has finished", k)
		}
		delete(open, cur.sock)
	}
	for _, n := range open {
		r.bad("sockets", o, "the call goes on without its %s, which stays open", n)
	}
}

// loopSeesClosed: the call's loop asks whether what it received is real.
func (c *Check) loopSeesClosed() bool {
	b := c.loopSelect()
	if b == nil {
		return false
	}
	for _, in := range b.Instrs {
		if s, ok := in.(*ssa.Select); ok {
			for _, u := range *s.Referrers() {
				if x, ok := u.(*ssa.Extract); ok && x.Index == 1 && len(*x.Referrers()) > 0 {
					return true
				}
			}
		}
	}
	return false
}

// pairAut is what the step does with one socket and its channels.
func (r *stepRun) pairAut(p *sockPair) *commAut {
	c := r.c
	a := newAut("the call")
	idle, n := a.node("idle")
	n.label, n.at, n.ok = "the call's loop", true, true
	end, n := a.node("end")
	n.end = true
	live, n := a.node("live")
	n.label, n.ok, n.end = "the call's loop", true, true
	a.start = idle
	nodes := make([]int, len(r.nodes))
	for i, x := range r.nodes {
		var m *commNode
		nodes[i], m = a.node(fmt.Sprintf("act %d", i))
		m.label = x.kind + " " + x.ch
		if x.in != nil {
			m.pos = c.p.pos(instrPos(x.in))
		}
	}
	a.op(idle, commOp{kind: "recv", ch: "msgs", out: "val", to: idle})
	if !r.c.loopSeesClosed() {
		for ch, what := range map[string]string{"msgs": "a nil message", "errs": "a nil error"} {
			i, n := a.node("closed " + ch)
			n.label, n.pos, n.ok = "channel "+ch+" closed", c.p.pos(p.role.fn.Pos()), true
			n.bad = fmt.Sprintf("the receiver closes channel %s while the call is still waiting on it, which makes it handle %s", ch, what)
			a.op(idle, commOp{kind: "recv", ch: ch, out: "closed", to: i})
		}
	}
	if p.born == 0 && (r.ev.kind == "err" && p.name == "sock" || r.ev.kind == "cerr" && p.name == "csock") {
		a.op(idle, commOp{kind: "recv", ch: "errs", out: "val", to: nodes[0]})
	} else {
		a.tau(idle, nodes[0])
	}
	wait := func(from int, in ssa.Instruction) int {
		k := fmt.Sprintf("wait %d %p", from, in)
		i, m := a.node(k)
		m.at, m.label, m.pos = true, "wait", c.p.pos(instrPos(in))
		a.tau(nodes[from], i)
		return i
	}
	recv := func(from, to int, x act) {
		w := wait(from, x.in)
		ch := ""
		switch x.o {
		case p.msgs:
			ch = "msgs"
		case p.errs:
			ch = "errs"
		}
		if ch == "" || x.o == nil {
			a.tau(w, nodes[to])
			return
		}
		out := "val"
		if x.val.isConstStr() {
			out = "closed"
		}
		a.op(w, commOp{kind: "recv", ch: ch, out: out, to: nodes[to]})
	}
	used := map[int]bool{} // acts on a path to an ending
	for _, o := range r.outs {
		for _, x := range o.trace {
			used[x.n] = true
		}
	}
	for ch := true; ch; {
		ch = false
		use := func(n int) {
			for ; n > 0 && !used[n]; n = r.nodes[n].prev {
				used[n], ch = true, true
			}
		}
		for _, b := range r.backs {
			y := r.nodes[b.to]
			for _, z := range r.nodes {
				if z.prev == y.prev && z.kind == "recv" && z.in == y.in && z.o == y.o && used[z.n] {
					use(b.from)
				}
			}
		}
	}
	for i := 1; i < len(r.nodes); i++ {
		x := r.nodes[i]
		if !used[i] {
			continue
		}
		switch {
		case x.kind == "recv":
			recv(x.prev, i, x)
		case x.kind == "sockclose" && x.o == p.sock:
			a.op(nodes[x.prev], commOp{kind: "sockclose", ch: "sock", to: nodes[i]})
		case x.kind == "close" && (x.o == p.msgs || x.o == p.errs):
			a.op(nodes[x.prev], commOp{kind: "close", ch: map[bool]string{true: "msgs", false: "errs"}[x.o == p.msgs], to: nodes[i]})
		default:
			a.tau(nodes[x.prev], nodes[i])
		}
	}
	for _, b := range r.backs {
		if b.to < len(r.nodes) && b.from < len(r.nodes) {
			recv(b.from, b.to, r.nodes[b.to])
			y := r.nodes[b.to]
			for _, z := range r.nodes {
				if z.n != b.to && z.prev == y.prev && z.kind == "recv" && z.in == y.in && z.o == y.o { // the other outcome
					recv(b.from, z.n, z)
				}
			}
		}
	}
	for _, o := range r.outs {
		last := 0
		has := p.born == 0
		for _, x := range o.trace {
			last = x.n
			has = has || x.n == p.born
		}
		switch {
		case o.end == "block":
		case !has:
			a.tau(nodes[last], live)
		case o.end == "loop" && (objOf(o.st, c.get(o.st, r.d, "sockMsgs")) == p.msgs || objOf(o.st, c.get(o.st, r.d, "csockMsgs")) == p.msgs):
			a.tau(nodes[last], live)
		default:
			a.tau(nodes[last], end)
		}
	}
	return a
}
