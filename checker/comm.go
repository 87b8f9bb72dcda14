package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Communication automata: what a goroutine does on channels and its socket,
// in which order, with everything else left out.

type commOp struct {
	kind string // read, send, recv, close, sockclose
	ch   string
	out  string // read: ok, err; recv: val, closed
	to   int
}

type commNode struct {
	label string
	pos   string
	at    bool // waits for one of ops
	end   bool
	ok    bool   // may rest here
	bad   string // must not be reached
	poll  bool   // a select with default
	ops   []commOp
	tau   []int
}

type commAut struct {
	name  string
	nodes []*commNode
	index map[string]int
	start int
}

func newAut(name string) *commAut { return &commAut{name: name, index: map[string]int{}} }

func (a *commAut) node(key string) (int, *commNode) {
	if i, ok := a.index[key]; ok {
		return i, a.nodes[i]
	}
	n := &commNode{label: key}
	a.nodes = append(a.nodes, n)
	a.index[key] = len(a.nodes) - 1
	return len(a.nodes) - 1, n
}

func (a *commAut) tau(from, to int) {
	for _, t := range a.nodes[from].tau {
		if t == to {
			return
		}
	}
	a.nodes[from].tau = append(a.nodes[from].tau, to)
}

func (a *commAut) op(from int, o commOp) {
	for _, p := range a.nodes[from].ops {
		if p == o {
			return
		}
	}
	a.nodes[from].ops = append(a.nodes[from].ops, o)
}

// commOf interprets a function and records the automaton of its
// communication; name gives a channel's name, "" for those of no interest.
func (c *Check) commOf(e *Engine, fn *ssa.Function, setup func(st *State, args []Val) []Val, name func(st *State, ch Val) string) *commAut {
	a := newAut(fnName(fn))
	a.start, _ = a.node("start")
	end, en := a.node("end")
	en.end = true
	cur := func(st *State) int {
		if v, ok := st.monVal("$comm"); ok {
			return int(v.N)
		}
		return a.start
	}
	move := func(st *State, n int) {
		st.setMonVal("$comm", iconst(int64(n)))
		st.setMon(fmt.Sprintf("n%d", n))
	}
	at := func(st *State, in ssa.Instruction, what string) (int, string) {
		key := fmt.Sprintf("%d %s", cur(st), e.site(st, in, ""))
		i, n := a.node("at " + key)
		n.at = true
		n.pos = c.p.pos(instrPos(in))
		n.label = what
		if s, ok := in.(*ssa.Select); ok {
			n.label = "select"
			n.poll = !s.Blocking
			if n.poll { // its default goes on from before it
				a.tau(i, cur(st))
			}
		}
		a.tau(cur(st), i)
		return i, e.site(st, in, "")
	}
	step := func(st *State, in ssa.Instruction, o commOp) *State {
		i, site := at(st, in, strings.TrimSpace(o.kind+" "+o.ch))
		// where it goes on depends on the operation, not on how it was reached
		o.to, _ = a.node(fmt.Sprintf("after %s %s %s %s", site, o.kind, o.ch, o.out))
		a.nodes[o.to].pos = a.nodes[i].pos
		a.op(i, o)
		move(st, o.to)
		return st
	}
	e.onEvent = func(e *Engine, st *State, ev *Event) []*State {
		switch {
		case ev.Kind == "send" || ev.Kind == "close":
			if n := name(st, ev.Args[0]); n != "" {
				return []*State{step(st, ev.In, commOp{kind: ev.Kind, ch: n})}
			}
		case ev.Kind == "sock.Close":
			if n := name(st, ev.Args[0]); n != "" {
				return []*State{step(st, ev.In, commOp{kind: "sockclose", ch: n})}
			}
		case strings.HasPrefix(ev.Kind, "sockdone.Read"):
			t := ev.Args[0]
			if name(st, ev.Args[1]) == "" || t.K != KTuple || len(t.El) == 0 {
				break
			}
			err := t.El[len(t.El)-1]
			switch st.nilness(err) {
			case 1:
				return []*State{step(st, ev.In, commOp{kind: "read", out: "ok"})}
			case 2:
				return []*State{step(st, ev.In, commOp{kind: "read", out: "err"})}
			}
			var out []*State
			b := st.clone()
			if st.assumeNil(err, true) {
				out = append(out, step(st, ev.In, commOp{kind: "read", out: "ok"}))
			}
			if b.assumeNil(err, false) {
				out = append(out, step(b, ev.In, commOp{kind: "read", out: "err"}))
			}
			return out
		case ev.Kind == "block":
			i, _ := at(st, ev.In, "block")
			_ = i // nothing to go on to
		}
		return []*State{st}
	}
	given := map[ssa.Instruction]*Obj{}
	e.onRecv = func(e *Engine, st *State, ch Val, elem types.Type, in ssa.Instruction) []recvRes {
		b := st.clone()
		v := freshVal("recv", elem)
		if _, ok := elem.Underlying().(*types.Pointer); ok {
			o := given[in]
			if o == nil {
				o = newObj("received", e.site(st, in, "recv"), elemOf(elem))
				o.Input = true
				given[in] = o
			}
			v = ptrTo(o)
		}
		if n := name(st, ch); n != "" {
			step(st, in, commOp{kind: "recv", ch: n, out: "val"})
			step(b, in, commOp{kind: "recv", ch: n, out: "closed"})
		}
		return []recvRes{{st, v, bconst(true)}, {b, zeroVal(elem), bconst(false)}}
	}
	e.rolled = true
	res := e.run(fn, setup)
	for _, r := range res {
		a.tau(cur(r.st), end)
	}
	if c.gaveUp(e, fnName(fn)) {
		return nil
	}
	c.analysed(fn)
	c.count("communication points", len(a.nodes))
	return a
}

// graft adds another automaton's nodes and returns its start.
func (a *commAut) graft(b *commAut) int {
	off := len(a.nodes)
	for _, n := range b.nodes {
		m := &commNode{label: n.label, pos: n.pos, at: n.at, end: n.end, ok: n.ok, poll: n.poll}
		for _, o := range n.ops {
			o.to += off
			m.ops = append(m.ops, o)
		}
		for _, t := range n.tau {
			m.tau = append(m.tau, t+off)
		}
		a.nodes = append(a.nodes, m)
	}
	return off + b.start
}

// reduce merges nodes that behave alike.
func (a *commAut) reduce() *commAut {
	class := make([]int, len(a.nodes))
	for n := 0; ; {
		ids := map[string]int{}
		next := make([]int, len(a.nodes))
		for i, m := range a.nodes {
			var l []string
			for _, o := range m.ops {
				l = append(l, fmt.Sprintf("%s %s %s %d", o.kind, o.ch, o.out, class[o.to]))
			}
			for _, t := range m.tau {
				if class[t] != class[i] || n == 0 {
					l = append(l, fmt.Sprint(class[t]))
				}
			}
			sort.Strings(l)
			k := fmt.Sprint(class[i], m.at, m.end, m.ok, m.bad)
			for j, x := range l {
				if j == 0 || x != l[j-1] {
					k += "|" + x
				}
			}
			if _, ok := ids[k]; !ok {
				ids[k] = len(ids)
			}
			next[i] = ids[k]
		}
		class = next
		if len(ids) == n {
			break
		}
		n = len(ids)
	}
	b := newAut(a.name)
	for i, m := range a.nodes {
		j, x := b.node(fmt.Sprint(class[i]))
		if x.label == fmt.Sprint(class[i]) {
			x.label, x.pos = m.label, m.pos
		}
		x.at, x.end, x.ok, x.bad, x.poll = m.at, m.end, m.ok, m.bad, m.poll
		for _, o := range m.ops {
			o.to, _ = b.node(fmt.Sprint(class[o.to]))
			b.op(j, o)
		}
		for _, t := range m.tau {
			if k, _ := b.node(fmt.Sprint(class[t])); k != j {
				b.tau(j, k)
			}
		}
	}
	b.start, _ = b.node(fmt.Sprint(class[a.start]))
	// a step nobody sees leads straight on
	to := make([]int, len(b.nodes))
	for i := range b.nodes {
		to[i] = i
		for n, k := 0, i; n < len(b.nodes); n++ {
			m := b.nodes[k]
			if len(m.ops) > 0 || len(m.tau) != 1 || m.at || m.end || m.ok || m.bad != "" {
				break
			}
			k = m.tau[0]
			to[i] = k
		}
	}
	for _, m := range b.nodes {
		for j := range m.ops {
			m.ops[j].to = to[m.ops[j].to]
		}
		for j := range m.tau {
			m.tau[j] = to[m.tau[j]]
		}
	}
	b.start = to[b.start]
	return b
}

type commState struct {
	n      [2]int
	shut   bool // socket closed
	closed string
	buf    string
}

// commProduct explores two automata running against each other. Automaton 0
// reads the socket. It returns what is wrong, and where.
type commBad struct{ rule, where, what, text string }

func commProduct(a, b *commAut, caps map[string]int) (bad []commBad, states int) {
	p := [2]*commAut{a, b}
	s0 := commState{n: [2]int{a.start, b.start}}
	succ := map[commState][]commState{}
	sure := map[commState]int{} // moves that do not depend on the network
	seen := map[string]bool{}
	report := func(rule, where, what, f string, args ...any) {
		if !seen[rule+where+what] {
			seen[rule+where+what] = true
			bad = append(bad, commBad{rule, where, what, fmt.Sprintf(f, args...)})
		}
	}
	isClosed := func(s commState, ch string) bool { return strings.Contains(s.closed, "<"+ch+">") }
	count := func(s commState, ch string) int { return strings.Count(s.buf, "<"+ch+">") }
	work := []commState{s0}
	succ[s0] = nil
	add := func(s, t commState) {
		if _, ok := succ[t]; !ok {
			succ[t] = nil
			work = append(work, t)
		}
		succ[s] = append(succ[s], t)
		sure[s]++
	}
	// reading an open socket may take forever
	may := map[[2]commState]bool{}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if len(succ) > 200000 {
			return nil, -1
		}
		for i := 0; i < 2; i++ {
			n := p[i].nodes[s.n[i]]
			if n.bad != "" {
				report("receiver", n.pos, n.label, "%s", n.bad)
				continue
			}
			for _, t := range n.tau {
				u := s
				u.n[i] = t
				add(s, u)
			}
			for _, o := range n.ops {
				u := s
				u.n[i] = o.to
				switch o.kind {
				case "read":
					if o.out == "err" || !s.shut {
						add(s, u)
						if !s.shut {
							sure[s]--
							may[[2]commState{s, u}] = true
						}
					}
				case "sockclose":
					u.shut = true
					add(s, u)
				case "close":
					if isClosed(s, o.ch) {
						report("closed twice", n.pos, o.ch, "channel %s can be closed twice by %s", o.ch, p[i].name)
						continue
					}
					l := append(strings.Fields(s.closed), "<"+o.ch+">")
					sort.Strings(l)
					u.closed = strings.Join(l, " ")
					if o.ch == "ret" && !s.shut {
						report("socket first", n.pos, o.ch, "%s stops giving frames back while the socket is open: the receiver can go on with no frame", p[i].name)
					}
					add(s, u)
				case "send":
					if isClosed(s, o.ch) {
						report("send on closed", n.pos, o.ch, "%s can send on channel %s after it is closed", p[i].name, o.ch)
						continue
					}
					if count(s, o.ch) < caps[o.ch] {
						u.buf += "<" + o.ch + ">"
						add(s, u)
					}
					if caps[o.ch] == 0 {
						for _, q := range p[1-i].nodes[s.n[1-i]].ops {
							if q.kind == "recv" && q.ch == o.ch && q.out == "val" {
								w := u
								w.n[1-i] = q.to
								add(s, w)
							}
						}
					}
				case "recv":
					if o.out == "val" && count(s, o.ch) > 0 {
						u.buf = strings.Replace(s.buf, "<"+o.ch+">", "", 1)
						add(s, u)
					}
					if o.out == "closed" && isClosed(s, o.ch) && count(s, o.ch) == 0 {
						add(s, u)
					}
				}
			}
		}
	}
	// which states can still finish
	done := func(s commState) bool { return a.nodes[s.n[0]].end && b.nodes[s.n[1]].end || b.nodes[s.n[1]].ok }
	pred := map[commState][]commState{}
	live := map[commState]bool{}
	var q []commState
	for s, ts := range succ {
		for _, t := range ts {
			if !may[[2]commState{s, t}] {
				pred[t] = append(pred[t], s)
			}
		}
		if done(s) {
			live[s] = true
			q = append(q, s)
		}
	}
	for len(q) > 0 {
		s := q[0]
		q = q[1:]
		for _, t := range pred[s] {
			if !live[t] {
				live[t] = true
				q = append(q, t)
			}
		}
	}
	for s := range succ {
		if live[s] {
			continue
		}
		stuck := sure[s] == 0
		if !stuck {
			continue
		}
		x, y := a.nodes[s.n[0]], b.nodes[s.n[1]]
		at := func(n *commNode) string {
			if n.end {
				return "has finished"
			}
			return "waits at " + n.pos + " (" + n.label + ")"
		}
		n := y
		if y.end {
			n = x
		}
		report("hang", n.pos, n.label, "%s %s while %s %s: neither can go on", p[1].name, at(y), p[0].name, at(x))
	}
	if len(bad) == 0 {
		for s := range succ {
			if !live[s] {
				y := b.nodes[s.n[1]]
				report("hang", y.pos, y.label, "%s can run forever from there without finishing", p[1].name)
				break
			}
		}
	}
	sort.Slice(bad, func(i, j int) bool { return bad[i].where+bad[i].rule < bad[j].where+bad[j].rule })
	return bad, len(succ)
}
