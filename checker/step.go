package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// One step of a call's loop: from an arbitrary state at the loop's select,
// through the handling of one event, to the next select or the end of the
// call. The visible actions on every path are recorded in order.

type stepState struct {
	name     string
	state    int64 // 0 proceeding, 1 ringing, 2 answered
	bye      bool  // the pending request is a BYE
	answered bool  // remote is set
	response bool  // an answer to a re-INVITE waits for its ACK
	routes   int   // destinations left
	loose    bool  // a second socket is open
	noTimer  bool  // no retransmission pending
}

type peerMsg struct {
	name             string
	status           [2]int64 // response when > 0
	method           string   // request
	mismatch         string   // "", cseq, method, host, port, branch, callid, version, minor
	contact          bool
	payload          string // "", audio, video, misc
	vias             int
	cseq             string // rseq0, eq, gt, lt
	hops             int64  // 0, -1: negative, 1: symbolic positive
	arbitrary        bool   // anything the receiver can deliver
	arbitraryPayload bool
}

type stepEvent struct {
	name string
	kind string // begin, msg, cmsg, err, cerr, reqtimer, resptimer, hangup
	msg  peerMsg
	err  string // refused, refused-old, other
	max  bool   // timers: retransmissions used up
}

// act is a visible action.
type act struct {
	kind string // write, state, err, peer, close, dial, listen, go, timer, sockclose, recv, block
	in   ssa.Instruction
	st   *State // state when it happened
	msg  *Obj   // write: the message composed last
	val  Val    // send: the value
	ch   string // send, close, recv: which channel
	o    *Obj   // close, recv, dial, sockclose: the channel or socket
	args []Val  // go
	fn   *ssa.Function
	prev int
	n    int // its number
}

type stepOut struct {
	st    *State
	end   string // loop, return
	trace []act
}

type stepRun struct {
	c                         *Check
	e                         *Engine
	s                         stepState
	ev                        stepEvent
	evs                       []stepEvent
	msgs                      []*Obj // message of each event
	sdps                      []*Obj
	memo                      map[string]*Obj
	leaves                    map[string]Sym
	lefts                     []Val // addresses of the destinations left, in order
	st0                       *State
	d, invite, bye, rem, resp *Obj
	msg                       *Obj
	msgPayload                *Obj
	nodes                     []act
	index                     map[string]int
	outs                      []stepOut
	chans                     map[*Obj]string
	max                       Sym
	sdp                       *Obj
	arb                       bool
	backs                     []backEdge
	gos                       []goCall // goroutines started before the loop
	gaveUp                    bool
}

// backEdge: a waiting loop comes round to a receive it did before.
type backEdge struct {
	from, to int
	in       ssa.Instruction
}

type goCall struct {
	fn   *ssa.Function
	args []Val
	st   *State
}

func hasField(t types.Type, f string) bool {
	for _, x := range structFields(t) {
		if x.Name() == f {
			return true
		}
	}
	return false
}

var dialogFields = []string{"sockMsgs", "sockErrs", "csockMsgs", "csockErrs", "errChan", "stateChan", "peerChan", "sendHangupChan", "state", "dest", "addr", "sock", "csock", "routes", "invite", "remote", "request", "requestResends", "requestTimer", "response", "responseResends", "responseTimer", "lseq", "rseq", "b"}

// stepReady reports whether the call's state is kept the way the rules know.
func (c *Check) stepReady() bool {
	t := c.p.typ("dialog.dialogState")
	if t == nil || c.p.fn("dialog.dialogState.run") == nil {
		c.unsure("dialogState or its run method not found")
		return false
	}
	for _, f := range dialogFields {
		if !hasField(t, f) {
			c.unsure("dialogState has no field %s", f)
			return false
		}
	}
	return true
}

func (r *stepRun) push(st *State, a act) {
	if r.arb {
		return
	}
	prev := 0
	if v, ok := st.monVal("$trace"); ok {
		prev = int(v.N)
	}
	k := fmt.Sprintf("%d|%s|%p|%s|%s", prev, a.kind, a.in, a.ch, render(a.val))
	if a.msg != nil {
		k += fmt.Sprintf("|%d", a.msg.ID)
	}
	n, ok := r.index[k]
	if !ok {
		n = len(r.nodes)
		r.nodes = append(r.nodes, act{})
		r.index[k] = n
	}
	a.prev = prev
	a.n = n
	a.st = st.clone()
	r.nodes[n] = a
	st.setMonVal("$trace", iconst(int64(n)))
	key := st.mon.Key
	if i := strings.LastIndex(key, ";T"); i >= 0 {
		key = key[:i] + strings.TrimLeft(key[i+2:], "0123456789")
	}
	st.setMon(fmt.Sprintf("%s;T%d", key, n))
}

func (r *stepRun) traceOf(st *State) (t []act) {
	v, ok := st.monVal("$trace")
	if !ok {
		return nil
	}
	for n := int(v.N); n != 0; n = r.nodes[n].prev {
		t = append(t, r.nodes[n])
	}
	for i, j := 0, len(t)-1; i < j; i, j = i+1, j-1 {
		t[i], t[j] = t[j], t[i]
	}
	return
}

func (r *stepRun) phase(st *State) int64 {
	if v, ok := st.monVal("$phase"); ok {
		return v.N
	}
	return 0
}

// eventNo is the number of the event being handled.
func (r *stepRun) eventNo(st *State) int {
	if v, ok := st.monVal("$ev"); ok {
		return int(v.N)
	}
	return 0
}

func (r *stepRun) chanName(st *State, ch Val) string {
	if l, ok := loc1(st, ch); ok {
		if n := r.chans[l.O]; n != "" {
			return n
		}
		for _, f := range []string{"sockMsgs", "sockErrs", "csockMsgs", "csockErrs", "requestTimer", "responseTimer"} {
			if cur, ok := loc1(st, r.c.get(st, r.d, f)); ok && cur == l {
				return f
			}
		}
		return l.O.Name
	}
	return ""
}

// flag fixes a command line flag's value.
func (c *Check) setFlag(e *Engine, st *State, name string, v Val) {
	g := c.p.global("dialog." + name)
	if g == nil {
		return
	}
	pt := g.Type().(*types.Pointer).Elem()
	o := newObj("flag "+name, "in:flag "+name, elemOf(pt))
	o.Input = true
	st.store(Loc{o, ""}, v, elemOf(pt))
	st.store(Loc{e.globalObj(g), ""}, ptrTo(o), pt)
	st.setMonVal("$flag."+name, ptrTo(o))
}

// step interprets one event in one state.
func (c *Check) step(s stepState, ev stepEvent, arb bool) *stepRun {
	return c.stepSeq(s, []stepEvent{ev}, arb)
}

// stepSeq interprets a history of events.
func (c *Check) stepSeq(s stepState, evs []stepEvent, arb bool) *stepRun {
	e := c.dlgEngine()
	ev := evs[0]
	for i, x := range evs[1:] {
		if i < 9 {
			ev.name += ", then " + x.name
		}
	}
	r := &stepRun{c: c, e: e, s: s, ev: ev, evs: evs, memo: map[string]*Obj{}, leaves: map[string]Sym{}, nodes: make([]act, 1), index: map[string]int{}, chans: map[*Obj]string{}, arb: arb}
	e.paths = !arb
	run := c.p.fn("dialog.dialogState.run")
	c.analysed(run)
	dt := c.p.typ("dialog.dialogState")
	d := c.input("call", "dialog.dialogState")
	r.d = d
	mk := func(f string) Val {
		o := newObj("call."+f, "in:call."+f, structFieldType(dt, f))
		o.Input = true
		r.chans[o] = f
		return ptrTo(o)
	}
	chans := map[string]Val{}
	for _, f := range []string{"errChan", "stateChan", "peerChan", "sendHangupChan", "sockMsgs", "sockErrs", "csockMsgs", "csockErrs", "requestTimer", "responseTimer"} {
		chans[f] = mk(f)
	}
	r.invite = c.input("invite", "sip.Msg")
	r.bye = c.input("bye", "sip.Msg")
	r.rem = c.input("remote", "sip.Msg")
	r.resp = c.input("response", "sip.Msg")
	for i := range evs {
		n := "msg"
		if i > 0 {
			n = fmt.Sprintf("msg%d", i)
		}
		r.msgs = append(r.msgs, c.input(n, "sip.Msg"))
		r.sdps = append(r.sdps, nil)
	}
	r.msg = r.msgs[0]
	var csock *Obj
	if u := e.extType("net", "UDPConn"); u != nil {
		csock = newObj("csock", "in:csock", u)
		csock.Input, csock.Tag = true, "socket"
	}

	// ---- models for this run ----
	if fn := c.p.fn("dialog.RouteAddress"); fn != nil {
		rt := structFieldType(dt, "routes")
		e.intrinsics[fn.String()] = func(e *Engine, cc *callCtx) []callRes {
			var out []callRes
			mkr := func(st *State, n int) callRes {
				v := nilVal
				for i := n - 1; i >= 0; i-- {
					o := newObj(fmt.Sprintf("route%d", i), "route", elemOf(rt))
					x := leaf("route.Address", tString)
					st.store(Loc{o, ".Address"}, ssym(x), tString)
					st.store(Loc{o, ".Next"}, v, rt)
					v = ptrTo(o)
				}
				return callRes{st, tuple(v, nilVal)}
			}
			if r.phase(cc.st) == 0 {
				return []callRes{mkr(cc.st, 1)}
			}
			a, b := cc.st.clone(), cc.st.clone()
			a.setMon(a.mon.Key + "R2")
			b.setMon(b.mon.Key + "RF")
			cc.st.setMon(cc.st.mon.Key + "R1")
			out = append(out, mkr(cc.st, 1), mkr(a, 2))
			return append(out, callRes{b, tuple(nilVal, e.errVal(b, cc.name))})
		}
	}
	if !arb {
		for _, n := range []string{"trace", "addTimestamp"} {
			if fn := c.p.fn("dialog." + n); fn != nil {
				e.intrinsics[fn.String()] = noEffect
			}
		}
	}
	e.intrinsics[c.p.fn("sip.Msg.Append").String()] = func(e *Engine, cc *callCtx) []callRes {
		cc.st.setMonVal("$composed", cc.args[0])
		return ret1(cc.st, undef)
	}
	after := e.intrinsics["time.After"]
	e.intrinsics["time.After"] = func(e *Engine, cc *callCtx) []callRes {
		out := after(e, cc)
		for _, o := range out {
			r.push(o.st, act{kind: "timer", in: cc.in, val: o.v})
		}
		return out
	}
	e.intrinsics["errors.Is"] = errorsIs
	e.onEvent = func(e *Engine, st *State, ev *Event) []*State {
		ph := r.phase(st)
		switch ev.Kind {
		case "sock.Write", "sock.WriteTo", "sock.WriteToUDP":
			a := act{kind: "write", in: ev.In, ch: "sock", val: ev.Args[0]}
			if m, ok := st.monVal("$composed"); ok {
				if l, ok := loc1(st, m); ok {
					a.msg = l.O
				}
			}
			if ph > 0 {
				r.push(st, a)
			}
		case "sockdone.Write", "sockdone.WriteTo", "sockdone.WriteToUDP":
			fail := false
			if t := ev.Args[0]; t.K == KTuple && len(t.El) == 2 {
				fail = st.nilness(t.El[1]) == 2
			}
			if fail {
				if ph == 0 {
					return nil
				}
				r.push(st, act{kind: "writefail", in: ev.In})
			}
		case "sock.Close":
			if ph > 0 {
				r.push(st, act{kind: "sockclose", in: ev.In, val: ev.Args[0], o: objOf(st, ev.Args[0])})
			}
		case "send":
			n := r.chanName(st, ev.Args[0])
			k := map[string]string{"errChan": "err", "stateChan": "state", "peerChan": "peer"}[n]
			if k == "" {
				k = "send"
			}
			if ph == 0 {
				return nil
			}
			r.push(st, act{kind: k, in: ev.In, ch: n, val: ev.Args[1]})
		case "close":
			if ph > 0 {
				r.push(st, act{kind: "close", in: ev.In, ch: r.chanName(st, ev.Args[0]), o: objOf(st, ev.Args[0])})
			}
		case "open":
			if ph > 0 {
				r.push(st, act{kind: "dial", in: ev.In, val: ev.Args[len(ev.Args)-1], ch: ev.Name, o: objOf(st, ev.Args[0])})
			}
		case "openfail":
			if ph == 0 {
				return nil
			}
			r.push(st, act{kind: "openfail", in: ev.In, ch: ev.Name})
		case "go":
			if ph > 0 {
				a := act{kind: "go", in: ev.In, fn: ev.Args[0].Fn, args: append(append([]Val(nil), ev.Args[0].El...), ev.Args[1:]...)}
				if a.fn != nil {
					a.ch = a.fn.Name()
				}
				r.push(st, a)
			} else if ev.Args[0].Fn != nil {
				r.gos = append(r.gos, goCall{ev.Args[0].Fn, append(append([]Val(nil), ev.Args[0].El...), ev.Args[1:]...), st.clone()})
			}
		case "block":
			if ph > 0 {
				r.push(st, act{kind: "block", in: ev.In})
				r.outs = append(r.outs, stepOut{st.clone(), "block", r.traceOf(st)})
			}
		}
		return []*State{st}
	}
	started := false
	loopBlk := c.loopSelect()
	if loopBlk == nil {
		c.unsure("the call's select is not found")
		r.gaveUp = true
		return r
	}
	hasSel := func(b *ssa.BasicBlock) bool { return b == loopBlk }
	e.onBlock = func(e *Engine, st *State, b *ssa.BasicBlock) {
		if !hasSel(b) {
			return
		}
		switch r.phase(st) {
		case 0:
			if started {
				st.setMonVal("$phase", iconst(9))
				return
			}
			if c.onStart != nil {
				c.onStart(r, st)
			}
			started = true
			st.setMonVal("$phase", iconst(1))
			st.setMonVal("$trace", iconst(0))
			st.setMon("")
			r.enter(st, chans, csock)
			r.st0 = st.clone()
		case 2:
			i := r.eventNo(st)
			if i+1 < len(r.evs) {
				i++
				st.setMonVal("$ev", iconst(int64(i)))
				if k := r.evs[i].kind; k == "msg" || k == "cmsg" {
					if !r.peer(st, i) {
						c.count("histories cut", 1)
						st.setMonVal("$phase", iconst(9))
						return
					}
				}
				r.push(st, act{kind: "event", ch: r.evs[i].name})
				st.setMonVal("$phase", iconst(1))
				return
			}
			r.outs = append(r.outs, stepOut{st.clone(), "loop", r.traceOf(st)})
			st.setMonVal("$phase", iconst(9))
		}
	}
	e.onRecv = func(e *Engine, st *State, ch Val, elem types.Type, in ssa.Instruction) []recvRes {
		n := r.chanName(st, ch)
		if sel, ok := in.(*ssa.Select); ok && sel.Blocking && sel.Block() == loopBlk {
			switch r.phase(st) {
			case 1:
				ev := r.evs[r.eventNo(st)]
				want := map[string]string{"msg": "sockMsgs", "cmsg": "csockMsgs", "err": "sockErrs", "cerr": "csockErrs", "reqtimer": "requestTimer", "resptimer": "responseTimer", "hangup": "sendHangupChan"}[ev.kind]
				if n != want {
					return nil
				}
				st.setMonVal("$phase", iconst(2))
				switch ev.kind {
				case "msg", "cmsg":
					return []recvRes{{st, ptrTo(r.msgs[r.eventNo(st)]), bconst(true)}}
				case "err", "cerr":
					return []recvRes{{st, r.c.netError(r.e, st, ev.err), bconst(true)}}
				case "hangup":
					return []recvRes{{st, bconst(true), bconst(true)}}
				}
				return []recvRes{{st, freshVal("tick", elem), bconst(true)}}
			}
			return nil
		}
		c := st.clone()
		if r.phase(st) > 0 {
			// waiting loops are followed for one round
			k, n2 := fmt.Sprintf("$recv%p%s", in, n), int64(0)
			if v, ok := st.monVal(k); ok {
				n2 = v.N
			}
			most := int64(1)
			if fi := e.info[in.Parent()]; fi != nil && len(fi.unroll) > 0 { // counted rounds
				most = 4
			}
			if n2 >= most {
				// back to the same receive
				t := r.traceOf(st)
				for _, a := range t {
					if a.kind == "recv" && a.in == in && a.ch == n {
						r.backs = append(r.backs, backEdge{t[len(t)-1].n, a.n, in})
					}
				}
				return nil
			}
			st.setMonVal(k, iconst(n2+1))
			c = st.clone()
			r.push(st, act{kind: "recv", in: in, ch: n, o: objOf(st, ch)})
			r.push(c, act{kind: "recv", in: in, ch: n, val: strc("closed"), o: objOf(st, ch)})
		}
		return []recvRes{{st, freshVal("recv", elem), bconst(true)}, {c, zeroVal(elem), bconst(false)}}
	}
	rs := e.run(run, func(st *State, a []Val) []Val {
		for _, f := range structFields(d.Type) {
			c.set(st, d, f.Name(), zeroVal(f.Type()))
		}
		for _, f := range []string{"errChan", "stateChan", "peerChan", "sendHangupChan"} {
			c.set(st, d, f, chans[f])
		}
		for _, f := range []string{"tracing", "timestampTagging"} {
			if !arb {
				c.setFlag(e, st, f, bconst(false))
			}
		}
		c.setFlag(e, st, "looseSignalling", bconst(s.loose))
		r.max = leaf("maxResends", tInt)
		c.setFlag(e, st, "maxResends", isym(r.max))
		r.request(st, r.invite, "INVITE", "invite")
		c.set(st, d, "invite", ptrTo(r.invite))
		for _, v := range chans {
			st.setMonVal("$"+v.L.O.Name, v)
		}
		for _, o := range append([]*Obj{r.invite, r.bye, r.rem, r.resp, csock}, r.msgs...) {
			st.setMonVal("$obj."+o.Name, ptrTo(o))
		}
		if ev.kind == "begin" {
			started = true
			st.setMonVal("$phase", iconst(2))
			st.setMonVal("$trace", iconst(0))
			r.st0 = st.clone()
		}
		return []Val{ptrTo(d)}
	})
	for _, x := range rs {
		if r.phase(x.st) == 2 {
			r.outs = append(r.outs, stepOut{x.st, "return", r.traceOf(x.st)})
		}
	}
	if c.gaveUp(e, s.name+": "+ev.name) {
		r.gaveUp = true
	} else if !started {
		c.unsure("the call's loop is not reached")
	}
	// several visits of the last block leave older, smaller states behind
	keep := map[string]stepOut{}
	var order []string
	for _, o := range r.outs {
		k := o.end + o.st.mon.Key
		if _, ok := keep[k]; !ok {
			order = append(order, k)
		}
		keep[k] = o
	}
	sort.Strings(order)
	r.outs = nil
	for _, k := range order {
		r.outs = append(r.outs, keep[k])
	}
	c.count("steps", 1)
	c.count("paths", len(r.outs))
	return r
}

// objOf is the one object a pointer or channel refers to.
func objOf(st *State, v Val) *Obj {
	if l, ok := loc1(st, v); ok {
		return l.O
	}
	return nil
}

// loopSelect is the select at the head of the call's loop: the blocking one
// that takes part in hang-up requests.
func (c *Check) loopSelect() *ssa.BasicBlock {
	var best *ssa.BasicBlock
	n := 0
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Select)
				if !ok || !s.Blocking {
					continue
				}
				for _, x := range s.States {
					u, ok := x.Chan.(*ssa.UnOp)
					if !ok {
						continue
					}
					fa, ok := u.X.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
					if fs := structFields(pt); fa.Field < len(fs) && fs[fa.Field].Name() == "sendHangupChan" && len(s.States) > n {
						best, n = b, len(s.States)
					}
				}
			}
		}
	}
	return best
}

// errorsIs follows the wrapping of network errors.
func errorsIs(e *Engine, cc *callCtx) []callRes {
	if len(cc.args) == 2 {
		if v, ok := unwrapIs(cc.st, cc.args[0], cc.args[1]); ok {
			return ret1(cc.st, bconst(v))
		}
	}
	return ret1(cc.st, bsym(freshSym("errors.Is", tBool)))
}

func unwrapIs(st *State, v, target Val) (bool, bool) {
	for i := 0; i < 8; i++ {
		if v.K == KNil || st.nilness(v) == 1 {
			return false, true
		}
		if v.K != KIface || v.S != 0 || len(v.El) != 1 || target.K != KIface || target.S != 0 || len(target.El) != 1 {
			return false, false
		}
		if types.Identical(v.T, target.T) && valEq(v.El[0], target.El[0]) {
			return true, true
		}
		if v.El[0].isConstInt() {
			return false, true
		}
		l, ok := loc1(st, v.El[0])
		if !ok || !hasField(l.O.Type, "Err") {
			return false, ok
		}
		v = st.load(Loc{l.O, l.Path + ".Err"}, structFieldType(l.O.Type, "Err"))
	}
	return false, false
}

// netError is an error as the network library returns it.
func (c *Check) netError(e *Engine, st *State, kind string) Val {
	op, sc := e.extType("net", "OpError"), e.extType("os", "SyscallError")
	en := e.extType("syscall", "Errno")
	if op == nil || sc == nil || en == nil {
		return e.errVal(st, kind)
	}
	errno := int64(111) // ECONNREFUSED
	if p := en.(*types.Named).Obj().Pkg().Scope().Lookup("ECONNREFUSED"); p != nil {
		if k, ok := p.(*types.Const); ok {
			if n, ok := constant.Int64Val(k.Val()); ok {
				errno = n
			}
		}
	}
	if strings.HasPrefix(kind, "other") {
		errno += 2
	}
	inner := ifaceOf(en, iconst(errno))
	if !strings.HasSuffix(kind, "bare") {
		o := newObj("syscall error", "in:syscall error"+kind, sc)
		st.store(Loc{o, ".Syscall"}, strc("read"), tString)
		st.store(Loc{o, ".Err"}, inner, structFieldType(sc, "Err"))
		inner = ifaceOf(types.NewPointer(sc), ptrTo(o))
	}
	o := newObj("network error", "in:network error"+kind, op)
	st.store(Loc{o, ".Err"}, inner, structFieldType(op, "Err"))
	return ifaceOf(types.NewPointer(op), ptrTo(o))
}

// request fills in a request of this call.
func (r *stepRun) request(st *State, m *Obj, method, name string) {
	c := r.c
	c.set(st, m, "Status", iconst(0))
	c.set(st, m, "Method", strc(method))
	c.set(st, m, "CSeqMethod", strc(method))
	c.set(st, m, "VersionMajor", iconst(2))
	c.set(st, m, "VersionMinor", iconst(0))
	if r.invite != nil && m != r.invite {
		c.set(st, m, "CallID", c.get(st, r.invite, "CallID"))
	} else {
		c.set(st, m, "CallID", nonEmpty(st, name+".CallID"))
	}
	x := leaf(name+".CSeq", tInt)
	st.setLo(x, 1)
	st.setHi(x, 1<<31-2)
	c.set(st, m, "CSeq", isym(x))
	h := leaf(name+".MaxForwards", tInt)
	st.setLo(h, 60)
	st.setHi(h, 70)
	c.set(st, m, "MaxForwards", isym(h))
	u := c.input(name+".Request", "sip.URI")
	c.set(st, m, "Request", ptrTo(u))
	v, os := c.list(st, name+".Via", "sip.Via", 1)
	c.set(st, m, "Via", v)
	c.set(st, os[0], "Host", nonEmpty(st, name+".Via.Host"))
	p := leaf(name+".Via.Port", u16t)
	st.setLo(p, 1)
	c.set(st, os[0], "Port", isym(p))
	pl, _ := c.params(st, name+".Via.Param", strc("branch"), nonEmpty(st, name+".branch"))
	c.set(st, os[0], "Param", pl)
	for _, f := range []string{"From", "To", "Contact"} {
		a, ao := c.list(st, name+"."+f, "sip.Addr", 1)
		c.set(st, m, f, a)
		if f == "From" {
			pl, _ := c.params(st, name+".From.Param", strc("tag"), nonEmpty(st, name+".tag"))
			c.set(st, ao[0], "Param", pl)
		}
	}
	c.set(st, m, "Route", nilVal)
	c.set(st, m, "RecordRoute", nilVal)
	c.set(st, m, "Payload", nilVal)
}

// enter sets up the state at the loop's select.
func (r *stepRun) enter(st *State, chans map[string]Val, csock *Obj) {
	c, d, s := r.c, r.d, r.s
	r.request(st, r.invite, "INVITE", "invite")
	r.request(st, r.bye, "BYE", "bye")
	// the peer's message that established the dialog, and
	// our answer to a re-INVITE
	rm, rs := r.rem, r.resp
	if r.arb {
		v := psym(leaf("remote.Contact", msgField(rm, "Contact")))
		st.assumeNil(v, false)
		c.set(st, rm, "Contact", v)
		v = psym(leaf("response.Via", msgField(rs, "Via")))
		st.assumeNil(v, false)
		c.set(st, rs, "Via", v)
	} else {
		for _, f := range []string{"From", "To", "Contact"} {
			a, _ := c.list(st, "remote."+f, "sip.Addr", 1)
			c.set(st, rm, f, a)
		}
		rr, _ := c.list(st, "remote.RecordRoute", "sip.Addr", 1)
		c.set(st, rm, "RecordRoute", rr)
		vv, _ := c.list(st, "response.Via", "sip.Via", 1)
		c.set(st, rs, "Via", vv)
		for _, f := range []string{"From", "To"} {
			a, _ := c.list(st, "response."+f, "sip.Addr", 1)
			c.set(st, rs, f, a)
		}
	}
	c.set(st, rm, "Status", iconst(200))
	c.set(st, rs, "Status", iconst(200))
	c.set(st, rs, "CSeqMethod", strc("INVITE"))
	c.set(st, rs, "MaxForwards", iconst(0))

	set := func(f string, v Val) { c.set(st, d, f, v) }
	for _, f := range []string{"errChan", "stateChan", "peerChan", "sendHangupChan", "sockMsgs", "sockErrs"} {
		set(f, chans[f])
	}
	set("csockMsgs", nilVal)
	set("csockErrs", nilVal)
	set("csock", nilVal)
	if s.loose {
		set("csock", ptrTo(csock))
		set("csockMsgs", chans["csockMsgs"])
		set("csockErrs", chans["csockErrs"])
	}
	set("state", iconst(s.state))
	set("invite", ptrTo(r.invite))
	set("request", ptrTo(r.invite))
	last := c.get(st, r.invite, "CSeq")
	if s.bye {
		set("request", ptrTo(r.bye))
		last = c.get(st, r.bye, "CSeq")
	}
	set("lseq", last)
	set("remote", nilVal)
	if s.answered {
		set("remote", ptrTo(rm))
	}
	count := func(f string) {
		x := leaf("call."+f, tInt)
		st.setLo(x, 0)
		set(f, isym(x))
		if r.ev.max {
			st.setLo(r.max, 0)
			st.assume(cond(token.LSS, isym(x), isym(r.max)), false)
		} else {
			st.assume(cond(token.LSS, isym(x), isym(r.max)), true)
		}
	}
	count("requestResends")
	set("requestTimer", chans["requestTimer"])
	if s.noTimer {
		set("requestTimer", nilVal)
	}
	set("response", nilVal)
	set("responseTimer", nilVal)
	set("responseResends", iconst(0))
	if s.response {
		set("response", ptrTo(rs))
		set("responseTimer", chans["responseTimer"])
		count("responseResends")
	}
	rt := structFieldType(d.Type, "routes")
	v := nilVal
	for i := 0; i < s.routes; i++ {
		o := c.input(fmt.Sprintf("left%d", i), "dialog.AddressRoute")
		x := ssym(leaf(o.Name+".Address", tString))
		r.lefts = append([]Val{x}, r.lefts...)
		st.store(Loc{o, ".Address"}, x, tString)
		st.store(Loc{o, ".Next"}, v, rt)
		v = ptrTo(o)
	}
	set("routes", v)
	rq := leaf("call.rseq", tInt)
	st.setLo(rq, 1)
	st.setHi(rq, 1<<31-2)
	set("rseq", isym(rq))
	set("dest", ssym(leaf("call.dest", tString)))
	set("addr", ssym(leaf("call.addr", tString)))
	// fields the rules do not know keep any value
	for _, f := range structFields(d.Type) {
		known := false
		for _, k := range dialogFields {
			if k == f.Name() {
				known = true
			}
		}
		if !known {
			if isInt(f.Type()) {
				x := leaf("call."+f.Name(), f.Type())
				set(f.Name(), isym(x))
			} else {
				set(f.Name(), freshVal("call."+f.Name(), f.Type()))
			}
		}
	}
	if r.ev.kind == "msg" || r.ev.kind == "cmsg" {
		r.peer(st, 0)
	}
}

// payload gives a message a payload of unknown contents.
func (c *Check) payload(st *State, m *Obj, nm, kind string) bool {
	t := map[string]string{"misc": "sip.MiscPayload", "sdp": "sdp.SDP"}[kind]
	if t == "" {
		return false
	}
	o := c.input(nm+".body", t)
	c.set(st, m, "Payload", ifaceOf(types.NewPointer(o.Type), ptrTo(o)))
	return true
}

// peer makes the message that arrives.
func (r *stepRun) peer(st *State, n int) bool {
	c, m, p := r.c, r.msgs[n], r.evs[n].msg
	nm := m.Name
	c.memo, leafMemo = r.memo, r.leaves
	defer func() { c.memo, leafMemo = nil, nil }()
	if p.arbitrary {
		// what the receiver guarantees: a Via, and a payload of a known type
		v := psym(leaf(nm+".Via", msgField(m, "Via")))
		st.assumeNil(v, false)
		c.set(st, m, "Via", v)
		if !c.payload(st, m, nm, p.payload) {
			c.set(st, m, "Payload", nilVal)
		}
		return true
	}
	pend := r.invite
	if r.s.bye {
		pend = r.bye
	}
	if l, ok := loc1(st, c.get(st, r.d, "request")); ok && n > 0 {
		pend = l.O
	}
	c.set(st, m, "VersionMajor", iconst(2))
	c.set(st, m, "VersionMinor", iconst(0))
	switch p.mismatch {
	case "version":
		c.set(st, m, "VersionMajor", iconst(3))
	case "minor":
		c.set(st, m, "VersionMinor", iconst(1))
	}
	c.set(st, m, "CallID", c.get(st, pend, "CallID"))
	if strings.HasPrefix(p.mismatch, "callid") {
		c.set(st, m, "CallID", strc("foreign"))
		x := c.get(st, pend, "CallID")
		st.strExclude(x.S, "foreign")
		switch p.mismatch {
		case "callid+version":
			c.set(st, m, "VersionMajor", iconst(1))
		}
	}
	for _, f := range []string{"From", "To", "Contact"} {
		a, _ := c.list(st, nm+"."+f, "sip.Addr", 1)
		if f == "Contact" && !p.contact {
			a = nilVal
		}
		c.set(st, m, f, a)
	}
	nv := p.vias
	if nv == 0 {
		nv = 1
	}
	v, os := c.list(st, nm+".Via", "sip.Via", nv)
	c.set(st, m, "Via", v)
	rr, rro := c.list(st, nm+".RecordRoute", "sip.Addr", 1)
	if u, ok := loc1(st, c.get(st, rro[0], "Uri")); ok {
		// a loose router
		p := c.input(nm+".lr", "sip.URIParam")
		c.set(st, p, "Name", strc("lr"))
		c.set(st, p, "Next", nilVal)
		c.set(st, u.O, "Param", ptrTo(p))
	}
	c.set(st, m, "RecordRoute", rr)
	c.set(st, m, "Route", nilVal)
	for i, o := range os {
		c.set(st, o, "Host", nonEmpty(st, fmt.Sprintf(nm+".via%d.Host", i)))
		x := leaf(fmt.Sprintf(nm+".via%d.Port", i), u16t)
		c.set(st, o, "Port", isym(x))
		pl, _ := c.params(st, fmt.Sprintf(nm+".via%d.Param", i), strc("branch"), nonEmpty(st, fmt.Sprintf(nm+".via%d.branch", i)))
		c.set(st, o, "Param", pl)
	}
	switch p.payload {
	case "":
		c.set(st, m, "Payload", nilVal)
	case "misc":
		o := c.input(nm+".body", "sip.MiscPayload")
		c.set(st, m, "Payload", ifaceOf(types.NewPointer(o.Type), ptrTo(o)))
	default:
		o := c.input(nm+".offer", "sdp.SDP")
		r.sdps[n] = o
		if n == 0 {
			r.sdp = o
		}
		c.set(st, o, "Addr", nonEmpty(st, nm+".offer.Addr"))
		for _, f := range []string{"Audio", "Video"} {
			v := nilVal
			if strings.Contains(p.payload, strings.ToLower(f)) {
				md := c.input(nm+".offer."+f, "sdp.Media")
				c.set(st, md, "Port", isym(leaf(nm+".offer."+f+".Port", structFieldType(md.Type, "Port"))))
				v = ptrTo(md)
			}
			c.set(st, o, f, v)
		}
		c.set(st, m, "Payload", ifaceOf(types.NewPointer(o.Type), ptrTo(o)))
	}
	if p.status[0] > 0 {
		if p.status[0] == p.status[1] {
			c.set(st, m, "Status", iconst(p.status[0]))
		} else {
			x := leaf(nm+".Status", tInt)
			st.setLo(x, p.status[0])
			st.setHi(x, p.status[1])
			c.set(st, m, "Status", isym(x))
		}
		c.set(st, m, "Method", strc(""))
		c.set(st, m, "Request", nilVal)
		c.set(st, m, "CSeq", c.get(st, pend, "CSeq"))
		c.set(st, m, "CSeqMethod", c.get(st, pend, "Method"))
		// the bottom Via is ours
		pv, ok := loc1(st, c.get(st, pend, "Via"))
		if !ok {
			return false
		}
		bot := os[len(os)-1]
		for _, f := range []string{"Host", "Port"} {
			c.set(st, bot, f, c.get(st, pv.O, f))
		}
		po, ok := loc1(st, c.get(st, pv.O, "Param"))
		if !ok {
			return false
		}
		bo, _ := loc1(st, c.get(st, bot, "Param"))
		c.set(st, bo.O, "Value", c.get(st, po.O, "Value"))
		switch p.mismatch {
		case "cseq":
			c.set(st, m, "CSeq", st.addv(c.get(st, pend, "CSeq"), iconst(1)))
		case "method":
			c.set(st, m, "CSeqMethod", strc("OPTIONS"))
		case "host":
			c.set(st, bot, "Host", strc("other.example"))
			st.strExclude(c.get(st, pv.O, "Host").S, "other.example")
		case "port":
			c.set(st, bot, "Port", iconst(0))
		case "branch":
			c.set(st, bo.O, "Value", strc("z9hG4bK-other"))
			st.strExclude(c.get(st, po.O, "Value").S, "z9hG4bK-other")
		case "nobranch":
			c.set(st, bot, "Param", nilVal)
		case "top":
			// only the top one looks like ours
			for _, f := range []string{"Host", "Port", "Param"} {
				c.set(st, os[0], f, c.get(st, bot, f))
			}
			pl, _ := c.params(st, nm+".bottom.Param", strc("branch"), strc("z9hG4bK-other"))
			c.set(st, bot, "Param", pl)
			st.strExclude(c.get(st, po.O, "Value").S, "z9hG4bK-other")
		}
		return true
	}
	c.set(st, m, "Status", iconst(0))
	u := c.input(nm+".Request", "sip.URI")
	c.set(st, m, "Request", ptrTo(u))
	if p.method == "*" {
		x := leaf(nm+".Method", tString)
		for _, n := range []string{"", "BYE", "OPTIONS", "INVITE", "ACK"} {
			st.strExclude(x, n)
		}
		st.setLo(st.lenSym(x), 1)
		c.set(st, m, "Method", ssym(x))
	} else {
		c.set(st, m, "Method", strc(p.method))
	}
	c.set(st, m, "CSeqMethod", c.get(st, m, "Method"))
	x := leaf(nm+".CSeq", tInt)
	st.setLo(x, 0)
	st.setHi(x, 1<<31-2)
	q := c.get(st, r.d, "rseq")
	switch p.cseq {
	case "any":
		// in order whatever the last one was
		st.setLo(x, 1<<31-2)
		c.set(st, m, "CSeq", isym(x))
	case "rseq0":
		c.set(st, r.d, "rseq", iconst(0))
		c.set(st, m, "CSeq", isym(x))
	case "gt":
		c.set(st, m, "CSeq", isym(x))
		st.assume(cond(token.LSS, q, isym(x)), true)
	case "between":
		// older than the previous request, not older than those before
		c.set(st, m, "CSeq", isym(x))
		st.assume(cond(token.LSS, isym(x), c.get(st, r.msgs[n-1], "CSeq")), true)
		if old := c.get(r.st0, r.d, "rseq"); !old.isConstInt() {
			st.assume(cond(token.LSS, isym(x), old), false)
		}
	case "lt":
		c.set(st, m, "CSeq", isym(x))
		st.assume(cond(token.LSS, isym(x), q), true)
	default:
		c.set(st, m, "CSeq", q)
	}
	switch {
	case p.hops == 0:
		c.set(st, m, "MaxForwards", iconst(0))
	default:
		h := leaf(nm+".MaxForwards", tInt)
		if p.hops < 0 {
			st.setHi(h, -1)
		} else {
			st.setLo(h, 1)
		}
		c.set(st, m, "MaxForwards", isym(h))
	}
	return true
}

func (o stepOut) String() string {
	var sb strings.Builder
	for _, a := range o.trace {
		sb.WriteString(" " + a.String())
	}
	return sb.String() + " -> " + o.end
}

func (a act) String() string {
	switch a.kind {
	case "write":
		return "write(" + a.what() + ")"
	case "state", "peer", "err":
		return a.kind + "(" + render(a.val) + ")"
	case "close", "recv", "send", "go", "dial":
		return a.kind + "(" + a.ch + ")"
	}
	return a.kind
}

// what describes the message written: a method, or a status.
func (a act) what() string {
	if a.msg == nil {
		return "?"
	}
	st := a.st.load(Loc{a.msg, ".Status"}, tInt)
	if st.isConstInt() && st.N == 0 {
		m := a.st.load(Loc{a.msg, ".Method"}, tString)
		if m.isConstStr() {
			return m.Str
		}
		return "?"
	}
	if st.isConstInt() {
		return fmt.Sprint(st.N)
	}
	return "?"
}
