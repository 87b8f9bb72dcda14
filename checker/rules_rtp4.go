package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R05", "The goroutine NewSession starts is interpreted with every datagram's bytes and length symbolic; at each delivery the length, header, payload type and the origin of all 160 samples are compared with the datagram, and no store may reach the frame before one is given back. Its communication on the frame, return and error channels and on the socket is then extracted as an automaton, like that of Close and CloseAfterError, and the product with a consumer is explored exhaustively for stuck states, double closes and sends on closed channels.", checkR05)
}

type rtpSession struct {
	e    *Engine
	recv *ssa.Function
	args []string // what each argument of the receiver is: sock, C, E, R
	caps map[string]int
}

// session finds how NewSession connects the receiver.
func (c *Check) rtpReceiver() *rtpSession {
	nw := c.fn("rtp.NewSession")
	if nw == nil {
		return nil
	}
	e := c.engine()
	s := &rtpSession{e: e, caps: map[string]int{}}
	var gos [][]Val
	e.onEvent = func(e *Engine, st *State, ev *Event) []*State {
		if ev.Kind == "go" {
			gos = append(gos, ev.Args)
		}
		return []*State{st}
	}
	st := c.p.typ("rtp.Session")
	for _, r := range e.run(nw, nil) {
		if r.v.K != KTuple || len(r.v.El) != 2 || r.st.nilness(r.v.El[1]) == 2 {
			continue
		}
		l, ok := loc1(r.st, r.v.El[0])
		if !ok || len(gos) != 1 || gos[0][0].Fn == nil {
			continue
		}
		s.recv, s.args = gos[0][0].Fn, nil
		for _, a := range append(append([]Val(nil), gos[0][0].El...), gos[0][1:]...) {
			k := ""
			for _, f := range []string{"C", "E", "R", "Sock"} {
				v := r.st.load(Loc{l.O, "." + f}, structFieldType(st, f))
				if valEq(v, a) {
					k = f
				}
				if x, ok1 := loc1(r.st, v); ok1 {
					if y, ok2 := loc1(r.st, a); ok2 && x == y {
						k = f
						if f != "Sock" {
							if cp, ok := r.st.heap[x.O].cells["$cap"]; ok && cp.isConstInt() {
								s.caps[f] = int(cp.N)
							}
						}
					}
				}
			}
			s.args = append(s.args, k)
		}
	}
	if c.gaveUp(e, "NewSession") {
		return nil
	}
	if s.recv == nil {
		c.unsure("the receiver NewSession starts is not found")
		return nil
	}
	return s
}

func checkR05(c *Check) {
	c.rules = append(c.rules, "datagram", "samples", "every frame", "frame reuse", "hang", "closed twice", "send on closed", "socket first", "errors", "closed", "crash")
	s := c.rtpReceiver()
	if s == nil {
		return
	}
	c.framesDelivered(s)
	c.sessionEnds(s)
	c.closedSessions()
}

// closedSessions: closing marks the session closed, and closing a closed
// session, or none, touches nothing.
func (c *Check) closedSessions() {
	for _, fnm := range []string{"rtp.Session.Close", "rtp.Session.CloseAfterError"} {
		fn := c.fn(fnm)
		if fn == nil {
			continue
		}
		for _, what := range []string{"no session", "a closed session", "a session"} {
			e := c.engine()
			o := newObj("session", "in:session", c.p.typ("rtp.Session"))
			o.Input = true
			e.onEvent = func(e *Engine, st *State, ev *Event) []*State {
				switch ev.Kind {
				case "close", "send", "sock.Close":
					if what != "a session" {
						c.fail("closed", c.p.pos(instrPos(ev.In)), fnm+" of "+what, "%s of %s does %s", fnm, what, ev.Kind)
						return nil
					}
				}
				return []*State{st}
			}
			rs := e.run(fn, func(st *State, args []Val) []Val {
				if what == "no session" {
					args[0] = nilVal
					return args
				}
				st.setMonVal("$session", ptrTo(o))
				for _, f := range []string{"C", "E", "R", "Sock"} {
					t := structFieldType(c.p.typ("rtp.Session"), f)
					if f == "Sock" && what == "a closed session" {
						c.set(st, o, f, nilVal)
						continue
					}
					if f == "Sock" {
						t = elemOf(t)
					}
					x := newObj(f, "in:session."+f, t)
					x.Input = true
					if f == "Sock" {
						x.Tag = "socket"
					}
					c.set(st, o, f, ptrTo(x))
				}
				args[0] = ptrTo(o)
				return args
			})
			c.obligations(e, "crash", nil)
			if c.gaveUp(e, fnm) {
				return
			}
			if len(rs) == 0 {
				c.fail("closed", c.p.pos(fn.Pos()), fnm+" never returns", "%s of %s does not return", fnm, what)
			}
			for _, r := range rs {
				c.count("closings", 1)
				if what == "a session" {
					switch v := c.get(r.st, o, "Sock"); r.st.nilness(v) {
					case 0:
						c.unsure("%s: socket afterwards", fnm)
					case 2:
						c.fail("closed", c.p.pos(fn.Pos()), fnm+" leaves the session open", "after %s the session has its socket, so that closing again closes it and its channel twice", fnm)
					}
				}
			}
		}
	}
}

func (s *rtpSession) setup(c *Check, e *Engine, fn *ssa.Function, objs map[string]*Obj) func(st *State, args []Val) []Val {
	return func(st *State, args []Val) []Val {
		ps := append([]*ssa.Parameter(nil), fn.Params...)
		for i, p := range ps {
			if i >= len(s.args) || s.args[i] == "" {
				continue
			}
			k := s.args[i]
			if objs[k] == nil {
				t := p.Type()
				if k == "Sock" {
					t = elemOf(t)
				}
				objs[k] = newObj(k, "in:"+k, t)
				objs[k].Input = true
				if k == "Sock" {
					objs[k].Tag = "socket"
				}
			}
			args[i] = ptrTo(objs[k])
			st.setMonVal("$chan."+k, args[i])
		}
		return args
	}
}

func nameOf(objs map[string]*Obj) func(st *State, v Val) string {
	return func(st *State, v Val) string {
		l, ok := loc1(st, v)
		if !ok {
			return ""
		}
		for k, o := range objs {
			if o == l.O {
				return map[string]string{"C": "frames", "E": "errs", "R": "ret", "Sock": "sock"}[k]
			}
		}
		return ""
	}
}

// framesDelivered checks what is sent on the frame channel.
func (c *Check) framesDelivered(s *rtpSession) {
	for b := int64(0); b < 256; b++ {
		c.datagramRun(s, 0x80, b)
		if b != 0x80 {
			c.datagramRun(s, b, 0)
		}
	}
}

func (c *Check) datagramRun(s *rtpSession, b0, b1 int64) {
	fn := s.recv
	if len(fn.FreeVars) > 0 {
		c.unsure("the receiver is a closure: not followed")
		return
	}
	e := c.engine()
	objs := map[string]*Obj{}
	name := nameOf(objs)
	ul := c.p.fn("dsp.UlawToLinear")
	if ul == nil {
		c.unsure("no function UlawToLinear")
		return
	}
	e.intrinsics[ul.String()] = func(e *Engine, cc *callCtx) []callRes {
		x := term("decoded", types.Typ[types.Int64], cc.args[0])
		cc.st.setLo(x, -32124)
		cc.st.setHi(x, 32124)
		return ret1(cc.st, isym(x))
	}
	frameT := c.p.typ("rtp.Frame")
	dgram := make([]Sym, 172)
	for i := range dgram {
		dgram[i] = leaf(fmt.Sprintf("datagram[%d]", i), types.Typ[types.Uint8])
	}
	sends := 0
	good := b0 == 0x80 && b1&0x7f == 0
	var back *Obj
	e.onEvent = func(e *Engine, st *State, ev *Event) []*State {
		where := ""
		if ev.In != nil {
			where = c.p.pos(instrPos(ev.In))
		}
		switch {
		case strings.HasPrefix(ev.Kind, "sock.Read"):
			k := st.mon.Key
			if strings.HasSuffix(k, "!") {
				c.fail("every frame", where, "good datagram dropped", "the next datagram is read although the last, a whole mu-law frame, was not delivered")
			}
			st.setMon(strings.TrimRight(k, "!-"))
			buf := e.asSlice(ev.Args[1])
			l, ok := loc1(st, buf.El[0])
			if buf.K != KSlice || !ok || !buf.El[1].isConstInt() {
				c.unsure("the receive buffer is not followed")
				return nil
			}
			for i, x := range dgram {
				v := isym(x)
				if i < 2 {
					v = iconst([]int64{b0, b1}[i])
				}
				st.storeElem(l, iconst(buf.El[1].N+int64(i)), "", v, types.Typ[types.Uint8])
			}
		case strings.HasPrefix(ev.Kind, "sockdone.Read"):
			t := ev.Args[0]
			if t.K == KTuple && len(t.El) > 1 && st.mon.Key == "over" && st.nilness(t.El[len(t.El)-1]) != 2 {
				return nil // reading a closed socket fails
			}
			if t.K == KTuple && len(t.El) > 1 && st.nilness(t.El[len(t.El)-1]) != 2 {
				st.setMonVal("$len", t.El[0])
				if !good || t.El[0].K != KInt {
					break
				}
				var out []*State
				err := t.El[len(t.El)-1]
				is, other := st.clone(), st.clone()
				if st.assumeNil(err, false) {
					out = append(out, st)
				}
				if is.assumeNil(err, true) && is.assume(cond(token.EQL, t.El[0], iconst(172)), true) {
					is.setMon(is.mon.Key + "!") // a datagram to be delivered
					out = append(out, is)
				}
				if other.assumeNil(err, true) {
					below := other.clone()
					if other.assume(cond(token.GTR, t.El[0], iconst(172)), true) {
						out = append(out, other)
					}
					if below.assume(cond(token.LSS, t.El[0], iconst(172)), true) {
						below.setMon(below.mon.Key + "-")
						out = append(out, below)
					}
				}
				return out
			}
		case ev.Kind == "send" && name(st, ev.Args[0]) == "frames":
			sends++
			c.count("deliveries", 1)
			l, ok := loc1(st, ev.Args[1])
			if !ok {
				c.unsure("the frame delivered is not followed")
				return nil
			}
			if n, ok := st.monVal("$len"); !ok {
				c.fail("datagram", where, "delivery without datagram", "a frame is delivered without a datagram having been read")
			} else if lo, hi := st.rng(n); lo != 172 || hi != 172 {
				c.fail("datagram", where, "length", "a frame is delivered for datagrams of %d to %d bytes", lo, hi)
			}
			if b0>>6 != 2 {
				c.fail("datagram", where, "version", "a frame is delivered for a datagram of RTP version %d", b0>>6)
			}
			if b0&0x10 != 0 {
				c.fail("datagram", where, "extension", "a frame is delivered for a datagram with a header extension, whose samples are elsewhere")
			}
			if b1&0x7f != 0 {
				c.fail("datagram", where, "payload type", "a frame is delivered for payload type %d", b1&0x7f)
			}
			for i := 0; i < 160; i++ {
				v := st.loadElem(Loc{l.O, l.Path}, iconst(int64(i)), "", types.Typ[types.Int16])
				want := term("decoded", types.Typ[types.Int64], isym(dgram[12+i]))
				if v.K != KInt || v.S != want || v.N != 0 {
					c.fail("samples", where, "samples delivered", "sample %d of the frame delivered is %s, not the decoded byte %d of the datagram", i, render(v), 12+i)
					break
				}
				c.count("samples compared", 1)
			}
			st.setMonVal("$lent", ev.Args[1])
			st.setMon("lent")
		}
		return []*State{st}
	}
	e.onStore = func(e *Engine, tg target, v Val, in *ssa.Store) {
		st, l := tg.st, tg.l
		if n, ok := st.monVal("$lent"); ok && n.K == KPtr {
			if m, ok := loc1(st, n); ok && m.O == l.O {
				c.fail("frame reuse", c.p.pos(instrPos(in)), "store to a delivered frame", "the frame is written after its delivery and before a frame is given back")
			}
		}
	}
	e.onRecv = func(e *Engine, st *State, ch Val, elem types.Type, in ssa.Instruction) []recvRes {
		if name(st, ch) != "ret" {
			b := st.clone()
			return []recvRes{{st, freshVal("recv", elem), bconst(true)}, {b, zeroVal(elem), bconst(false)}}
		}
		if back == nil {
			back = newObj("frame given back", "recv", frameT)
			back.Input = true
		}
		o := back
		st.setMonVal("$lent", iconst(0))
		b := st.clone()
		st.setMon("back")
		b.setMon("over") // given back no more: the socket is closed (rule "socket first")
		return []recvRes{{st, ptrTo(o), bconst(true)}, {b, zeroVal(elem), bconst(false)}}
	}
	e.run(fn, s.setup(c, e, fn, objs))
	c.analysed(fn)
	c.count("datagram headers", 1)
	if c.gaveUp(e, fnName(fn)) {
		return
	}
	if sends == 0 && good {
		c.fail("datagram", c.p.pos(fn.Pos()), "no delivery", "no frame is delivered for a good datagram")
	}
}

// sessionEnds explores the receiver against a consumer that closes.
func (c *Check) sessionEnds(s *rtpSession) {
	objs := map[string]*Obj{}
	e := c.engine()
	recv := c.commOf(e, s.recv, s.setup(c, e, s.recv, objs), nameOf(objs))
	if recv == nil {
		return
	}
	caps := map[string]int{"frames": s.caps["C"], "errs": s.caps["E"], "ret": s.caps["R"]}
	closer := func(fnm string) *commAut {
		fn := c.fn(fnm)
		if fn == nil {
			return nil
		}
		e := c.engine()
		return c.commOf(e, fn, func(st *State, args []Val) []Val {
			o := c.input("session", "rtp.Session")
			for _, f := range []string{"C", "E", "R", "Sock"} {
				if objs[f] != nil {
					c.set(st, o, f, ptrTo(objs[f]))
				}
			}
			st.setMonVal("$session", ptrTo(o))
			args[0] = ptrTo(o)
			return args
		}, nameOf(objs))
	}
	cl, ce := closer("rtp.Session.Close"), closer("rtp.Session.CloseAfterError")
	if cl == nil || ce == nil {
		return
	}
	// the consumer: takes frames, gives them back, and closes at any time,
	// with CloseAfterError once it was told of an error
	use := newAut("the session's owner")
	idle, n := use.node("idle")
	n.label = "uses the session"
	n.at = true
	hold, n := use.node("holding a frame")
	n.at = true
	told, _ := use.node("told of the error")
	over, n := use.node("frames over")
	n.at = true
	use.start = idle
	c1, c2 := use.graft(cl), use.graft(ce)
	use.op(idle, commOp{kind: "recv", ch: "frames", out: "val", to: hold})
	use.op(idle, commOp{kind: "recv", ch: "frames", out: "closed", to: over})
	use.op(idle, commOp{kind: "recv", ch: "errs", out: "val", to: told})
	use.op(over, commOp{kind: "recv", ch: "errs", out: "val", to: told})
	use.op(hold, commOp{kind: "send", ch: "ret", to: idle})
	for _, i := range []int{idle, hold, over, told} {
		use.tau(i, c1)
	}
	use.tau(told, c2)
	bad, n2 := commProduct(recv, use, caps)
	if n2 < 0 {
		c.unsure("too many joint states")
		return
	}
	c.count("joint states", n2)
	for _, b := range bad {
		c.fail(b.rule, b.where, b.what, "%s", b.text)
	}
	c.sample("%d joint states of the receiver, its owner, Close and CloseAfterError", n2)
	// the receiver's last words
	c.lastWords(recv)
}

// lastWords: after a read error the frame channel is closed and the error
// delivered before anything else happens on them, and the goroutine ends.
func (c *Check) lastWords(a *commAut) {
	for _, n := range a.nodes {
		for _, o := range n.ops {
			if o.kind != "read" || o.out != "err" {
				continue
			}
			c.count("read errors", 1)
			// every path from here to the end
			type st struct {
				n           int
				told, close bool
			}
			seen := map[st]bool{}
			var walk func(s st)
			walk = func(s st) {
				if seen[s] {
					return
				}
				seen[s] = true
				m := a.nodes[s.n]
				if m.end {
					if !s.told {
						c.fail("errors", n.pos, "error not delivered", "the receiver can finish without delivering the socket's error")
					}
					if !s.close {
						c.fail("errors", n.pos, "frame channel left open", "the receiver can finish without closing the frame channel")
					}
					return
				}
				for _, t := range m.tau {
					walk(st{t, s.told, s.close})
				}
				for _, p := range m.ops {
					u := st{p.to, s.told || p.kind == "send" && p.ch == "errs", s.close || p.kind == "close" && p.ch == "frames"}
					if p.kind == "read" {
						c.fail("errors", m.pos, "reads on", "the receiver reads on after the socket failed")
						continue
					}
					walk(u)
				}
			}
			walk(st{n: o.to})
		}
	}
}
