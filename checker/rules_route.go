package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D09", "NewResponse, NewCancel, NewAck and NewBye are interpreted on messages whose fields are independent unknowns and whose lists have zero to three elements; every field of the result is compared, following pointers, with the required source field.", checkD09)
	register("D11", "RouteMessage is interpreted for responses and requests with every combination of own Via or contact, list length, received, rport and lr parameters; returned host and port and the message afterwards are compared with the routing rules. RouteAddress and Transport.Send are checked for the default port.", checkD11)
}

// dlgEngine is an engine with the contracts of the small helpers installed.
func (c *Check) dlgEngine() *Engine {
	e := c.engine()
	e.concrete, e.paths = true, true
	c.getContract(e)
	c.copyContract(e)
	c.genContract(e)
	if fn := c.p.fn("sip.Phrase"); fn != nil {
		e.intrinsics[fn.String()] = func(e *Engine, cc *callCtx) []callRes {
			x := term("phrase", tString, cc.args[0])
			knownLeaf[x] = true
			return ret1(cc.st, ssym(x))
		}
	}
	if fn := c.p.fn("rtp.Listen"); fn != nil { // see R06
		e.intrinsics[fn.String()] = func(e *Engine, cc *callCtx) []callRes {
			c2 := *cc
			c2.args = []Val{strc("udp"), cc.args[0]}
			return e.intrinsics["net.ListenPacket"](e, &c2)
		}
	}
	for _, n := range []string{"Msg", "Addr", "URI", "Via"} {
		if fn := c.p.fn("sip." + n + ".String"); fn != nil {
			e.intrinsics[fn.String()] = func(e *Engine, cc *callCtx) []callRes { return ret1(cc.st, freshVal("text", tString)) }
		}
		if fn := c.p.fn("sip." + n + ".Append"); fn != nil && n == "Msg" {
			e.intrinsics[fn.String()] = noEffect
		}
	}
	return e
}

// message makes a caller-supplied message with lists of the given lengths
// (-1: left unknown).
type msgLists struct{ via, from, to, contact, route, rr int }

func (c *Check) message(st *State, name string, l msgLists) *Obj {
	m := c.input(name, "sip.Msg")
	for _, x := range []struct {
		f, typ string
		n      int
	}{{"Via", "sip.Via", l.via}, {"From", "sip.Addr", l.from}, {"To", "sip.Addr", l.to}, {"Contact", "sip.Addr", l.contact}, {"Route", "sip.Addr", l.route}, {"RecordRoute", "sip.Addr", l.rr}} {
		if x.n >= 0 {
			v, _ := c.list(st, name+"."+x.f, x.typ, x.n)
			c.set(st, m, x.f, v)
		}
	}
	u := c.input(name+".Request", "sip.URI")
	c.set(st, m, "Request", ptrTo(u))
	return m
}

func msgField(o *Obj, f string) types.Type { return structFieldType(o.Type, f) }

func checkD09(c *Check) {
	c.rules = append(c.rules, "response", "cancel", "ack", "bye", "crash")
	type call struct {
		fn    string
		rule  string
		setup func(st *State, rr int) []Val
		want  func(st *State, st0 *State, args []Val, res *Obj, check func(f string, src *Obj, sf string), eq func(f string, want Val), rev func(f string, src *Obj, sf string))
	}
	full := func(rr int) msgLists { return msgLists{via: 2, from: 1, to: 1, contact: 1, route: rr, rr: rr} }
	obj := func(v Val) *Obj { return v.L.O }
	calls := []call{
		{"dialog.NewResponse", "response", func(st *State, rr int) []Val {
			x := leaf("status", tInt)
			st.setLo(x, 100)
			st.setHi(x, 699)
			return []Val{ptrTo(c.message(st, "msg", full(rr))), isym(x)}
		}, func(st, st0 *State, a []Val, res *Obj, check func(string, *Obj, string), eq func(string, Val), rev func(string, *Obj, string)) {
			m := obj(a[0])
			for _, f := range []string{"Via", "From", "To", "CallID", "CSeq", "CSeqMethod", "RecordRoute"} {
				check(f, m, f)
			}
			eq("Status", a[1])
			if x := lookupTerm("phrase", tString, a[1]); x != 0 {
				eq("Phrase", ssym(x))
			} else {
				c.unsure("NewResponse does not look the phrase up through sip.Phrase")
			}
		}},
		{"dialog.NewCancel", "cancel", func(st *State, rr int) []Val {
			m := c.message(st, "invite", full(rr))
			c.set(st, m, "Status", iconst(0))
			c.set(st, m, "Method", strc("INVITE"))
			return []Val{ptrTo(m)}
		}, func(st, st0 *State, a []Val, res *Obj, check func(string, *Obj, string), eq func(string, Val), rev func(string, *Obj, string)) {
			m := obj(a[0])
			for _, f := range []string{"Request", "Via", "From", "To", "CallID", "CSeq", "Route"} {
				check(f, m, f)
			}
			eq("Status", iconst(0))
			eq("Method", strc("CANCEL"))
			eq("CSeqMethod", strc("CANCEL"))
		}},
		{"dialog.NewAck", "ack", func(st *State, rr int) []Val {
			m := c.message(st, "response", full(rr))
			c.set(st, m, "Status", iconst(200))
			inv := c.message(st, "invite", full(1))
			c.set(st, inv, "Status", iconst(0))
			return []Val{ptrTo(m), ptrTo(inv)}
		}, func(st, st0 *State, a []Val, res *Obj, check func(string, *Obj, string), eq func(string, Val), rev func(string, *Obj, string)) {
			m, inv := obj(a[0]), obj(a[1])
			for _, f := range []string{"From", "To", "CallID", "CSeq"} {
				check(f, m, f)
			}
			check("Authorization", inv, "Authorization")
			check("ProxyAuthorization", inv, "ProxyAuthorization")
			eq("Status", iconst(0))
			eq("Method", strc("ACK"))
			eq("CSeqMethod", strc("ACK"))
			rev("Route", m, "RecordRoute")
			// topmost Via alone
			pos := c.p.pos(c.p.fn("dialog.NewAck").Pos())
			v := c.get(st, res, "Via")
			l, ok := loc1(st, v)
			switch {
			case st.nilness(v) == 1:
				c.fail("ack", pos, "dialog.NewAck Via", "the ACK has no Via")
			case !ok:
				c.unsure("Via of the ACK not resolved")
			default:
				top, _ := loc1(st0, c.get(st0, m, "Via"))
				for _, f := range structFields(l.O.Type) {
					gv := st.load(Loc{l.O, l.Path + "." + f.Name()}, f.Type())
					wv := st0.load(Loc{top.O, "." + f.Name()}, f.Type())
					if f.Name() == "Next" {
						wv = nilVal
					}
					c.wantSame("ack", pos, "dialog.NewAck Via."+f.Name(), st, st0, gv, wv, f.Type())
				}
			}
		}},
	}
	bye := func(nilseq bool) call {
		return call{"dialog.NewBye", "bye", func(st *State, rr int) []Val {
			inv := c.message(st, "invite", full(1))
			c.set(st, inv, "Status", iconst(0))
			m := c.message(st, "remote", full(rr))
			seq := nilVal
			if !nilseq {
				o := newObj("lseq", "in:lseq", tInt)
				o.Input = true
				seq = ptrTo(o)
				st.store(Loc{o, ""}, isym(leaf("lseq", tInt)), tInt)
			}
			return []Val{ptrTo(inv), ptrTo(m), seq}
		}, func(st, st0 *State, a []Val, res *Obj, check func(string, *Obj, string), eq func(string, Val), rev func(string, *Obj, string)) {
			inv, m := obj(a[0]), obj(a[1])
			check("From", inv, "From")
			check("CallID", inv, "CallID")
			check("To", m, "To")
			eq("Status", iconst(0))
			eq("Method", strc("BYE"))
			eq("CSeqMethod", strc("BYE"))
			rev("Route", m, "RecordRoute")
			last := c.get(st0, inv, "CSeq")
			if !nilseq {
				last = st0.load(Loc{a[2].L.O, ""}, tInt)
			}
			eq("CSeq", st.addv(last, iconst(1)))
			pos := c.p.pos(c.p.fn("dialog.NewBye").Pos())
			ct, _ := loc1(st0, c.get(st0, m, "Contact"))
			c.wantSame("bye", pos, "dialog.NewBye Request", st, st0, c.get(st, res, "Request"), c.get(st0, ct.O, "Uri"), msgField(res, "Request"))
			if !nilseq {
				c.wantSame("bye", pos, "dialog.NewBye last sequence number", st, st0, st.load(Loc{a[2].L.O, ""}, tInt), st.addv(last, iconst(1)), tInt)
			}
		}}
	}
	calls = append(calls, bye(false), bye(true))
	for _, cl := range calls {
		fn := c.fn(cl.fn)
		if fn == nil {
			continue
		}
		c.analysed(fn)
		pos := c.p.pos(fn.Pos())
		for rr := 0; rr <= 3; rr++ {
			e := c.dlgEngine()
			var st0 *State
			var args []Val
			rs := e.run(fn, func(st *State, a []Val) []Val {
				args = cl.setup(st, rr)
				st0 = st.clone()
				if len(args) != len(fn.Params) {
					return a
				}
				return args
			})
			if len(args) != len(fn.Params) {
				c.unsure("%s has other parameters than the rule knows", cl.fn)
				break
			}
			c.obligations(e, "crash", nil)
			if c.gaveUp(e, cl.fn) {
				continue
			}
			for _, r := range rs {
				c.count("results_checked", 1)
				l, ok := loc1(r.st, r.v)
				if !ok {
					c.unsure("%s: result not resolved: %s", cl.fn, render(r.v))
					continue
				}
				st := r.st
				eq := func(f string, want Val) {
					c.wantSame(cl.rule, pos, cl.fn+" "+f, st, st0, c.get(st, l.O, f), want, msgField(l.O, f))
				}
				check := func(f string, src *Obj, sf string) {
					c.wantSame(cl.rule, pos, cl.fn+" "+f, st, st0, c.get(st, l.O, f), c.get(st0, src, sf), msgField(l.O, f))
				}
				rev := func(f string, src *Obj, sf string) {
					c.checkReversed(cl.rule, pos, cl.fn+" "+f, st, st0, c.get(st, l.O, f), c.get(st0, src, sf), msgField(l.O, f))
				}
				cl.want(st, st0, args, l.O, check, eq, rev)
			}
			if len(rs) == 0 {
				c.unsure("%s has no exit", cl.fn)
			}
		}
	}
}

func listOf(st *State, v Val, t types.Type) (r []Loc, ok bool) {
	for i := 0; i < 16; i++ {
		if st.nilness(v) == 1 {
			return r, true
		}
		l, ok := loc1(st, v)
		if !ok {
			return r, false
		}
		r = append(r, l)
		v = st.load(Loc{l.O, l.Path + ".Next"}, t)
	}
	return r, false
}

// checkNodes compares a list element by element (without the links).
func (c *Check) checkNodes(rule, pos, what string, st, st0 *State, got, want []Loc) {
	if len(got) != len(want) {
		c.fail(rule, pos, what, "%s has %d elements, must have %d", what, len(got), len(want))
		return
	}
	for i := range got {
		for _, f := range structFields(got[i].O.Type) {
			if f.Name() == "Next" {
				continue
			}
			gv := st.load(Loc{got[i].O, got[i].Path + "." + f.Name()}, f.Type())
			wv := st0.load(Loc{want[i].O, want[i].Path + "." + f.Name()}, f.Type())
			c.wantSame(rule, pos, fmt.Sprintf("%s element %d %s", what, i, f.Name()), st, st0, gv, wv, f.Type())
		}
	}
}

func (c *Check) checkReversed(rule, pos, what string, st, st0 *State, got, want Val, t types.Type) {
	g, ok := listOf(st, got, t)
	w, ok2 := listOf(st0, want, t)
	if !ok || !ok2 {
		c.unsure("%s: %s not resolved", rule, what)
		return
	}
	for i, j := 0, len(w)-1; i < j; i, j = i+1, j-1 {
		w[i], w[j] = w[j], w[i]
	}
	c.checkNodes(rule, pos, what, st, st0, g, w)
}

// ---- D11 ----

func checkD11(c *Check) {
	c.rules = append(c.rules, "response", "refuse", "request", "strict", "default-port", "lookup", "crash")
	c.lookupRule()
	fn := c.fn("dialog.RouteMessage")
	if fn == nil {
		return
	}
	c.analysed(fn)
	if len(fn.Params) == 3 && fn.Signature.Results().Len() == 3 {
		for _, own := range []string{"nil", "match", "host", "port"} {
			for n := 0; n <= 3; n++ {
				c.routeResponse(fn, own, n)
			}
			for n := 0; n <= 3; n++ {
				for _, m := range []string{"INVITE", "BYE", "REGISTER"} {
					c.routeRequest(fn, own, n, m)
				}
			}
		}
	} else {
		c.unsure("RouteMessage has another signature than the rule knows")
	}
	c.defaultPort()
}

var u16t = types.Typ[types.Uint16]

func (c *Check) routeResponse(fn *ssa.Function, own string, n int) {
	what := fmt.Sprintf("RouteMessage, response with %d Via, own Via %s", n, own)
	pos := c.p.pos(fn.Pos())
	e := c.dlgEngine()
	var st0 *State
	var msg *Obj
	var vias []*Obj
	rs := e.run(fn, func(st *State, a []Val) []Val {
		msg = c.message(st, "msg", msgLists{n, 1, 1, 1, 0, 0})
		x := leaf("status", tInt)
		st.setLo(x, 100)
		st.setHi(x, 699)
		c.set(st, msg, "Status", isym(x))
		v, os := c.list(st, "via", "sip.Via", n)
		vias = os
		c.set(st, msg, "Via", v)
		for i, o := range os {
			px := leaf(fmt.Sprintf("via%d.Port", i), u16t)
			c.set(st, o, "Port", isym(px))
			c.set(st, o, "Host", ssym(leaf(fmt.Sprintf("via%d.Host", i), tString)))
		}
		ov := nilVal
		if own != "nil" {
			o := c.input("own", "sip.Via")
			ov = ptrTo(o)
			if n > 0 {
				c.set(st, o, "Host", c.get(st, os[0], "Host"))
				c.set(st, o, "Port", c.get(st, os[0], "Port"))
				switch own {
				case "host":
					c.set(st, o, "Host", strc("own.example"))
					c.set(st, os[0], "Host", strc("other.example"))
				case "port":
					c.set(st, o, "Port", iconst(5070))
					c.set(st, os[0], "Port", iconst(5080))
				}
			}
		}
		st0 = st.clone()
		return []Val{ov, a[1], ptrTo(msg)}
	})
	c.obligations(e, "crash", nil)
	if c.gaveUp(e, what) {
		return
	}
	top := 0
	if own == "match" {
		top = 1
	}
	for _, r := range rs {
		c.count("routes_checked", 1)
		st := r.st
		host, port, err := r.v.El[0], r.v.El[1], r.v.El[2]
		if top >= n {
			if st.nilness(err) == 1 {
				c.fail("refuse", pos, "RouteMessage without Via", "%s is routed to %s although no Via remains", what, render(host))
			}
			continue
		}
		o := vias[top]
		// what the parameters say
		plist := c.get(st0, o, "Param")
		pt := structFieldType(o.Type, "Param")
		rcv, rn := paramOf(st, plist, "received", pt)
		rp, pn := paramOf(st, plist, "rport", pt)
		val := func(p Val) Val {
			l, ok := loc1(st, p)
			if !ok {
				return undef
			}
			return st.load(Loc{l.O, l.Path + ".Value"}, tString)
		}
		if st.nilness(err) == 2 {
			// only an unusable rport may stop a response
			if pn != 2 {
				c.fail("response", pos, "RouteMessage refuses a response", "%s is refused although it carries no rport parameter", what)
			} else if x := lookupAtoi(val(rp)); x.S != 0 {
				if lo, hi := st.rng(x); st.nilness(err) == 2 && lo >= 1 && hi <= 65535 && !strings.Contains(syms[err.S].Name, "ParseInt") && !strings.Contains(renderSym(err.S), "err:") {
					c.fail("response", pos, "RouteMessage refuses a response", "%s is refused although its rport is a port number", what)
				}
			}
			continue
		}
		c.wantSame("response", pos, what+": remaining Via", st, st0, c.get(st, msg, "Via"), ptrTo(o), msgField(msg, "Via"))
		hostv := c.get(st0, o, "Host")
		switch rn {
		case 2:
			v := val(rcv)
			if valEq(host, v) {
				break
			}
			if r, k := st.evalCond(condEq(v, strc(""))); k && r {
				break // empty parameter
			}
			if valEq(host, hostv) {
				c.fail("response", pos, what+": host", "%s goes to the Via's host although it carries a received parameter", what)
			} else {
				c.wantSame("response", pos, what+": host", st, st0, host, v, tString)
			}
		case 1:
			c.wantSame("response", pos, what+": host", st, st0, host, hostv, tString)
		default:
			if valEq(host, hostv) {
				c.fail("response", pos, what+": received ignored", "%s goes to the Via's host whether or not it carries a received parameter", what)
			} else {
				c.unsure("%s: host not resolved", what)
			}
		}
		portv := c.get(st0, o, "Port")
		isVia := valEq(port, portv)
		switch pn {
		case 1:
			c.wantSame("response", pos, what+": port", st, st0, port, portv, u16t)
		case 2:
			v := val(rp)
			empty, known := st.evalCond(condEq(v, strc("")))
			if !known {
				if lo, _ := st.rng(st.strLen(v)); lo > 0 {
					empty, known = false, true
				}
			}
			x := lookupAtoi(v)
			switch {
			case known && empty:
				c.wantSame("response", pos, what+": port", st, st0, port, portv, u16t)
			case x.S == 0:
				if isVia {
					c.fail("response", pos, what+": rport ignored", "%s goes to the Via's port although it carries an rport parameter", what)
				} else {
					c.unsure("%s: port %s not resolved", what, render(port))
				}
			case isVia:
				if lo, hi := st.rng(x); lo >= 1 && hi <= 65535 {
					c.fail("response", pos, what+": port", "%s goes to the Via's port although its rport is a port number", what)
				}
			default:
				q := port
				for q.S != 0 && q.N == 0 && syms[q.S].Op == "conv" {
					q = syms[q.S].Args[0]
				}
				if q.S != 0 && syms[q.S].Op == "atoi" && q.N == 0 && valEq(syms[q.S].Args[0], v) {
					lo, hi := st.rng(q)
					if lo < 1 || hi > 65535 {
						c.fail("response", pos, "RouteMessage rport range", "an rport parameter between %d and %d becomes the port; only 1..65535 may", lo, hi)
					}
				} else {
					c.wantSame("response", pos, what+": port", st, st0, port, q, u16t)
					if definiteText(port) {
						c.fail("response", pos, what+": port", "%s goes to port %s, must be the rport parameter", what, render(port))
					}
				}
			}
		default:
			if isVia {
				c.fail("response", pos, what+": rport ignored", "%s goes to the Via's port whether or not it carries an rport parameter", what)
			} else {
				c.unsure("%s: port not resolved", what)
			}
		}
	}
	if len(rs) == 0 && n > top {
		c.unsure("%s: no exit", what)
	}
}

// lookupAtoi finds the conversion of a text to a number, if one was made.
func lookupAtoi(v Val) Val {
	for x := range syms {
		if s := syms[x]; s.Op == "atoi" && valEq(s.Args[0], v) {
			return isym(Sym(x))
		}
	}
	return Val{}
}

func (c *Check) routeRequest(fn *ssa.Function, own string, n int, method string) {
	what := fmt.Sprintf("RouteMessage, %s with %d Route, own contact %s", method, n, own)
	pos := c.p.pos(fn.Pos())
	e := c.dlgEngine()
	var st0 *State
	var msg *Obj
	var routes []*Obj
	uri := func(st *State, o *Obj) *Obj { return c.get(st, o, "Uri").L.O }
	rs := e.run(fn, func(st *State, a []Val) []Val {
		msg = c.message(st, "msg", msgLists{1, 1, 1, 1, n, 0})
		c.set(st, msg, "Status", iconst(0))
		c.set(st, msg, "Method", strc(method))
		v, os := c.list(st, "route", "sip.Addr", n)
		routes = os
		c.set(st, msg, "Route", v)
		for i, o := range os {
			u := uri(st, o)
			x := leaf(fmt.Sprintf("route%d.Port", i), u16t)
			st.setLo(x, 1)
			c.set(st, u, "Port", isym(x))
			c.set(st, u, "Host", ssym(leaf(fmt.Sprintf("route%d.Host", i), tString)))
		}
		rq := c.get(st, msg, "Request").L.O
		c.set(st, rq, "Host", ssym(leaf("request.Host", tString)))
		c.set(st, rq, "Port", isym(leaf("request.Port", u16t)))
		ov := nilVal
		if own != "nil" {
			v, os2 := c.list(st, "own", "sip.Addr", 1)
			ov = v
			u := uri(st, os2[0])
			if n > 0 {
				u0 := uri(st, os[0])
				c.set(st, u, "Host", c.get(st, u0, "Host"))
				c.set(st, u, "Port", c.get(st, u0, "Port"))
				c.set(st, u, "Scheme", strc("sip"))
				c.set(st, u0, "Scheme", strc("sip"))
				switch own {
				case "host":
					c.set(st, u, "Host", strc("own.example"))
					c.set(st, u0, "Host", strc("other.example"))
				case "port":
					c.set(st, u, "Port", iconst(5070))
					c.set(st, u0, "Port", iconst(5080))
				}
			}
		}
		st0 = st.clone()
		return []Val{a[0], ov, ptrTo(msg)}
	})
	c.obligations(e, "crash", nil)
	if c.gaveUp(e, what) {
		return
	}
	rest := routes
	if own == "match" && n > 0 {
		rest = routes[1:]
	}
	at := msgField(msg, "Route")
	ut := msgField(msg, "Request")
	for _, r := range rs {
		c.count("routes_checked", 1)
		st := r.st
		host, port, err := r.v.El[0], r.v.El[1], r.v.El[2]
		if st.nilness(err) == 2 {
			if method != "REGISTER" || len(rest) == 0 {
				c.fail("request", pos, what+": refused", "%s is refused", what)
			}
			continue
		}
		oldReq := c.get(st0, msg, "Request")
		goes := func(u *Obj, why string) {
			c.wantSame("request", pos, what+": host"+why, st, st0, host, c.get(st0, u, "Host"), tString)
			w := c.get(st0, u, "Port")
			if lo, _ := st.rng(w); lo == 0 && port.isConstInt() && port.N == 5060 {
				if r, k := st.evalCond(condEq(w, iconst(0))); k && r {
					return // default port filled in here
				}
			}
			c.wantSame("request", pos, what+": port"+why, st, st0, port, w, u16t)
		}
		if len(rest) == 0 {
			goes(oldReq.L.O, "")
			c.wantSame("request", pos, what+": request target", st, st0, c.get(st, msg, "Request"), oldReq, ut)
			if g, ok := listOf(st, c.get(st, msg, "Route"), at); ok && len(g) > 0 {
				c.fail("request", pos, what+": remaining Route", "%s keeps %d Route entries", what, len(g))
			}
			continue
		}
		u := uri(st0, rest[0])
		lrp := c.get(st0, u, "Param")
		_, lr := paramOf(st, lrp, "lr", structFieldType(u.Type, "Param"))
		if lr == 0 {
			if r, k := st.evalCond(condEq(lrp, nilVal)); k && r {
				lr = 1
			}
		}
		switch lr {
		case 2:
			goes(u, "")
			c.wantSame("request", pos, what+": request target", st, st0, c.get(st, msg, "Request"), oldReq, ut)
			g, ok := listOf(st, c.get(st, msg, "Route"), at)
			if !ok {
				c.unsure("%s: Route not resolved", what)
				continue
			}
			c.checkNodes("request", pos, what+": Route", st, st0, g, locs(rest))
		case 1:
			goes(u, " (strict)")
			c.wantSame("strict", pos, what+": request target", st, st0, c.get(st, msg, "Request"), c.get(st0, rest[0], "Uri"), ut)
			g, ok := listOf(st, c.get(st, msg, "Route"), at)
			if !ok {
				c.unsure("%s: Route not resolved", what)
				continue
			}
			if len(g) != len(rest) {
				c.fail("strict", pos, what+": Route", "a strict first hop leaves %d Route entries, must be %d", len(g), len(rest))
				continue
			}
			c.checkNodes("strict", pos, what+": Route", st, st0, g[:len(g)-1], locs(rest[1:]))
			last := g[len(g)-1]
			c.wantSame("strict", pos, what+": last Route", st, st0, st.load(Loc{last.O, last.Path + ".Uri"}, ut), oldReq, ut)
		default:
			if valEq(host, c.get(st0, u, "Host")) {
				c.fail("request", pos, what+": lr ignored", "%s goes to its first Route whether or not that is a loose router", what)
			} else if valEq(host, c.get(st0, oldReq.L.O, "Host")) {
				c.fail("request", pos, what+": Route ignored", "%s goes to its request target although it has a Route", what)
			} else {
				c.unsure("%s: next hop not resolved", what)
			}
		}
	}
}

func locs(os []*Obj) (r []Loc) {
	for _, o := range os {
		r = append(r, Loc{o, ""})
	}
	return
}

// lookupRule verifies the contract used for parameter look-ups.
func (c *Check) lookupRule() {
	for _, tn := range []string{"Param", "URIParam", "URIHeader"} {
		fn := c.p.fn("sip." + tn + ".Get")
		if fn == nil {
			continue
		}
		c.analysed(fn)
		pos := c.p.pos(fn.Pos())
		for _, names := range [][]string{{}, {"a"}, {"LR"}, {"a", "lr"}, {"lr", "Lr"}, {"a", "b", "lR"}, {"a", "lrx", "l"}} {
			e := c.engine()
			e.concrete = true
			var os []*Obj
			rs := e.run(fn, func(st *State, a []Val) []Val {
				var v Val
				v, os = c.list(st, "p", "sip."+tn, len(names))
				for i, n := range names {
					c.set(st, os[i], "Name", strc(n))
				}
				return []Val{v, strc("lr")}
			})
			c.obligations(e, "crash", nil)
			want := nilVal
			for i, n := range names {
				if strings.EqualFold(n, "lr") {
					want = ptrTo(os[i])
					break
				}
			}
			for _, r := range rs {
				c.count("lookups_checked", 1)
				g, ok := loc1(r.st, r.v)
				switch {
				case want.K == KNil && r.st.nilness(r.v) == 1:
				case want.K == KNil && r.st.nilness(r.v) == 2, want.K != KNil && r.st.nilness(r.v) == 1, want.K != KNil && ok && g != want.L:
					c.fail("lookup", pos, "sip."+tn+".Get", "looking up \"lr\" among %q finds %s", names, render(r.v))
				case want.K == KNil || !ok:
					c.unsure("sip.%s.Get among %q not resolved", tn, names)
				}
			}
		}
	}
}

// defaultPort: port 0 always means 5060.
func (c *Check) defaultPort() {
	fn := c.fn("dialog.RouteAddress")
	if fn != nil && len(fn.Params) == 3 {
		c.analysed(fn)
		pos := c.p.pos(fn.Pos())
		for _, host := range []string{"192.0.2.7", "sip.example.com"} {
			for _, srv := range []bool{false, true} {
				for _, port := range []int64{0, 5060, 7000} {
					e := c.dlgEngine()
					what := fmt.Sprintf("RouteAddress(%s, %d, %v)", host, port, srv)
					wantPort := port
					if port == 0 {
						wantPort = 5060
					}
					want := term("net.JoinHostPort", tString, strc(host), strc(fmt.Sprint(wantPort)))
					parse := e.intrinsics["net.ParseIP"]
					e.intrinsics["net.ParseIP"] = func(e *Engine, cc *callCtx) []callRes {
						var out []callRes
						for _, r := range parse(e, cc) {
							isIP := r.st.nilness(r.v) == 2
							if cc.args[0].isConstStr() && isIP != (cc.args[0].Str == "192.0.2.7") {
								continue
							}
							out = append(out, r)
						}
						return out
					}
					e.intrinsics["net.ResolveUDPAddr"] = func(e *Engine, cc *callCtx) []callRes {
						a := cc.args[1]
						c.count("addresses_checked", 1)
						if !valEq(a, ssym(want)) {
							if definiteText(a) {
								c.fail("default-port", c.p.pos(instrPos(cc.in)), what+" resolves", "%s resolves %s, must be %s:%d", what, render(a), host, wantPort)
							} else {
								c.unsure("%s resolves %s", what, render(a))
							}
						}
						return e.externalResult(cc)
					}
					rs := e.run(fn, func(st *State, a []Val) []Val { return []Val{strc(host), iconst(port), bconst(srv)} })
					c.obligations(e, "crash", func(o *Obligation) bool { return strings.Contains(o.Msg, "net.LookupSRV") })
					c.assumption("net.LookupSRV returns no nil records")
					if c.gaveUp(e, what) {
						continue
					}
					for _, r := range rs {
						if r.st.nilness(r.v.El[1]) != 1 || host != "192.0.2.7" {
							continue
						}
						l, ok := loc1(r.st, r.v.El[0])
						if !ok {
							c.unsure("%s: result not resolved", what)
							continue
						}
						a := r.st.load(Loc{l.O, l.Path + ".Address"}, tString)
						c.count("addresses_checked", 1)
						if valEq(a, ssym(want)) {
							continue
						}
						if definiteText(a) {
							c.fail("default-port", pos, what, "%s gives %s, must be %s:%d", what, render(a), host, wantPort)
						} else {
							c.unsure("%s gives %s", what, render(a))
						}
					}
				}
			}
		}
	}
	send := c.fn("dialog.Transport.Send")
	rm := c.fn("dialog.RouteMessage")
	if send == nil || rm == nil || rm.Signature.Results().Len() != 3 {
		return
	}
	c.analysed(send)
	for _, zero := range []bool{true, false} {
		e := c.dlgEngine()
		host, port := leaf("host", tString), leaf("port", u16t)
		e.intrinsics[rm.String()] = func(e *Engine, cc *callCtx) []callRes {
			p := isym(port)
			if zero {
				p = iconst(0)
			} else {
				cc.st.setLo(port, 1)
			}
			return ret1(cc.st, tuple(ssym(host), p, nilVal))
		}
		seen := false
		e.intrinsics["net.ResolveUDPAddr"] = func(e *Engine, cc *callCtx) []callRes {
			a := cc.args[1]
			seen = true
			c.count("addresses_checked", 1)
			pv := strTerm(cc.st, "itoa", 1, isym(port))
			if zero {
				pv = strc("5060")
			}
			want := term("net.JoinHostPort", tString, ssym(host), pv)
			if !valEq(a, ssym(want)) {
				if definiteText(a) || a.S != 0 && syms[a.S].Op == "net.JoinHostPort" && syms[a.S].Args[1].isConstStr() {
					c.fail("default-port", c.p.pos(instrPos(cc.in)), fmt.Sprintf("Transport.Send port zero=%v", zero), "a message for port %s is sent to %s", map[bool]string{true: "0", false: "p"}[zero], render(a))
				} else {
					c.unsure("Transport.Send resolves %s", render(a))
				}
			}
			return nil
		}
		e.run(send, func(st *State, a []Val) []Val {
			tp := c.input("tp", "dialog.Transport")
			m := c.message(st, "msg", msgLists{1, 1, 1, 1, 0, 0})
			for _, f := range []string{"Via", "Contact"} {
				typ := map[string]string{"Via": "sip.Via", "Contact": "sip.Addr"}[f]
				v, _ := c.list(st, "tp."+f, typ, 1)
				c.set(st, tp, f, v)
			}
			s := c.input("sock", "dialog.Transport")
			_ = s
			return []Val{ptrTo(tp), ptrTo(m)}
		})
		if !c.gaveUp(e, "Transport.Send") && !seen {
			c.unsure("Transport.Send does not resolve an address")
		}
	}
}
