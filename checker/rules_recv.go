package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D15", "ReceiveMessages is interpreted with the parser replaced by messages whose topmost Via has unknown host and port and every combination of absent, empty and filled received and rport parameters; what is delivered on the message channel is compared with the stamping rules.", checkD15)
}

type stampScen struct {
	name            string
	resp            bool
	vias            int
	received, rport string // "", "empty", "set"
	port0           bool   // the Via names no port
	other           bool   // another parameter comes first
}

func checkD15(c *Check) {
	c.rules = append(c.rules, "received", "rport", "kept", "response")
	fn := c.fn("dialog.ReceiveMessages")
	parse := c.fn("sip.ParseMsg")
	if fn == nil || parse == nil {
		return
	}
	c.analysed(fn)
	vals := []string{"", "empty", "set"}
	for _, rc := range vals {
		for _, rp := range vals {
			for n := 1; n <= 2; n++ {
				c.stampRun(fn, parse, stampScen{fmt.Sprintf("request with %d Via, received %q, rport %q", n, rc, rp), false, n, rc, rp, n == 2, n == 2})
			}
		}
	}
	for n := 1; n <= 2; n++ {
		c.stampRun(fn, parse, stampScen{fmt.Sprintf("response with %d Via", n), true, n, "", "", false, n == 2})
		c.stampRun(fn, parse, stampScen{fmt.Sprintf("response with %d Via, empty received and rport", n), true, n, "empty", "empty", false, false})
	}
}

// params makes a parameter list with the given names and values.
func (c *Check) params(st *State, name string, nv ...Val) (Val, []*Obj) {
	v, os := c.list(st, name, "sip.Param", len(nv)/2)
	for i, o := range os {
		c.set(st, o, "Name", nv[2*i])
		c.set(st, o, "Value", nv[2*i+1])
	}
	return v, os
}

func nonEmpty(st *State, name string) Val {
	x := leaf(name, tString)
	st.setLo(st.lenSym(x), 1)
	st.strExclude(x, "")
	return ssym(x)
}

func (c *Check) stampRun(fn, parse *ssa.Function, s stampScen) {
	e := c.dlgEngine()
	var st0 *State
	var m *Obj
	var vias []*Obj
	var ch Val
	delivered := 0
	e.intrinsics[parse.String()] = func(e *Engine, cc *callCtx) []callRes {
		st := cc.st
		if _, again := st.monVal("$parsed"); again {
			return nil // the next datagram
		}
		st.setMonVal("$parsed", bconst(true))
		return ret1(st, tuple(ptrTo(m), nilVal))
	}
	if wt := c.p.fn("dialog.trace"); wt != nil {
		e.intrinsics[wt.String()] = noEffect
	}
	e.onEvent = func(e *Engine, st *State, ev *Event) []*State {
		switch ev.Kind {
		case "sockdone.ReadFromUDP", "sockdone.ReadFrom", "sockdone.ReadFromUDPAddrPort":
			if r := ev.Args[0]; r.K == KTuple && len(r.El) == 3 {
				st.setMonVal("$from", r.El[1])
			}
		case "send":
			if !valEq(ev.Args[0], ch) {
				return []*State{st}
			}
			delivered++
			l, ok := loc1(st, ev.Args[1])
			if !ok || m == nil || l.O != m {
				c.unsure("%s: another message is delivered", s.name)
				return nil
			}
			c.stampCheck(s, c.p.pos(instrPos(ev.In)), st, st0, m, vias)
			return nil
		}
		return []*State{st}
	}
	e.run(fn, func(st *State, a []Val) []Val {
		m = c.message(st, "msg", msgLists{0, 1, 1, 1, 0, 0})
		v, os := c.list(st, "msg.Via", "sip.Via", s.vias)
		vias = os
		c.set(st, m, "Via", v)
		c.set(st, m, "Payload", nilVal)
		for i, o := range os {
			c.set(st, o, "Host", nonEmpty(st, fmt.Sprintf("via%d.Host", i)))
			x := leaf(fmt.Sprintf("via%d.Port", i), u16t)
			if i == 0 && s.port0 {
				c.set(st, o, "Port", iconst(0))
			} else {
				st.setLo(x, 1)
				c.set(st, o, "Port", isym(x))
			}
		}
		var ps []Val
		if s.other {
			ps = append(ps, strc("branch"), nonEmpty(st, "branch"))
		}
		for _, p := range []struct{ n, k string }{{"received", s.received}, {"rport", s.rport}} {
			switch p.k {
			case "empty":
				ps = append(ps, strc(p.n), strc(""))
			case "set":
				ps = append(ps, strc(p.n), nonEmpty(st, "old "+p.n))
			}
		}
		pl, _ := c.params(st, "param", ps...)
		c.set(st, os[0], "Param", pl)
		if s.resp {
			x := leaf("msg.Status", tInt)
			st.setLo(x, 100)
			st.setHi(x, 699)
			c.set(st, m, "Status", isym(x))
			c.set(st, m, "Request", nilVal)
		} else {
			c.set(st, m, "Status", iconst(0))
			c.set(st, m, "Method", nonEmpty(st, "msg.Method"))
		}
		st.setMonVal("$msg", ptrTo(m))
		st0 = st.clone()
		sock := newObj("sock", "in:sock", elemOf(fn.Params[0].Type()))
		sock.Input = true
		mk := func(n string, t types.Type) Val {
			o := newObj(n, "in:"+n, t)
			o.Input = true
			return ptrTo(o)
		}
		ch = mk("c", fn.Params[1].Type())
		return []Val{ptrTo(sock), ch, mk("e", fn.Params[2].Type())}
	})
	if c.gaveUp(e, s.name) {
		return
	}
	if delivered == 0 {
		c.unsure("%s: nothing is delivered", s.name)
	}
}

type nv struct {
	n, v Val
	l    Loc
}

func (c *Check) paramList(st *State, p Val, t types.Type) ([]nv, bool) {
	ls, ok := listOf(st, p, t)
	var r []nv
	for _, l := range ls {
		r = append(r, nv{st.load(Loc{l.O, l.Path + ".Name"}, tString), st.load(Loc{l.O, l.Path + ".Value"}, tString), l})
	}
	return r, ok
}

func (c *Check) stampCheck(s stampScen, pos string, st, st0 *State, m *Obj, vias []*Obj) {
	c.count("deliveries_checked", 1)
	vt := msgField(m, "Via")
	g, ok := listOf(st, c.get(st, m, "Via"), vt)
	if !ok {
		c.unsure("%s: Via not resolved", s.name)
		return
	}
	if len(g) != len(vias) {
		c.fail("kept", pos, "Via list", "%s: delivered with %d Via", s.name, len(g))
		return
	}
	for i := range g {
		for _, f := range structFields(vias[0].Type) {
			if f.Name() == "Next" || i == 0 && f.Name() == "Param" {
				continue
			}
			c.wantSame("kept", pos, "Via "+f.Name(), st, st0, st.load(Loc{g[i].O, g[i].Path + "." + f.Name()}, f.Type()), c.get(st0, vias[i], f.Name()), f.Type())
		}
	}
	pt := structFieldType(vias[0].Type, "Param")
	got, ok := c.paramList(st, st.load(Loc{g[0].O, g[0].Path + ".Param"}, pt), pt)
	if !ok {
		c.unsure("%s: Via parameters not resolved", s.name)
		return
	}
	old, _ := c.paramList(st0, c.get(st0, vias[0], "Param"), pt)
	// where it came from
	from, ok := st.monVal("$from")
	if !ok {
		c.unsure("%s: source address not seen", s.name)
		return
	}
	fl, ok := loc1(st, from)
	if !ok {
		c.unsure("%s: source address not resolved", s.name)
		return
	}
	ipT := structFieldType(fl.O.Type, "IP")
	ip := st.load(Loc{fl.O, fl.Path + ".IP"}, ipT)
	src := strTerm(st, "ipstr", 1, ip.El[0], ip.El[2])
	fport := st.load(Loc{fl.O, fl.Path + ".Port"}, tInt)
	portText := strTerm(st, "itoa", 1, fport)
	c.count("values_compared", len(old)+2)

	find := func(l []nv, n string) []nv {
		var r []nv
		for _, p := range l {
			if p.n.isConstStr() && p.n.Str == n {
				r = append(r, p)
			}
		}
		return r
	}
	hostDiffers, hk := st.evalCond(condEq(c.get(st0, vias[0], "Host"), src))
	hostDiffers = !hostDiffers
	portDiffers, pk := st.evalCond(condEq(c.get(st0, vias[0], "Port"), fport))
	portDiffers = !portDiffers
	if r, k := st.evalCond(condEq(fport, iconst(0))); k && r {
		return // no datagram comes from port 0
	}
	if s.port0 {
		if r, k := st.evalCond(condEq(fport, iconst(5060))); k && !r {
			pk, portDiffers = true, true
		} else if pk && portDiffers && (!k || r) {
			pk = false // no port means 5060
		}
	}
	check := func(name, had string, want Val, differs, known bool) {
		gs := find(got, name)
		if len(gs) > 1 {
			c.fail("kept", pos, name+" twice", "%s: delivered with %d %s parameters", s.name, len(gs), name)
			return
		}
		isWant := func(v Val) bool { return valEq(v, want) }
		switch {
		case s.resp:
			if had == "" && len(gs) > 0 || had == "empty" && !(len(gs) == 1 && gs[0].v.isConstStr() && gs[0].v.Str == "") {
				c.fail("response", pos, "response "+name, "%s: a response is delivered with %s stamped", s.name, name)
			}
		case had == "set":
			o := find(old, name)
			if len(gs) == 0 || len(o) == 0 {
				c.fail("kept", pos, name+" removed", "%s: the sender's %s parameter is lost", s.name, name)
			} else {
				c.wantSame("kept", pos, "sender's "+name, st, st0, gs[0].v, o[0].v, tString)
			}
		case len(gs) == 0 || gs[0].v.isConstStr() && gs[0].v.Str == "":
			if known && differs {
				c.fail(name, pos, name+" not filled, sender gave "+orNone(had), "%s: delivered without a %s value although the Via names another %s than the datagram came from", s.name, name, map[string]string{"received": "host", "rport": "port"}[name])
			} else if !known && !s.port0 {
				c.fail(name, pos, name+" not filled, sender gave "+orNone(had), "%s: delivered without a %s value whether or not the Via agrees with the datagram's source", s.name, name)
			}
		case isWant(gs[0].v):
			if known && !differs && had == "" && !(s.port0 && name == "rport") {
				c.fail("kept", pos, name+" needless", "%s: a %s parameter is added although the Via agrees with the source", s.name, name)
			}
		case gs[0].v.isConstStr() || definiteText(gs[0].v):
			c.fail(name, pos, name+" value", "%s: %s is %s, must be %s", s.name, name, render(gs[0].v), render(want))
		default:
			c.unsure("%s: %s %s not resolved", s.name, name, render(gs[0].v))
		}
	}
	check("received", s.received, src, hostDiffers, hk)
	check("rport", s.rport, portText, portDiffers, pk)
	// every other parameter, in order
	rest := func(l []nv) (r []nv) {
		for _, p := range l {
			if p.n.isConstStr() && (p.n.Str == "received" || p.n.Str == "rport" || p.n.Str == "usi") {
				continue
			}
			r = append(r, p)
		}
		return
	}
	a, b := rest(got), rest(old)
	if len(a) != len(b) {
		c.fail("kept", pos, "other parameters", "%s: delivered with %d other Via parameters, %d were sent", s.name, len(a), len(b))
		return
	}
	for i := range a {
		c.wantSame("kept", pos, "other parameter name", st, st0, a[i].n, b[i].n, tString)
		c.wantSame("kept", pos, "other parameter value", st, st0, a[i].v, b[i].v, tString)
	}
}

func orNone(s string) string {
	if s == "" {
		return "none"
	}
	return s
}
