package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("D10", "Transport.Send is interpreted on requests with every one of Via, Contact, To, From, Call-ID, CSeq, CSeq method and hop limit supplied or missing (all, none, each alone either way, parameters unknown), and on responses; when the message is written each supplied field must be what the caller gave and each missing one filled in as prescribed. The first message a call's loop writes is checked the same way.", checkD10)
}

var popFields = []string{"Via", "Contact", "To", "From", "CallID", "CSeq", "CSeqMethod", "MaxForwards"}

type popScen struct {
	name    string
	have    map[string]bool
	resp    bool
	call    bool // sent by a call, not through the transport
	viaBare bool // the supplied Via has no parameter at all
}

func popScens() []popScen {
	set := func(def bool, flip ...string) map[string]bool {
		m := map[string]bool{}
		for _, f := range popFields {
			m[f] = def
		}
		for _, f := range flip {
			m[f] = !def
		}
		return m
	}
	r := []popScen{{name: "everything supplied", have: set(true)}, {name: "nothing supplied", have: set(false)}}
	for _, f := range popFields {
		r = append(r, popScen{name: f + " missing", have: set(true, f)}, popScen{name: "only " + f + " supplied", have: set(false, f)})
	}
	return append(r, popScen{name: "response", have: set(true), resp: true})
}

// popMessage is the message of a scenario.
func (c *Check) popMessage(st *State, s popScen) *Obj {
	l := msgLists{via: 1, from: 1, to: 1, contact: 1}
	if s.resp {
		l.via = 2
	}
	m := c.message(st, "msg", l)
	c.set(st, m, "Payload", nilVal)
	for _, f := range popFields {
		t := msgField(m, f)
		if !s.have[f] {
			c.set(st, m, f, zeroVal(t))
			continue
		}
		switch f {
		case "CallID", "CSeqMethod":
			x := leaf("msg."+f, tString)
			st.setLo(st.lenSym(x), 1)
			st.strExclude(x, "")
			c.set(st, m, f, ssym(x))
		case "CSeq", "MaxForwards":
			x := leaf("msg."+f, tInt)
			st.setLo(x, 2)
			st.setHi(x, 1<<31-1)
			c.set(st, m, f, isym(x))
		}
	}
	if s.resp {
		x := leaf("msg.Status", tInt)
		st.setLo(x, 100)
		st.setHi(x, 699)
		c.set(st, m, "Status", isym(x))
	} else {
		c.set(st, m, "Status", iconst(0))
		c.set(st, m, "Method", strc("INVITE"))
	}
	c.set(st, m, "Route", nilVal)
	return m
}

func checkD10(c *Check) {
	c.rules = append(c.rules, "kept", "filled", "own", "response")
	send := c.fn("dialog.Transport.Send")
	if send == nil {
		return
	}
	c.analysed(send)
	for _, s := range popScens() {
		c.popRun(s, send.String(), func(e *Engine, hook func(st0 *State, tp, m *Obj)) {
			e.run(send, func(st *State, a []Val) []Val {
				tp := c.input("tp", "dialog.Transport")
				m := c.popMessage(st, s)
				v, vo := c.list(st, "tp.Via", "sip.Via", 1)
				c.set(st, vo[0], "Param", nilVal) // as NewTransport makes it
				c.set(st, tp, "Via", v)
				v, _ = c.list(st, "tp.Contact", "sip.Addr", 1)
				c.set(st, tp, "Contact", v)
				hook(st.clone(), tp, m)
				return []Val{ptrTo(tp), ptrTo(m)}
			})
		})
	}
	run := c.fn("dialog.dialogState.run")
	if run == nil {
		return
	}
	c.analysed(run)
	for _, s := range popScens() {
		if s.resp {
			continue
		}
		s.call = true
		s.name = "call, " + s.name
		c.popRun(s, run.String(), func(e *Engine, hook func(st0 *State, tp, m *Obj)) {
			if fn := c.p.fn("dialog.ReceiveMessages"); fn != nil {
				e.intrinsics[fn.String()] = noEffect
			}
			e.run(run, func(st *State, a []Val) []Val {
				d, m := c.newCall(st, func() *Obj { return c.popMessage(st, s) })
				hook(st.clone(), nil, m)
				return []Val{ptrTo(d)}
			})
		})
	}
	c.laterRequests()
}

// laterRequests: the INVITE sent to a further destination, and the BYE.
func (c *Check) laterRequests() {
	if !c.stepReady() {
		return
	}
	c.rules = append(c.rules, "destination", "hang-up")
	var cases []stepCase
	for _, s := range []stepState{sProceeding, sTrying, sRinging} {
		for n := 1; n <= 2; n++ {
			s := withRoutes(s, n)
			cases = append(cases, stepCase{s, stepEvent{name: "refusal", kind: "err", err: "refused"}}, stepCase{s, reply(503, 503, true, "")})
		}
		if !s.noTimer {
			cases = append(cases, stepCase{withRoutes(s, 1), stepEvent{name: "timer, retransmissions used up", kind: "reqtimer", max: true}})
		}
		cases = append(cases, stepCase{s, reply(302, 302, true, "")}, stepCase{s, reply(301, 301, true, "")})
	}
	for _, s := range allStates() {
		if s.answered {
			cases = append(cases, stepCase{s, stepEvent{name: "hang-up", kind: "hangup"}})
		}
	}
	c.steps(cases, func(r *stepRun) {
		for _, o := range r.outs {
			for _, a := range o.acts("write") {
				if w := a.what(); w == "INVITE" {
					c.laterCheck(r, o, a, "destination", r.invite)
				} else if w == "BYE" {
					c.laterCheck(r, o, a, "hang-up", nil)
				}
			}
		}
	})
}

func (c *Check) laterCheck(r *stepRun, o stepOut, a act, rule string, inv *Obj) {
	st, m := a.st, a.msg
	c.count("later writes checked", 1)
	field := func(f string) Val { return st.load(Loc{m, "." + f}, msgField(m, f)) }
	param := func(f, name string) (Val, bool) {
		v := field(f)
		if st.nilness(v) == 1 {
			r.bad(rule, o, "the %s sent has no %s", a.what(), f)
			return nilVal, false
		}
		l, ok := loc1(st, v)
		if !ok {
			return nilVal, false
		}
		pt := structFieldType(l.O.Type, "Param")
		ps := st.load(Loc{l.O, l.Path + ".Param"}, pt)
		p, n := paramOf(st, ps, name, pt)
		if n == 1 {
			r.bad(rule, o, "the %s sent has no %s in its %s", a.what(), name, f)
			return nilVal, false
		}
		q, ok := loc1(st, p)
		if !ok || n != 2 {
			return nilVal, false
		}
		return st.load(Loc{q.O, q.Path + ".Value"}, tString), true
	}
	old := func(o *Obj, path ...string) (Val, bool) {
		v := ptrTo(o)
		t := types.Type(types.NewPointer(o.Type))
		for _, f := range path {
			l, ok := loc1(r.st0, v)
			if !ok {
				return nilVal, false
			}
			t = structFieldType(elemOf(t), f)
			v = r.st0.load(Loc{l.O, l.Path + "." + f}, t)
		}
		return v, true
	}
	br, ok := param("Via", "branch")
	if ok {
		if br.isConstStr() {
			r.bad(rule, o, "the %s sent has the branch %s", a.what(), render(br))
		}
		if inv != nil {
			if w, ok := old(inv, "Via", "Param", "Value"); ok && valEq(br, w) {
				r.bad(rule, o, "the next destination gets the branch of the one before")
			}
		}
	}
	if inv != nil {
		if l, ok := loc1(st, field("Via")); ok {
			p := st.load(Loc{l.O, l.Path + ".Port"}, structFieldType(l.O.Type, "Port"))
			if w, ok := old(inv, "Via", "Port"); ok && valEq(p, w) {
				r.bad(rule, o, "the next destination gets the port of the socket used before")
			}
		}
	}
	param("From", "tag")
	for _, f := range []string{"To", "Request"} {
		if st.nilness(field(f)) == 1 {
			r.bad(rule, o, "the %s sent has no %s", a.what(), f)
		}
	}
	if got := field("CSeqMethod"); got.isConstStr() && got.Str != a.what() {
		r.bad(rule, o, "the %s sent has the sequence method %s", a.what(), render(got))
	}
	if got := field("CallID"); got.isConstStr() {
		r.bad(rule, o, "the %s sent has the Call-ID %s", a.what(), render(got))
	}
	for _, f := range []string{"MaxForwards", "CSeq"} {
		got := field(f)
		if got.isConstInt() && (got.N <= 0 || f == "MaxForwards" && got.N != 70 && got.N != 69) {
			r.bad(rule, o, "the %s sent has %s %s", a.what(), f, render(got))
		}
	}
}

// newCall is the state of a call that has just been created for an INVITE:
// channels made, nothing else set.
func (c *Check) newCall(st *State, inv func() *Obj) (*Obj, *Obj) {
	d := c.input("call", "dialog.dialogState")
	m := inv()
	for _, f := range structFields(d.Type) {
		v := zeroVal(f.Type())
		if ch, ok := f.Type().Underlying().(*types.Chan); ok && f.Name() != "sockMsgs" {
			_ = ch
		}
		c.set(st, d, f.Name(), v)
	}
	for _, f := range []string{"errChan", "stateChan", "peerChan", "sendHangupChan"} {
		t := structFieldType(d.Type, f)
		o := newObj("call."+f, "in:call."+f, t)
		o.Input = true
		c.set(st, d, f, ptrTo(o))
	}
	c.set(st, d, "invite", ptrTo(m))
	return d, m
}

// popRun interprets a sender and checks the message at its first write.
func (c *Check) popRun(s popScen, what string, run func(e *Engine, hook func(st0 *State, tp, m *Obj))) {
	e := c.dlgEngine()
	var st0 *State
	var tp, m *Obj
	writes := 0
	app := c.p.fn("sip.Msg.Append")
	e.intrinsics[app.String()] = func(e *Engine, cc *callCtx) []callRes {
		writes++
		if l, ok := loc1(cc.st, cc.args[0]); !ok || l.O != m {
			c.unsure("%s: another message is written", s.name)
			return nil
		}
		c.popCheck(s, c.p.pos(instrPos(cc.in)), cc.st, st0, tp, m)
		return nil
	}
	if fn := c.p.fn("dialog.RouteAddress"); fn != nil {
		e.intrinsics[fn.String()] = func(e *Engine, cc *callCtx) []callRes {
			r := c.input("route", "dialog.AddressRoute")
			x := leaf("route.Address", tString)
			cc.st.store(Loc{r, ".Address"}, ssym(x), tString)
			c.set(cc.st, r, "Next", nilVal)
			return ret1(cc.st, tuple(ptrTo(r), nilVal))
		}
	}
	run(e, func(s0 *State, t, mm *Obj) { st0, tp, m = s0, t, mm })
	if c.gaveUp(e, s.name) {
		return
	}
	if writes == 0 {
		c.unsure("%s: nothing is written", s.name)
	}
}

// skipUsi steps over parameters the timestamp option adds.
func skipUsi(st *State, p Val, t types.Type) Val {
	for i := 0; i < 4; i++ {
		l, ok := loc1(st, p)
		if !ok || st.nilness(p) == 1 {
			return p
		}
		if n := st.load(Loc{l.O, l.Path + ".Name"}, tString); n.isConstStr() && n.Str == "usi" {
			p = st.load(Loc{l.O, l.Path + ".Next"}, t)
			continue
		}
		return p
	}
	return p
}

func (c *Check) popCheck(s popScen, pos string, st, st0 *State, tp, m *Obj) {
	c.count("writes_checked", 1)
	if s.resp {
		for _, f := range structFields(m.Type) {
			if f.Name() == "Via" || f.Name() == "MaxForwards" {
				continue
			}
			c.wantSame("response", pos, "response "+f.Name(), st, st0, c.get(st, m, f.Name()), c.get(st0, m, f.Name()), f.Type())
		}
		c.count("fields_checked", len(structFields(m.Type)))
		c.bounded("response", pos, "response MaxForwards", st, st0, m, iconst(0))
		vt := msgField(m, "Via")
		g, ok := listOf(st, c.get(st, m, "Via"), vt)
		w, ok2 := listOf(st0, c.get(st0, m, "Via"), vt)
		if !ok || !ok2 || len(g) > len(w) {
			c.unsure("%s: Via not resolved", s.name)
			return
		}
		w = w[len(w)-len(g):]
		for i := range g {
			for _, f := range structFields(g[i].O.Type) {
				gv := st.load(Loc{g[i].O, g[i].Path + "." + f.Name()}, f.Type())
				wv := st0.load(Loc{w[i].O, w[i].Path + "." + f.Name()}, f.Type())
				if f.Name() == "Next" {
					continue
				}
				if f.Name() == "Param" {
					gv = skipUsi(st, gv, f.Type())
				}
				c.wantSame("response", pos, "response Via "+f.Name(), st, st0, gv, wv, f.Type())
			}
		}
		return
	}
	who := "request"
	if s.call {
		who = "call's request"
	}
	text := func(f string) {
		what := who + " " + f
		t := msgField(m, f)
		got := c.get(st, m, f)
		if s.have[f] {
			c.wantSame("kept", pos, what, st, st0, got, c.get(st0, m, f), t)
			return
		}
		switch f {
		case "CSeqMethod":
			c.wantSame("filled", pos, what, st, st0, got, c.get(st0, m, "Method"), t)
		default:
			c.count("values_compared", 1)
			if got.S == 0 {
				c.fail("filled", pos, what, "%s: the %s of the request written is %s, must be generated", s.name, f, render(got))
			}
		}
	}
	text("CallID")
	text("CSeq")
	text("CSeqMethod")
	want := iconst(70)
	if s.have["MaxForwards"] {
		want = c.get(st0, m, "MaxForwards")
	}
	c.bounded("kept", pos, who+" MaxForwards", st, st0, m, want)
	// To
	to := c.get(st, m, "To")
	if s.have["To"] {
		c.wantSame("kept", pos, who+" To", st, st0, to, c.get(st0, m, "To"), msgField(m, "To"))
	} else if l, ok := loc1(st, to); st.nilness(to) == 1 {
		c.fail("filled", pos, who+" To", "%s: the request written has no To", s.name)
	} else if !ok {
		c.unsure("%s: To not resolved", s.name)
	} else {
		c.wantSame("filled", pos, who+" To", st, st0, c.get(st, l.O, "Uri"), c.get(st0, m, "Request"), msgField(m, "Request"))
	}
	// Contact
	ct := c.get(st, m, "Contact")
	if s.have["Contact"] && !s.call {
		c.wantSame("kept", pos, who+" Contact", st, st0, ct, c.get(st0, m, "Contact"), msgField(m, "Contact"))
	} else if st.nilness(ct) == 1 {
		c.fail("filled", pos, who+" Contact", "%s: the request written has no Contact", s.name)
	}
	// Via
	vp := func() {
		v := c.get(st, m, "Via")
		l, ok := loc1(st, v)
		if st.nilness(v) == 1 {
			c.fail("filled", pos, who+" Via", "%s: the request written has no Via", s.name)
			return
		}
		if !ok {
			c.unsure("%s: Via not resolved", s.name)
			return
		}
		pt := structFieldType(l.O.Type, "Param")
		got := skipUsi(st, c.get(st, l.O, "Param"), pt)
		var orig *Obj
		if s.have["Via"] {
			o, _ := loc1(st0, c.get(st0, m, "Via"))
			orig = o.O
		} else if tp != nil {
			o, _ := loc1(st0, c.get(st0, tp, "Via"))
			orig = o.O
		}
		old := nilVal
		if orig != nil {
			for _, f := range structFields(orig.Type) {
				if f.Name() == "Param" || s.call && f.Name() == "Port" || !s.have["Via"] && f.Name() == "Next" {
					continue
				}
				rule := "kept"
				if !s.have["Via"] {
					rule = "filled"
				}
				c.wantSame(rule, pos, who+" Via "+f.Name(), st, st0, c.get(st, l.O, f.Name()), c.get(st0, orig, f.Name()), f.Type())
			}
			old = c.get(st0, orig, "Param")
		}
		c.tagged(s, pos, who+" Via", "branch", s.call, st, st0, got, old, pt)
	}
	vp()
	// From
	fr := c.get(st, m, "From")
	l, ok := loc1(st, fr)
	if st.nilness(fr) == 1 {
		c.fail("filled", pos, who+" From", "%s: the request written has no From", s.name)
	} else if !ok {
		c.unsure("%s: From not resolved", s.name)
	} else {
		pt := structFieldType(l.O.Type, "Param")
		old := nilVal
		if s.have["From"] {
			o, _ := loc1(st0, c.get(st0, m, "From"))
			for _, f := range structFields(o.O.Type) {
				if f.Name() == "Param" {
					continue
				}
				c.wantSame("kept", pos, who+" From "+f.Name(), st, st0, c.get(st, l.O, f.Name()), c.get(st0, o.O, f.Name()), f.Type())
			}
			old = c.get(st0, o.O, "Param")
			c.tagged(s, pos, who+" From", "tag", false, st, st0, c.get(st, l.O, "Param"), old, pt)
		} else {
			p := c.get(st, l.O, "Param")
			if v, n := paramOf(st, p, "tag", pt); n == 1 {
				c.fail("filled", pos, who+" From", "%s: the From written has no tag", s.name)
			} else if n == 2 {
				if q, ok := loc1(st, v); ok {
					if x := st.load(Loc{q.O, q.Path + ".Value"}, tString); x.isConstStr() {
						c.fail("filled", pos, who+" From", "%s: the From written has the tag %s", s.name, render(x))
					}
				}
			} else if st.nilness(p) == 1 {
				c.fail("filled", pos, who+" From", "%s: the From written has no tag", s.name)
			} else {
				c.unsure("%s: tag of From not resolved: %s", s.name, render(p))
			}
		}
	}
	// the transport's own identity is not changed
	if tp != nil {
		for _, f := range []string{"Via", "Contact"} {
			g, w := c.get(st, tp, f), c.get(st0, tp, f)
			c.wantSame("own", pos, "transport's own "+f, st, st0, g, w, structFieldType(tp.Type, f))
			o, _ := loc1(st0, w)
			for _, ff := range structFields(o.O.Type) {
				gv := st.load(Loc{o.O, "." + ff.Name()}, ff.Type())
				wv := st0.load(Loc{o.O, "." + ff.Name()}, ff.Type())
				if ff.Name() == "Param" {
					if st.nilness(gv) != 1 && !valEq(gv, wv) {
						if l, ok := loc1(st, gv); ok && !l.O.Input {
							c.fail("own", pos, "transport's own "+f+" "+ff.Name(), "%s: sending a request adds parameter %s to the transport's own %s, so later requests carry it too", s.name, render(st.load(Loc{l.O, l.Path + ".Name"}, tString)), f)
							continue
						}
					}
				}
				c.wantSame("own", pos, "transport's own "+f+" "+ff.Name(), st, st0, gv, wv, ff.Type())
			}
		}
	}
}

// bounded: the hop limit is the wanted one, or one less (the hop being made).
func (c *Check) bounded(rule, pos, what string, st, st0 *State, m *Obj, want Val) {
	got := c.get(st, m, "MaxForwards")
	c.count("values_compared", 1)
	if want.isConstInt() && want.N == 0 {
		want = c.get(st0, m, "MaxForwards")
	}
	for _, w := range []Val{want, st.addv(want, iconst(-1))} {
		if valEq(got, w) {
			return
		}
	}
	if r, _ := same(st, st0, got, want, tInt); r == no {
		c.fail(rule, pos, what, "%s is %s when written, must be %s", what, render(got), render(want))
	} else {
		c.unsure("%s not resolved: %s against %s", what, render(got), render(want))
	}
}

// tagged: a parameter list is the caller's if that has the parameter, else
// the parameter with a generated value in front of it.
func (c *Check) tagged(s popScen, pos, what, name string, fresh bool, st, st0 *State, got, old Val, pt types.Type) {
	c.count("values_compared", 1)
	po, n := paramOf(st, old, name, pt)
	if st.nilness(old) == 1 {
		n = 1
	}
	pg, gn := paramOf(st, got, name, pt)
	if gn == 1 || gn == 0 && st.nilness(got) == 1 {
		c.fail("filled", pos, what+" "+name, "%s: the %s written has no %s", s.name, what, name)
		return
	}
	switch n {
	case 2:
		if fresh {
			l, ok := loc1(st, po)
			if !ok || !valEq(got, old) {
				c.unsure("%s: %s parameters not resolved", s.name, what)
				return
			}
			v := st.load(Loc{l.O, l.Path + ".Value"}, tString)
			if v.isConstStr() || valEq(v, st0.load(Loc{l.O, l.Path + ".Value"}, tString)) {
				c.fail("filled", pos, what+" "+name, "%s: the %s is not a fresh one: %s", s.name, name, render(v))
			}
			return
		}
		c.wantSame("kept", pos, what+" parameters", st, st0, got, old, pt)
		if l, ok := loc1(st, po); ok {
			c.wantSame("kept", pos, what+" "+name, st, st0, st.load(Loc{l.O, l.Path + ".Value"}, tString), st0.load(Loc{l.O, l.Path + ".Value"}, tString), tString)
		}
	case 1:
		if gn != 2 {
			c.unsure("%s: %s %s not resolved: %s", s.name, what, name, render(got))
			return
		}
		if l, ok := loc1(st, pg); ok {
			v := st.load(Loc{l.O, l.Path + ".Value"}, tString)
			if v.isConstStr() || !strings.HasPrefix(renderSym(v.S), "Generate") && definiteLeaf(v.S) {
				c.fail("filled", pos, what+" "+name, "%s: the %s filled in is %s, must be generated", s.name, name, render(v))
			}
			if valEq(pg, got) {
				nx := st.load(Loc{l.O, l.Path + ".Next"}, pt)
				if st.nilness(old) == 1 && st.nilness(nx) == 1 {
					return
				}
				c.wantSame("kept", pos, what+" other parameters", st, st0, nx, old, pt)
			}
		}
	default:
		if valEq(got, old) {
			c.fail("filled", pos, what+" "+name, "%s: the parameters written are the caller's whether or not they have a %s", s.name, name)
		} else if l, ok := loc1(st, got); ok && !l.O.Input {
			c.fail("kept", pos, what+" "+name, "%s: a %s is put in front whether or not the caller supplied one", s.name, name)
		} else {
			c.unsure("%s: %s parameters not resolved: %s, old %s", s.name, what, render(got), render(old))
		}
	}
}

var _ = fmt.Sprint
