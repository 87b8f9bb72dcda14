package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("D01", "Every index, slice, nil dereference, type assertion, send and close reached while a call handles an arbitrary message, error, timer or hang-up, while the receiver handles a datagram, and while a reply built from a delivered message is completed, routed, timestamped and written out, is an obligation that must be discharged on every abstract path. Messages are arbitrary within what the parser and receiver guarantee (see S04, D15): a Via, a URI in every address, route sets of 0 to 4 elements at the receiver, no payload or a payload of a known type.", checkD01)
}

// partsOfMessages: what the parser stores is never half there (S04).
func (c *Check) parserGuarantees() {
	uri := c.p.typ("sip.URI")
	typeInvariant = func(x Sym, si *symInfo) *Fact {
		if si.Op != "init" || uri == nil || !strings.HasSuffix(si.L.Path, ".Uri") {
			return nil
		}
		if p, ok := si.T.(*types.Pointer); ok && types.Identical(p.Elem(), uri) {
			return &Fact{Nil: 2}
		}
		return nil
	}
	c.assumption("every address the parser stores has a URI (S04) and the receiver drops messages without Via (D15)")
}

// crashes turns the unproven obligations of a run into findings.
func (c *Check) crashes(e *Engine, what string) {
	if e.gaveUp != "" {
		c.unsure("%s: %s", what, e.gaveUp)
		return
	}
	c.obligations(e, "crash", func(o *Obligation) bool {
		// a caller misusing the library, not a message
		return o.Kind == "panic" || strings.Contains(o.Msg, "rec:")
	})
	c.panics(e, what)
}

// panics reports explicit panics that are reached.
func (c *Check) panics(e *Engine, what string) {
	for _, k := range sortedKeys(e.obls) {
		o := e.obls[k]
		if o.Kind == "panic" && !o.OK && !strings.HasPrefix(fnName(o.Fn), "util.") {
			c.fail("panic", c.p.pos(o.Pos), fnName(o.Fn)+": "+o.Msg, "%s in %s: %s", o.Msg, fnName(o.Fn), what)
		}
	}
}

func checkD01(c *Check) {
	c.rules = append(c.rules, "crash", "panic", "socket")
	c.parserGuarantees()
	defer func() { typeInvariant = nil }()
	if c.stepReady() {
		loose := stepState{name: "answered, loose", state: 2, answered: true, noTimer: true, loose: true}
		for _, s := range append(allStates(), withRoutes(sProceeding, 2), withRoutes(sEnding, 1), loose) {
			for _, p := range []string{"", "misc", "sdp"} {
				r := c.step(s, stepEvent{name: "any message", kind: "msg", msg: peerMsg{arbitrary: true, payload: p}}, true)
				c.crashes(r.e, s.name+": any message")
			}
			for _, ev := range []stepEvent{{name: "hang-up", kind: "hangup"}, {name: "refusal", kind: "err", err: "refused"}, {name: "socket error", kind: "err", err: "other"}, {name: "second socket's error", kind: "cerr", err: "other"}, {name: "timer", kind: "reqtimer"}, {name: "timer", kind: "reqtimer", max: true}, {name: "response timer", kind: "resptimer"}, {name: "response timer", kind: "resptimer", max: true}} {
				if ev.kind == "cerr" && !s.loose || ev.kind == "reqtimer" && s.noTimer || ev.kind == "resptimer" && !s.response {
					continue
				}
				r := c.step(s, ev, true)
				c.crashes(r.e, s.name+": "+ev.name)
			}
		}
		c.steps(everyStep(), func(r *stepRun) {
			c.crashes(r.e, r.label())
			for _, o := range r.outs {
				if o.end != "loop" {
					continue
				}
				c.count("loop states checked", 1)
				for _, f := range []string{"sock", "request", "invite"} {
					if o.st.nilness(c.get(o.st, r.d, f)) == 1 {
						r.bad("socket", o, "the call goes on without %s", f)
					}
				}
				// a BYE is addressed to the other party's contact
				if l, ok := loc1(o.st, c.get(o.st, r.d, "remote")); ok && hasField(l.O.Type, "Contact") {
					if o.st.nilness(o.st.load(Loc{l.O, l.Path + ".Contact"}, msgField(r.rem, "Contact"))) == 1 {
						r.bad("socket", o, "the call goes on with a dialog partner without Contact, to which no BYE can be addressed")
					}
				}
			}
		})
	}
	c.receiverCrash()
	c.replyCrash()
}

// receiverCrash: datagrams of any kind.
func (c *Check) receiverCrash() {
	fn, parse := c.fn("dialog.ReceiveMessages"), c.fn("sip.ParseMsg")
	if fn == nil || parse == nil {
		return
	}
	// route sets are walked element by element: one run for each length
	for n := 0; n <= 4; n++ {
		n, p := n, []string{"", "misc", "sdp"}[n%3]
		e := c.dlgEngine()
		var m *Obj
		e.intrinsics[parse.String()] = func(e *Engine, cc *callCtx) []callRes {
			if _, again := cc.st.monVal("$parsed"); again {
				return nil // nothing is kept from one datagram to the next
			}
			cc.st.setMonVal("$parsed", bconst(true))
			b := cc.st.clone()
			return []callRes{{cc.st, tuple(ptrTo(m), nilVal)}, {b, tuple(nilVal, e.errVal(b, "ParseMsg"))}}
		}
		e.run(fn, func(st *State, a []Val) []Val {
			m = c.input("msg", "sip.Msg")
			v, _ := c.list(st, "msg.Route", "sip.Addr", n)
			c.set(st, m, "Route", v)
			if !c.payload(st, m, m.Name, p) {
				c.set(st, m, "Payload", nilVal)
			}
			st.setMonVal("$msg", ptrTo(m))
			for _, v := range a {
				st.assumeNil(v, false)
			}
			return a
		})
		c.crashes(e, "receiver")
		c.count("receivers analysed", 1)
	}
}

// replyCrash: replies to, and requests derived from, delivered messages.
func (c *Check) replyCrash() {
	mt := c.p.typ("sip.Msg")
	tt := c.p.typ("dialog.Transport")
	if mt == nil || tt == nil {
		return
	}
	app := c.fn("sip.Msg.Append")
	for _, p := range []string{"", "misc", "sdp"} {
		if app != nil {
			e := c.engine()
			e.run(app, func(st *State, a []Val) []Val {
				m := c.input("delivered", "sip.Msg")
				if !c.payload(st, m, "delivered", p) {
					c.set(st, m, "Payload", nilVal)
				}
				st.assumeNil(a[1], false)
				return []Val{ptrTo(m), a[1]}
			})
			c.crashes(e, "writing a message with payload "+p)
			c.count("writers analysed", 1)
		}
	}
	for _, n := range []string{"NewResponse", "ResponseMatch", "AckMatch", "RouteMessage", "PopulateMessage", "Transport.Send"} {
		fn := c.fn("dialog." + n)
		if fn == nil {
			continue
		}
		e := c.dlgEngine()
		e.concrete, e.paths = false, false
		e.run(fn, func(st *State, a []Val) []Val {
			for i, p := range fn.Params {
				pt, ok := p.Type().(*types.Pointer)
				if !ok {
					continue
				}
				nm := fmt.Sprintf("%s.%s", n, p.Name())
				if !types.Identical(pt.Elem(), mt) {
					st.assumeNil(a[i], false)
					if types.Identical(pt.Elem(), tt) {
						tp := c.input(nm, "dialog.Transport")
						for _, f := range []string{"Sock", "Via", "Contact"} {
							v := psym(leaf(nm+"."+f, structFieldType(tp.Type, f)))
							st.assumeNil(v, false)
							c.set(st, tp, f, v)
						}
						a[i] = ptrTo(tp)
					}
					continue
				}
				m := c.input(nm, "sip.Msg")
				v := psym(leaf(nm+".Via", msgField(m, "Via")))
				st.assumeNil(v, false)
				c.set(st, m, "Via", v)
				switch n {
				case "RouteMessage", "PopulateMessage", "Transport.Send":
					// a reply
					x := leaf(nm+".Status", tInt)
					st.setLo(x, 1)
					c.set(st, m, "Status", isym(x))
				}
				a[i] = ptrTo(m)
			}
			return a
		})
		c.crashes(e, n)
		c.count("functions on delivered messages", 1)
	}
}
