package main

import "go/token"

func init() {
	register("D14", "Every path of the steps on a refusal (in each form the network library wraps it in), a timeout and a 503 is followed, from unanswered states with 0 to 2 destinations left: with destinations left the INVITE is written to the next one without an error or end, otherwise an error is delivered and the call ends. The refusal test itself is interpreted on each wrapped form and on other errors.", checkD14)
	register("D08", "Every path of the timer steps is followed: with retransmissions left the pending request (or unacknowledged answer) is written once, its count grows and its timer is armed again; with none left a remaining destination is consumed or the call ends with an error. Starting a request resets the count and arms the timer. Every redirect that is followed increases a counter that a comparison bounds and no other step sets back.", checkD08)
}

// ---- D14 ----

func checkD14(c *Check) {
	c.refusedRule()
	var cases []stepCase
	evs := []stepEvent{
		{name: "refusal", kind: "err", err: "refused"},
		{name: "refusal (unwrapped)", kind: "err", err: "refused bare"},
		{name: "timeout", kind: "reqtimer", max: true},
		reply(503, 503, true, ""), reply(503, 503, false, ""),
	}
	for _, s := range []stepState{sProceeding, sRinging} {
		for n := 0; n <= 2; n++ {
			for _, ev := range evs {
				if s.noTimer && ev.kind == "reqtimer" {
					continue
				}
				cases = append(cases, stepCase{withRoutes(s, n), ev})
			}
		}
	}
	c.steps(cases, func(r *stepRun) {
		n := r.s.routes
		for _, o := range r.outs {
			if o.has("writefail") {
				continue
			}
			fails := len(o.acts("openfail"))
			var invites []act
			for _, a := range o.acts("write") {
				if a.what() == "INVITE" {
					invites = append(invites, a)
				}
			}
			if fails >= n {
				if len(invites) > 0 {
					r.bad("none-left", o, "the INVITE is sent again although no destination is left")
				}
				if o.end != "return" || !o.has("err") {
					r.bad("none-left", o, "no destination is left but the call does not end with an error")
				}
				continue
			}
			if r.s.loose && fails > 0 {
				continue
			}
			if o.has("err") || o.end != "loop" {
				r.bad("next", o, "%d destinations are left but the call ends or reports an error", n-fails)
				continue
			}
			if o.has("state") || o.has("peer") {
				r.bad("next", o, "moving on to the next destination is reported as progress")
			}
			if len(invites) != 1 {
				r.bad("next", o, "the INVITE is sent %d times to the next destination", len(invites))
				continue
			}
			want := r.lefts[fails]
			for _, a := range o.acts("dial") {
				if definiteText(a.val) && !valEq(a.val, want) {
					r.bad("next", o, "the call contacts %s instead of the next destination %s", render(a.val), render(want))
				}
			}
			if len(o.acts("dial")) == 0 {
				if a := c.get(o.st, r.d, "addr"); definiteText(a) && !valEq(a, want) {
					r.bad("next", o, "the call contacts %s instead of the next destination", render(a))
				}
			}
			r.started(o.st, o, "next")
			l, ok := listOf(o.st, c.get(o.st, r.d, "routes"), structFieldType(r.d.Type, "routes"))
			if ok && len(l) != n-1-fails {
				r.bad("next", o, "%d destinations remain of %d", len(l), n)
			}
		}
	})
	c.failoverHistories()
}

// started: the pending request has all its retransmissions before it.
func (r *stepRun) started(st *State, o stepOut, rule string) {
	if n := r.c.get(st, r.d, "requestResends"); n.isConstInt() && n.N != 0 || definiteText(n) && n.S != 0 {
		r.bad(rule, o, "the count of retransmissions starts at %s", render(n))
	}
	if t := r.c.get(st, r.d, "requestTimer"); st.nilness(t) == 1 {
		r.bad(rule, o, "no retransmission is scheduled")
	}
}

func (c *Check) failoverHistories() {
	refused := stepEvent{name: "refusal", kind: "err", err: "refused"}
	timeout := stepEvent{name: "timeout", kind: "reqtimer", max: true}
	gone := reply(503, 503, true, "")
	for _, h := range []struct {
		n   int
		evs []stepEvent
	}{
		{1, []stepEvent{refused, refused}},
		{2, []stepEvent{refused, gone}},
		{2, []stepEvent{gone, refused, gone}},
		{2, []stepEvent{timeout, gone, refused}},
		{1, []stepEvent{gone, gone}},
	} {
		r := c.stepSeq(withRoutes(sProceeding, h.n), h.evs, false)
		if r.gaveUp {
			continue
		}
		seen := false
		for _, o := range r.outs {
			if !o.clean() {
				continue
			}
			seen = true
			invites := 0
			for _, a := range o.acts("write") {
				if a.what() == "INVITE" {
					invites++
				}
			}
			want, end := len(h.evs), "loop"
			if want > h.n {
				want, end = h.n, "return"
			}
			if o.end != end {
				r.bad("history", o, "after %d failures with %d destinations left the call %s", len(h.evs), h.n, map[string]string{"loop": "goes on", "return": "has ended", "block": "hangs"}[o.end])
			} else if invites != want {
				r.bad("history", o, "the INVITE is sent to %d of %d destinations", invites, want)
			}
		}
		if !seen {
			c.unsure("%s: no path through the history was found", r.label())
		}
	}
}

// refusedRule: the refusal test on every form of error.
func (c *Check) refusedRule() {
	fn := c.fn("util.IsRefused")
	if fn == nil {
		return
	}
	c.analysed(fn)
	for kind, want := range map[string]bool{"refused": true, "refused bare": true, "other": false, "other bare": false} {
		e := c.engine()
		e.concrete, e.paths = true, true
		e.intrinsics["errors.Is"] = errorsIs
		rs := e.run(fn, func(st *State, a []Val) []Val {
			v := c.netError(e, st, kind)
			st.setMonVal("$err", v)
			return []Val{v}
		})
		if c.gaveUp(e, "util.IsRefused") {
			continue
		}
		for _, x := range rs {
			v, ok := x.st.evalCond(x.v)
			if !ok && x.v.K == KBool && x.v.S == 0 {
				v, ok = x.v.N != 0, true
			}
			if !ok {
				c.unsure("util.IsRefused on %s: result not resolved", kind)
			} else if v != want {
				c.fail("refused", c.p.pos(fn.Pos()), "util.IsRefused on "+kind, "a network error (%s) counts as refusal: %v", map[string]string{"refused": "ECONNREFUSED as the os package wraps it", "refused bare": "ECONNREFUSED", "other": "another error as the os package wraps it", "other bare": "another error"}[kind], v)
			}
		}
		c.count("error forms", 1)
	}
}

// ---- D08 ----

func checkD08(c *Check) {
	if !c.stepReady() {
		return
	}
	first := true
	c.onStart = func(r *stepRun, st *State) {
		if !first {
			return
		}
		first = false
		o := stepOut{st: st, end: "start"}
		r.started(st, o, "start")
	}
	var cases []stepCase
	for _, max := range []bool{false, true} {
		t := stepEvent{name: "timer", kind: "reqtimer", max: max}
		u := stepEvent{name: "response timer", kind: "resptimer", max: max}
		if max {
			t.name += ", retransmissions used up"
			u.name += ", retransmissions used up"
		}
		for n := 0; n <= 2; n++ {
			cases = append(cases, stepCase{withRoutes(sProceeding, n), t}, stepCase{withRoutes(sEnding, n), t}, stepCase{withRoutes(sReinvited, n), u})
		}
		cases = append(cases, stepCase{stepState{name: "proceeding, loose", state: 0, loose: true}, t})
	}
	c.steps(cases, func(r *stepRun) {
		cnt, tm := "requestResends", "requestTimer"
		want := "INVITE"
		if r.s.bye {
			want = "BYE"
		}
		if r.ev.kind == "resptimer" {
			cnt, tm, want = "responseResends", "responseTimer", "200"
		}
		for _, o := range r.outs {
			if o.has("writefail") {
				continue
			}
			ws := o.acts("write")
			if !r.ev.max {
				if o.end != "loop" || o.has("err") {
					r.bad("retransmit", o, "the call does not go on although retransmissions are left")
					continue
				}
				if len(ws) != 1 || ws[0].what() != want {
					r.bad("retransmit", o, "%d messages are written instead of one %s", len(ws), want)
					continue
				}
				old, now := c.get(r.st0, r.d, cnt), c.get(o.st, r.d, cnt)
				if v, ok := o.st.evalCond(cond(token.LSS, old, now)); ok && !v {
					r.bad("count", o, "the retransmission is not counted")
				} else if !ok {
					c.unsure("%s: %s after the retransmission is not resolved", r.label(), cnt)
				}
				r.rearmed(o, tm)
				continue
			}
			l, ok := listOf(o.st, c.get(o.st, r.d, "routes"), structFieldType(r.d.Type, "routes"))
			switch o.end {
			case "loop":
				if !ok {
					c.unsure("%s: remaining destinations not resolved", r.label())
				} else if len(l) >= r.s.routes {
					r.bad("progress", o, "all retransmissions are used up but the call goes on without consuming a destination")
				}
				if r.ev.kind == "reqtimer" {
					r.started(o.st, o, "progress")
					r.rearmed(o, tm)
					if len(ws) != 1 || ws[0].what() != want {
						r.bad("progress", o, "%d messages are written to the next destination instead of one %s", len(ws), want)
					}
				}
			case "return":
				if !o.has("err") {
					r.bad("progress", o, "the call ends without an error")
				}
				if len(o.acts("openfail")) < r.s.routes && r.ev.kind == "reqtimer" {
					r.bad("progress", o, "the call ends with destinations left")
				}
			default:
				r.bad("progress", o, "the call hangs")
			}
		}
	})
	// answering a re-INVITE starts its retransmission, the ACK ends it
	for _, s := range []stepState{sAnswered, sReinvited, sEnding} {
		inv, ack := ask("INVITE", "any", 1, "", ""), ask("ACK", "any", 1, "", "")
		for _, evs := range [][]stepEvent{{inv}, {inv, ack}} {
			r := c.stepSeq(s, evs, false)
			if r.gaveUp {
				continue
			}
			for _, o := range r.outs {
				if !o.clean() || o.end != "loop" {
					continue
				}
				t := o.st.nilness(c.get(o.st, r.d, "responseTimer"))
				p := o.st.nilness(c.get(o.st, r.d, "response"))
				if len(evs) == 1 {
					if n := c.get(o.st, r.d, "responseResends"); n.isConstInt() && n.N != 0 || definiteText(n) && n.S != 0 {
						r.bad("answer", o, "the count of retransmissions starts at %s", render(n))
					}
					if t == 1 || p == 1 {
						r.bad("answer", o, "no retransmission of the answer is scheduled")
					}
				} else if t == 2 && p == 2 {
					r.bad("answer", o, "the answer is still retransmitted after its ACK")
				}
			}
		}
	}
	c.redirectBound()
}

// rearmed: the timer is one armed in this step.
func (r *stepRun) rearmed(o stepOut, field string) {
	v := r.c.get(o.st, r.d, field)
	l, ok := loc1(o.st, v)
	switch {
	case o.st.nilness(v) == 1:
		r.bad("timer", o, "the timer is not armed again")
	case ok && r.chans[l.O] == field:
		r.bad("timer", o, "the timer that has fired is not replaced")
	case !ok:
		r.c.unsure("%s: the timer is not resolved", r.label())
	}
}

// redirectBound: following a redirect uses up a bounded counter.
func (c *Check) redirectBound() {
	var counters map[string]bool
	pos, what := "", ""
	for _, s := range []stepState{sProceeding, sTrying, sRinging, withRoutes(sProceeding, 1)} {
		for _, n := range []int64{301, 302} {
			r := c.step(s, reply(n, n, true, ""), false)
			if r.gaveUp {
				return
			}
			for _, o := range r.outs {
				if o.end != "loop" || !o.clean() {
					continue
				}
				grow := map[string]bool{}
				for _, f := range structFields(r.d.Type) {
					if !isInt(f.Type()) {
						continue
					}
					switch f.Name() {
					case "state", "lseq", "rseq", "requestResends", "responseResends":
						continue
					}
					old, now := c.get(r.st0, r.d, f.Name()), c.get(o.st, r.d, f.Name())
					up, ok := o.st.evalCond(cond(token.LSS, old, now))
					_, hi := o.st.rng(now)
					if ok && up && hi < 100000 {
						grow[f.Name()] = true
					}
					dn, ok := o.st.evalCond(cond(token.LSS, now, old))
					lo, _ := o.st.rng(now)
					if ok && dn && lo > -100000 {
						grow[f.Name()] = true
					}
				}
				if counters == nil {
					counters = grow
					pos, what = r.pos(o), r.label()
				}
				for k := range counters {
					if !grow[k] {
						delete(counters, k)
					}
				}
				if len(counters) == 0 {
					r.bad("redirects", o, "a redirect is followed without using up a bounded count: the call can be redirected for ever")
					return
				}
			}
		}
	}
	if counters == nil {
		c.unsure("no path follows a redirect")
		return
	}
	_, _ = pos, what
	for _, x := range everyStep() {
		if x.ev.msg.status == [2]int64{301, 301} || x.ev.msg.status == [2]int64{302, 302} {
			continue
		}
		r := c.step(x.s, x.ev, false)
		if r.gaveUp {
			continue
		}
		for _, o := range r.outs {
			if o.end != "loop" {
				continue
			}
			kept := false
			for f := range counters {
				kept = kept || valEq(c.get(o.st, r.d, f), c.get(r.st0, r.d, f))
			}
			if !kept {
				r.bad("redirects", o, "the count of redirects followed changes in another step")
			}
		}
	}
}
