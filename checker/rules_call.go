package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// Rules about one step of a call: every kind of event in every kind of state.

func init() {
	register("D05", "Every step of the call's loop on a final response to the INVITE is interpreted from each kind of state (unanswered, ringing, answered, after an early re-INVITE), for the status ranges 200, 201-299, 300-302, 303-699 and with or without Contact and session description. On every path on which sending works, the first visible action is the write of an ACK with the INVITE's sequence number and Call-ID and the response's To, and it is the only one; on provisional and mismatching responses, responses to a BYE, requests, timers, errors and hang-ups no ACK is written.", checkD05)
	register("D06", "Every step of the call's loop on a request (BYE, OPTIONS, INVITE, ACK, any other) or response, in order or old, with or without hops left, of this or another Call-ID or version, is interpreted from each kind of state; the messages written on every path are compared with the answer the protocol mandates and with the request's echoed fields.", checkD06)
	register("D07", "Every step of the call's loop on a message that is not the call's (response with another sequence number, method, bottom Via host, port or branch, or any message with another Call-ID, also in another version) is interpreted from each kind of state: afterwards the loop continues, nothing was reported, written (except the 481 to a foreign request), armed or closed, and every field of the call's state and its INVITE has the value it had.", checkD07)
	register("D04", "Every path of every step that leaves the call's loop, and of its beginning, contains the delivery of an error or of the state hung-up before the first close of an owner's channel.", checkD04)
	register("D13", "For every status class and request, the values delivered on the state and peer channels on every path of a step are compared with the required ones.", checkD13)
	register("D16", "Every path of a hang-up step is compared with the required writes: exactly a CANCEL for the INVITE before an answer, exactly a BYE with a higher sequence number, which becomes the last used one, afterwards; the loop continues.", checkD16)
}

type stepCase struct {
	s  stepState
	ev stepEvent
}

var (
	sProceeding = stepState{name: "proceeding", state: 0}
	sTrying     = stepState{name: "proceeding after a provisional response", state: 0, noTimer: true}
	sRinging    = stepState{name: "ringing", state: 1, noTimer: true}
	sAnswered   = stepState{name: "answered", state: 2, answered: true, noTimer: true}
	sReinvited  = stepState{name: "answered with a re-INVITE unacknowledged", state: 2, answered: true, noTimer: true, response: true}
	sEnding     = stepState{name: "answered with a BYE pending", state: 2, answered: true, bye: true}
)

func unanswered() []stepState { return []stepState{sProceeding, sTrying, sRinging} }
func allStates() []stepState {
	return append(unanswered(), sAnswered, sReinvited, sEnding)
}

func withRoutes(s stepState, n int) stepState {
	s.routes = n
	s.name += fmt.Sprintf(", %d destinations left", n)
	return s
}

// reply is a response that matches the pending request.
func reply(lo, hi int64, contact bool, payload string) stepEvent {
	n := fmt.Sprint(lo)
	if hi != lo {
		n += fmt.Sprintf("-%d", hi)
	}
	n = "response " + n
	if !contact {
		n += " without Contact"
	}
	if payload != "" {
		n += " with " + payload
	}
	return stepEvent{name: n, kind: "msg", msg: peerMsg{status: [2]int64{lo, hi}, contact: contact, payload: payload}}
}

func foreignReply(status int64, how string) stepEvent {
	ev := reply(status, status, true, "audio")
	ev.name += " with another " + map[string]string{"cseq": "sequence number", "method": "method", "host": "Via host", "port": "Via port", "branch": "branch", "nobranch": "branch (none)", "top": "bottom Via", "callid": "Call-ID", "callid+version": "Call-ID and version"}[how]
	ev.msg.mismatch = how
	if how == "top" {
		ev.msg.vias = 2
	}
	return ev
}

func ask(method, cseq string, hops int64, mismatch, payload string) stepEvent {
	n := method
	if method == "*" {
		n = "other request"
	}
	switch {
	case hops == 0:
		n += " with no hops left"
	case hops < 0:
		n += " with negative hops"
	}
	if cseq == "lt" {
		n += " out of order"
	}
	if mismatch != "" {
		n += " with another " + map[string]string{"callid": "Call-ID", "callid+version": "Call-ID and version", "version": "version", "minor": "minor version"}[mismatch]
	}
	if payload != "" {
		n += " with " + payload
	}
	return stepEvent{name: n, kind: "msg", msg: peerMsg{method: method, cseq: cseq, hops: hops, mismatch: mismatch, contact: true, payload: payload}}
}

func (o stepOut) has(kind string) bool {
	for _, a := range o.trace {
		if a.kind == kind {
			return true
		}
	}
	return false
}

func (o stepOut) acts(kinds ...string) (r []act) {
	for _, a := range o.trace {
		for _, k := range kinds {
			if a.kind == k {
				r = append(r, a)
			}
		}
	}
	return
}

// clean: nothing the call does to the network fails on this path.
func (o stepOut) clean() bool {
	return !o.has("writefail") && !o.has("openfail") && !strings.Contains(o.st.mon.Key, "RF")
}

func (r *stepRun) pos(o stepOut) string {
	for _, a := range o.trace {
		if a.kind != "timer" && a.in != nil && a.in.Pos() != token.NoPos {
			return pos2(r.c, a.in)
		}
	}
	return r.c.p.pos(r.c.p.fn("dialog.dialogState.run").Pos())
}

func (r *stepRun) label() string { return r.s.name + ", " + r.ev.name }

// reports a path of the step that breaks the rule.
func (r *stepRun) bad(rule string, o stepOut, format string, a ...any) {
	r.c.fail(rule, r.pos(o), r.label(), "%s: %s (path:%s)", r.label(), fmt.Sprintf(format, a...), o)
}

func (c *Check) steps(cases []stepCase, f func(r *stepRun)) {
	if !c.stepReady() {
		return
	}
	for _, x := range cases {
		r := c.step(x.s, x.ev, false)
		if r.gaveUp {
			continue
		}
		if len(r.outs) == 0 {
			c.unsure("%s: no path through the step was found", r.label())
			continue
		}
		f(r)
	}
}

// ---- D05 ----

func checkD05(c *Check) {
	var must, mustNot []stepCase
	for _, s := range append(unanswered(), sAnswered, sReinvited, withRoutes(sProceeding, 2)) {
		for _, q := range [][2]int64{{200, 200}, {201, 299}, {300, 300}, {301, 301}, {302, 302}, {303, 502}, {503, 503}, {504, 699}} {
			must = append(must, stepCase{s, reply(q[0], q[1], true, "")})
		}
		must = append(must, stepCase{s, reply(200, 200, true, "audio")})
		for _, q := range [][2]int64{{200, 200}, {302, 302}, {404, 404}, {503, 503}} {
			must = append(must, stepCase{s, reply(q[0], q[1], false, "")})
		}
	}
	for _, s := range allStates() {
		for _, q := range [][2]int64{{100, 100}, {101, 179}, {180, 180}, {183, 183}, {184, 199}} {
			mustNot = append(mustNot, stepCase{s, reply(q[0], q[1], true, "")})
		}
		for _, how := range []string{"cseq", "method", "host", "port", "branch", "nobranch", "callid"} {
			mustNot = append(mustNot, stepCase{s, foreignReply(200, how)}, stepCase{s, foreignReply(486, how)})
		}
		for _, m := range []string{"BYE", "OPTIONS", "INVITE", "ACK", "*"} {
			mustNot = append(mustNot, stepCase{s, ask(m, "gt", 1, "", "")})
		}
		mustNot = append(mustNot, stepCase{s, stepEvent{name: "hang-up", kind: "hangup"}})
	}
	for _, q := range [][2]int64{{200, 200}, {300, 302}, {303, 699}} {
		mustNot = append(mustNot, stepCase{sEnding, reply(q[0], q[1], true, "")})
	}
	mustNot = append(mustNot, stepCase{sProceeding, stepEvent{name: "timer", kind: "reqtimer"}}, stepCase{sReinvited, stepEvent{name: "response timer", kind: "resptimer"}})
	c.steps(must, func(r *stepRun) {
		for _, o := range r.outs {
			var acks []act
			for _, a := range o.acts("write") {
				if a.what() == "ACK" {
					acks = append(acks, a)
				}
				if a.what() == "?" {
					c.unsure("%s: the message written is not known", r.label())
					return
				}
			}
			if len(acks) == 0 {
				if !o.has("writefail") {
					r.bad("ack", o, "a final response to the INVITE is not acknowledged")
				}
				continue
			}
			if o.clean() && len(acks) > 1 {
				r.bad("ack", o, "the response is acknowledged %d times", len(acks))
			}
			for _, a := range o.trace {
				if a.kind == "write" && a.what() == "ACK" {
					break
				}
				switch a.kind {
				case "state", "peer", "err", "write", "close", "sockclose", "dial", "block":
					r.bad("first", o, "%s happens before the response is acknowledged", a)
				}
			}
			a := acks[0]
			for _, f := range []string{"CSeq", "CallID"} {
				c.wantSame("content", pos2(c, a.in), "ACK's "+f+" on "+r.ev.name, a.st, r.st0, c.get(a.st, a.msg, f), c.get(r.st0, r.invite, f), msgField(r.invite, f))
			}
			c.wantSame("content", pos2(c, a.in), "ACK's To on "+r.ev.name, a.st, r.st0, c.get(a.st, a.msg, "To"), c.get(r.st0, r.msg, "To"), msgField(r.msg, "To"))
			if m := c.get(a.st, a.msg, "CSeqMethod"); m.isConstStr() && m.Str != "ACK" {
				r.bad("content", o, "the ACK's sequence number line names %s", m.Str)
			}
		}
	})
	c.steps(mustNot, func(r *stepRun) {
		for _, o := range r.outs {
			for _, a := range o.acts("write") {
				if a.what() == "ACK" {
					r.bad("only", o, "an ACK is sent")
				}
			}
		}
	})
}

// ---- D06 ----

func checkD06(c *Check) {
	var cases []stepCase
	for _, s := range allStates() {
		for _, m := range []string{"BYE", "OPTIONS", "INVITE", "ACK", "*"} {
			for _, q := range []string{"", "rseq0", "gt", "lt"} {
				cases = append(cases, stepCase{s, ask(m, q, 1, "", "")})
			}
			cases = append(cases, stepCase{s, ask(m, "gt", 0, "", "")}, stepCase{s, ask(m, "gt", -1, "", "")})
			for _, how := range []string{"callid", "version", "minor", "callid+version"} {
				cases = append(cases, stepCase{s, ask(m, "gt", 1, how, "")})
			}
			if m == "INVITE" {
				for _, p := range []string{"audio", "video", "audiovideo", "misc"} {
					cases = append(cases, stepCase{s, ask(m, "gt", 1, "", p)})
				}
			}
		}
		for _, st := range []int64{100, 180, 200, 302, 404, 503} {
			cases = append(cases, stepCase{s, reply(st, st, true, "")})
			for _, how := range []string{"cseq", "method", "branch", "callid", "callid+version"} {
				cases = append(cases, stepCase{s, foreignReply(st, how)})
			}
			ev := reply(st, st, true, "")
			ev.name += " in another version"
			ev.msg.mismatch = "version"
			cases = append(cases, stepCase{s, ev})
		}
	}
	if c.stepReady() {
		c.orderHistories()
	}
	// messages on the second socket are treated the same
	ev := ask("OPTIONS", "gt", 1, "", "")
	ev.kind = "cmsg"
	cases = append(cases, stepCase{stepState{name: "answered, loose", state: 2, answered: true, noTimer: true, loose: true}, ev})
	c.steps(cases, func(r *stepRun) {
		m := r.ev.msg
		want := []string{""}
		if m.status[0] == 0 {
			switch {
			case m.method == "ACK":
			case m.mismatch == "callid":
				want = []string{"481"}
			case m.mismatch == "callid+version":
				want = []string{"481", "505"}
			case m.mismatch != "":
				want = []string{"505"}
			case m.hops <= 0:
				want = []string{"483"}
			case m.cseq == "lt":
				want = []string{"500"}
			case m.method == "*":
				want = []string{"405"}
			default:
				want = []string{"200"}
			}
		}
		for _, o := range r.outs {
			var answers []act
			got := ""
			for _, a := range o.acts("write") {
				w := a.what()
				if w == "?" {
					c.unsure("%s: the message written is not known", r.label())
					return
				}
				if w[0] >= '0' && w[0] <= '9' {
					answers = append(answers, a)
					got = w
				}
				if m.status[0] == 0 && !(w[0] >= '0' && w[0] <= '9') {
					r.bad("answer", o, "the peer's request makes the call send %s", w)
				}
			}
			if want[0] == "" {
				if len(answers) > 0 {
					r.bad("unanswerable", o, "it is answered with %s", got)
				}
				continue
			}
			if len(answers) == 0 && !o.has("writefail") {
				r.bad("answer", o, "the request is not answered; required %s", want[0])
				continue
			}
			if len(answers) > 1 {
				r.bad("answer", o, "the request is answered %d times", len(answers))
			}
			ok := false
			for _, w := range want {
				ok = ok || w == got
			}
			if !ok {
				r.bad("status", o, "the request is answered with %s instead of %s", got, want[0])
			}
			for _, a := range answers {
				for _, f := range []string{"Via", "From", "To", "CallID", "CSeq", "CSeqMethod"} {
					c.wantSame("echo", pos2(c, a.in), "answer's "+f+" on "+r.ev.name, a.st, r.st0, c.get(a.st, a.msg, f), c.get(r.st0, r.msg, f), msgField(r.msg, f))
				}
			}
		}
	})
}

// orderHistories: a request older than the one before it is refused.
func (c *Check) orderHistories() {
	for _, s := range allStates() {
		for _, m := range []string{"OPTIONS", "INVITE", "*", "ACK"} {
			for _, q := range []string{"gt", "rseq0"} {
				r := c.stepSeq(s, []stepEvent{ask(m, q, 1, "", ""), ask("OPTIONS", "between", 1, "", "")}, false)
				if r.gaveUp {
					continue
				}
				for _, o := range r.outs {
					if !o.clean() || o.end == "block" {
						continue
					}
					ev := 0
					for _, a := range o.trace {
						if a.kind == "event" {
							ev++
						}
						if a.kind == "write" && ev == 1 && a.what() != "500" {
							r.bad("order", o, "a request older than the one before it is answered with %s instead of 500", a.what())
						}
					}
				}
			}
		}
	}
}

// ---- D07 ----

func checkD07(c *Check) {
	var cases []stepCase
	states := append(allStates(), withRoutes(sProceeding, 2), stepState{name: "answered, loose", state: 2, answered: true, noTimer: true, loose: true})
	for _, s := range states {
		for _, st := range []int64{100, 180, 183, 200, 302, 404, 503} {
			for _, how := range []string{"cseq", "method", "host", "port", "branch", "nobranch", "top", "callid", "callid+version"} {
				cases = append(cases, stepCase{s, foreignReply(st, how)})
			}
		}
		for _, m := range []string{"BYE", "OPTIONS", "INVITE", "ACK", "*"} {
			for _, how := range []string{"callid", "callid+version"} {
				for _, q := range []string{"", "gt", "lt", "rseq0"} {
					cases = append(cases, stepCase{s, ask(m, q, 1, how, "audio")})
				}
				cases = append(cases, stepCase{s, ask(m, "gt", 0, how, "audio")})
			}
		}
	}
	c.steps(cases, func(r *stepRun) {
		for _, o := range r.outs {
			if o.has("writefail") {
				continue
			}
			if o.end != "loop" {
				r.bad("ends", o, "it ends the call")
				continue
			}
			for _, a := range o.trace {
				switch a.kind {
				case "recv", "go":
				case "write":
					if r.ev.msg.status[0] > 0 || a.what() != "481" && a.what() != "505" {
						r.bad("acts", o, "it makes the call send %s", a.what())
					}
				default:
					r.bad("acts", o, "it causes %s", a)
				}
			}
			r.unchangedCall(o, "keeps")
		}
	})
}

// unchangedCall requires every field of the call and its INVITE to be kept.
func (r *stepRun) unchangedCall(o stepOut, rule string) {
	c := r.c
	for _, f := range structFields(r.d.Type) {
		n := f.Name()
		if n == "b" {
			continue
		}
		got, want := c.get(o.st, r.d, n), c.get(r.st0, r.d, n)
		if valEq(got, want) {
			continue
		}
		if t, _ := same(o.st, r.st0, got, want, f.Type()); t == yes {
			continue
		}
		if isInt(f.Type()) || f.Type() == tString {
			t, why := same(o.st, r.st0, got, want, f.Type())
			if t == no {
				r.bad(rule, o, "field %s of the call changes: %s", n, why)
			} else {
				c.unsure("%s: field %s of the call may change", r.label(), n)
			}
			continue
		}
		gn, wn := o.st.nilness(got), r.st0.nilness(want)
		gl, gok := loc1(o.st, got)
		wl, wok := loc1(r.st0, want)
		if gn != 0 && wn != 0 && gn != wn || gok && wok && gl != wl {
			r.bad(rule, o, "field %s of the call changes to %s", n, render(got))
		} else {
			c.unsure("%s: field %s of the call may change", r.label(), n)
		}
	}
	for _, m := range []*Obj{r.invite, r.bye} {
		if m == r.bye && !r.s.bye {
			continue
		}
		for _, f := range structFields(m.Type) {
			t, why := same(o.st, r.st0, c.get(o.st, m, f.Name()), c.get(r.st0, m, f.Name()), f.Type())
			if t == no {
				r.bad(rule, o, "%s of the pending request changes: %s", f.Name(), why)
			}
		}
	}
}

// ---- D04 ----

func everyStep() (cases []stepCase) {
	cases = append(cases, stepCase{stepState{name: "new call"}, stepEvent{name: "beginning", kind: "begin"}}, stepCase{stepState{name: "new call, loose", loose: true}, stepEvent{name: "beginning", kind: "begin"}})
	loose := stepState{name: "answered, loose", state: 2, answered: true, noTimer: true, loose: true}
	for _, s := range append(allStates(), withRoutes(sProceeding, 2), withRoutes(sEnding, 1), loose) {
		for _, q := range [][2]int64{{100, 100}, {101, 179}, {180, 180}, {181, 182}, {183, 183}, {184, 199}, {200, 200}, {201, 299}, {300, 300}, {301, 301}, {302, 302}, {303, 502}, {503, 503}, {504, 699}} {
			cases = append(cases, stepCase{s, reply(q[0], q[1], true, "")})
			if q[0] == 200 || q[0] == 183 {
				cases = append(cases, stepCase{s, reply(q[0], q[1], true, "audio")})
			}
			if q[0] == 200 || q[0] >= 301 {
				cases = append(cases, stepCase{s, reply(q[0], q[1], false, "")})
			}
		}
		for _, m := range []string{"BYE", "OPTIONS", "INVITE", "ACK", "*"} {
			cases = append(cases, stepCase{s, ask(m, "gt", 1, "", "")}, stepCase{s, ask(m, "lt", 1, "", "")}, stepCase{s, ask(m, "gt", 0, "", "")}, stepCase{s, ask(m, "gt", 1, "callid", "")}, stepCase{s, ask(m, "gt", 1, "version", "")})
		}
		for _, st := range []int64{180, 200, 503} {
			for _, how := range []string{"cseq", "branch", "callid"} {
				cases = append(cases, stepCase{s, foreignReply(st, how)})
			}
		}
		cases = append(cases, stepCase{s, stepEvent{name: "hang-up", kind: "hangup"}})
		if !s.noTimer {
			cases = append(cases, stepCase{s, stepEvent{name: "timer", kind: "reqtimer"}}, stepCase{s, stepEvent{name: "timer, retransmissions used up", kind: "reqtimer", max: true}})
		}
		if s.response {
			cases = append(cases, stepCase{s, stepEvent{name: "response timer", kind: "resptimer"}}, stepCase{s, stepEvent{name: "response timer, retransmissions used up", kind: "resptimer", max: true}})
		}
		for _, e := range []string{"refused", "refused bare", "other"} {
			cases = append(cases, stepCase{s, stepEvent{name: "socket error (" + e + ")", kind: "err", err: e}})
			if s.loose {
				cases = append(cases, stepCase{s, stepEvent{name: "second socket's error (" + e + ")", kind: "cerr", err: e}})
			}
		}
	}
	return
}

func checkD04(c *Check) {
	c.steps(everyStep(), func(r *stepRun) {
		for _, o := range r.outs {
			if o.end != "return" {
				continue
			}
			told := false
			for _, a := range o.trace {
				switch a.kind {
				case "err":
					if o.st.nilness(a.val) == 1 {
						r.bad("told", o, "the error delivered is nil")
					}
					told = true
				case "state":
					told = told || a.val.isConstInt() && a.val.N == 3
				case "close":
					if !told {
						r.bad("silent", o, "the call ends (closes %s) without an error or the state hung-up having been delivered", a.ch)
					}
				}
			}
			if !told {
				r.bad("silent", o, "the call ends without an error or the state hung-up having been delivered")
			}
			c.count("ways to end", 1)
		}
	})
}

// ---- D13 ----

func checkD13(c *Check) {
	type want struct {
		s      stepState
		ev     stepEvent
		states []int64
		end    string
	}
	var ws []want
	add := func(s stepState, ev stepEvent, end string, states ...int64) {
		ws = append(ws, want{s, ev, states, end})
	}
	for _, p := range []string{"", "audio", "video", "audiovideo", "misc"} {
		for _, s := range unanswered() {
			if s.state == 0 {
				add(s, reply(100, 100, true, p), "loop", 0)
			}
			add(s, reply(180, 180, true, p), "loop", 1)
			add(s, reply(183, 183, true, p), "loop", 1)
			add(s, reply(200, 200, true, p), "loop", 2)
		}
		for _, s := range []stepState{sAnswered, sReinvited} {
			for _, st := range []int64{100, 180, 183, 200} {
				add(s, reply(st, st, true, p), "loop")
			}
		}
		for _, s := range allStates() {
			for _, q := range [][2]int64{{101, 179}, {181, 182}, {184, 199}} {
				add(s, reply(q[0], q[1], true, p), "loop")
			}
			for _, q := range []string{"", "gt", "rseq0"} {
				add(s, ask("INVITE", q, 1, "", p), "loop")
			}
		}
		for _, q := range [][2]int64{{201, 299}, {303, 502}, {504, 699}} {
			add(sRinging, reply(q[0], q[1], true, p), "")
			add(sEnding, reply(q[0], q[1], true, p), "")
		}
	}
	add(sEnding, reply(200, 200, true, ""), "return", 3)
	add(sEnding, reply(200, 200, false, ""), "return", 3)
	for _, s := range allStates() {
		for _, q := range []string{"", "gt", "rseq0"} {
			add(s, ask("BYE", q, 1, "", ""), "return", 3)
			for _, m := range []string{"OPTIONS", "ACK", "*"} {
				add(s, ask(m, q, 1, "", ""), "loop")
			}
		}
		add(s, ask("BYE", "lt", 1, "", ""), "loop")
		add(s, ask("INVITE", "lt", 1, "", "audio"), "loop")
	}
	if !c.stepReady() {
		return
	}
	c.progressHistories()
	for _, w := range ws {
		c.steps([]stepCase{{w.s, w.ev}}, func(r *stepRun) {
			for _, o := range r.outs {
				if !o.clean() {
					continue
				}
				if w.end != "" && o.end != w.end {
					r.bad("end", o, "the call %s", map[string]string{"loop": "goes on", "return": "ends", "block": "waits for ever"}[o.end])
					continue
				}
				var got []int64
				known := true
				for _, a := range o.acts("state") {
					if !a.val.isConstInt() {
						known = false
					}
					got = append(got, a.val.N)
				}
				if !known {
					c.unsure("%s: the state delivered is not known", r.label())
				} else if w.end != "" && fmt.Sprint(got) != fmt.Sprint(w.states) {
					r.bad("states", o, "the states delivered are %s instead of %s", stateNames(got), stateNames(w.states))
				} else if w.end == "" && len(got) > 0 {
					for _, g := range got {
						if g != 3 {
							r.bad("states", o, "the state %s is delivered", stateNames(got))
						}
					}
				}
				// the call remembers what it reported
				if s := c.get(o.st, r.d, "state"); o.end == "loop" && len(got) > 0 && s.isConstInt() && s.N != got[len(got)-1] {
					r.bad("states", o, "the call is left in state %d after reporting %d", s.N, got[len(got)-1])
				} else if o.end == "loop" && len(got) == 0 && s.isConstInt() && s.N != r.s.state {
					r.bad("states", o, "the call's state becomes %s without being reported", stateNames([]int64{s.N}))
				}
				// afterwards a first 200 is recognised as such
				if o.end == "loop" && len(got) > 0 && got[len(got)-1] == 2 {
					if v := c.get(o.st, r.d, "remote"); o.st.nilness(v) == 1 {
						r.bad("states", o, "the answer is not remembered")
					}
				}
				peers := o.acts("peer")
				m := r.ev.msg
				audio := strings.Contains(m.payload, "audio") && (m.status[0] > 0 && m.status[1] <= 200 || m.method == "INVITE" && m.cseq != "lt")
				if !audio {
					if len(peers) > 0 {
						r.bad("peer", o, "a peer address is reported")
					}
					continue
				}
				if len(peers) != 1 {
					r.bad("peer", o, "the peer's audio address is reported %d times", len(peers))
					continue
				}
				r.peerAddr(o, peers[0])
			}
		})
	}
}

// progressHistories: several events in a row, and what is reported in total.
func (c *Check) progressHistories() {
	type hist struct {
		s      stepState
		evs    []stepEvent
		states []int64
		end    string
	}
	ok := func(n int64) stepEvent { return reply(n, n, true, "") }
	hang := stepEvent{name: "hang-up", kind: "hangup"}
	inv := ask("INVITE", "rseq0", 1, "", "")
	inv.msg.cseq = "any"
	bye := ask("BYE", "any", 1, "", "")
	opt := ask("OPTIONS", "any", 1, "", "")
	refused := stepEvent{name: "refusal", kind: "err", err: "refused"}
	timeout := stepEvent{name: "timeout", kind: "reqtimer", max: true}
	two := withRoutes(sProceeding, 2)
	for _, h := range []hist{
		{sProceeding, []stepEvent{ok(100), ok(180), ok(200)}, []int64{0, 1, 2}, "loop"},
		{sProceeding, []stepEvent{ok(200), ok(200)}, []int64{2}, "loop"},
		{sProceeding, []stepEvent{ok(200), ok(180), ok(200)}, []int64{2}, "loop"},
		{sProceeding, []stepEvent{ok(200), inv, ok(200)}, []int64{2}, "loop"},
		{sProceeding, []stepEvent{inv, ok(200)}, []int64{2}, "loop"},
		{sRinging, []stepEvent{inv, ok(180), ok(200)}, []int64{1, 2}, "loop"},
		{sRinging, []stepEvent{opt, ok(200)}, []int64{2}, "loop"},
		{sRinging, []stepEvent{hang, ok(200)}, []int64{2}, "loop"},
		{sRinging, []stepEvent{ok(200), bye}, []int64{2, 3}, "return"},
		{sRinging, []stepEvent{ok(200), hang, ok(200)}, []int64{2, 3}, "return"},
		{sRinging, []stepEvent{ok(200), hang, bye}, []int64{2, 3}, "return"},
		{two, []stepEvent{ok(503), ok(180), ok(200)}, []int64{1, 2}, "loop"},
		{two, []stepEvent{refused, ok(100), ok(200)}, []int64{0, 2}, "loop"},
		{two, []stepEvent{timeout, ok(200)}, []int64{2}, "loop"},
		{sRinging, []stepEvent{ok(302), ok(180), ok(200)}, []int64{1, 2}, "loop"},
	} {
		r := c.stepSeq(h.s, h.evs, false)
		if r.gaveUp {
			continue
		}
		seen := false
		for _, o := range r.outs {
			if !o.clean() || o.has("err") || o.end == "block" {
				continue
			}
			n := 0
			for _, a := range o.trace {
				if a.kind == "event" {
					n++
				}
			}
			if n < len(h.evs)-1 {
				r.bad("end", o, "the call ends early")
				continue
			}
			seen = true
			if o.end != h.end {
				r.bad("end", o, "the call %s", map[string]string{"loop": "goes on", "return": "ends"}[o.end])
				continue
			}
			var got []int64
			known := true
			for _, a := range o.acts("state") {
				known = known && a.val.isConstInt()
				got = append(got, a.val.N)
			}
			if known && fmt.Sprint(got) != fmt.Sprint(h.states) {
				r.bad("states", o, "the states delivered are %s instead of %s", stateNames(got), stateNames(h.states))
			}
		}
		if !seen {
			c.unsure("%s: no path through the history was found", r.label())
		}
	}
}

func stateNames(s []int64) string {
	if len(s) == 0 {
		return "none"
	}
	var r []string
	for _, n := range s {
		if n >= 0 && n <= 3 {
			r = append(r, []string{"proceeding", "ringing", "answered", "hung-up"}[n])
		} else {
			r = append(r, fmt.Sprint(n))
		}
	}
	return strings.Join(r, ", ")
}

// peerAddr: the address delivered is the session description's.
func (r *stepRun) peerAddr(o stepOut, a act) {
	c := r.c
	l, ok := loc1(a.st, a.val)
	if !ok || r.sdp == nil || !hasField(l.O.Type, "IP") || !hasField(l.O.Type, "Port") {
		c.unsure("%s: the peer address is not resolved", r.label())
		return
	}
	ip := a.st.load(Loc{l.O, l.Path + ".IP"}, structFieldType(l.O.Type, "IP"))
	addr := c.get(r.st0, r.sdp, "Addr")
	structFieldTypeOfIP = structFieldType(l.O.Type, "IP")
	switch parsedFrom(a.st, ip, addr) {
	case no:
		r.bad("peer", o, "the address reported is %s, not the session description's", render(ip))
	case maybe:
		c.unsure("%s: the IP reported is not resolved: %s", r.label(), render(ip))
	}
	port := a.st.load(Loc{l.O, l.Path + ".Port"}, tInt)
	md, ok := loc1(r.st0, c.get(r.st0, r.sdp, "Audio"))
	if !ok {
		return
	}
	want := r.st0.load(Loc{md.O, ".Port"}, structFieldType(md.O.Type, "Port"))
	if valEq(port, want) {
		return
	}
	if port.K == KInt && port.S != 0 && syms[port.S].Op == "conv" && valEq(syms[port.S].Args[0], want) {
		return
	}
	if definiteText(port) {
		r.bad("peer", o, "the port reported is %s instead of the audio port", render(port))
	} else {
		c.unsure("%s: the port reported is not resolved: %s", r.label(), render(port))
	}
}

// parsedFrom: ip is what parsing the given text yields.
func parsedFrom(st *State, ip, text Val) tri {
	p := ip
	if ip.K == KSlice {
		p = ip.El[0]
	}
	t := structFieldTypeOfIP
	if t == nil {
		return maybe
	}
	x := lookupTerm("parseip", t, text)
	if x != 0 && st.nilness(psym(x)) == 1 && st.nilness(ip) == 1 {
		return yes
	}
	if p.S != 0 && syms[p.S].Op == "parseip" {
		if valEq(syms[p.S].Args[0], text) {
			return yes
		}
		return no
	}
	if st.nilness(ip) == 1 {
		return no
	}
	return maybe
}

var structFieldTypeOfIP types.Type

// ---- D16 ----

func checkD16(c *Check) {
	var cases []stepCase
	for _, s := range append(allStates(), withRoutes(sProceeding, 2), stepState{name: "ringing, loose", state: 1, noTimer: true, loose: true}, stepState{name: "answered, loose", state: 2, answered: true, noTimer: true, loose: true}) {
		cases = append(cases, stepCase{s, stepEvent{name: "hang-up", kind: "hangup"}})
	}
	if c.stepReady() {
		c.hangupHistories()
	}
	c.steps(cases, func(r *stepRun) {
		for _, o := range r.outs {
			if !o.clean() {
				continue
			}
			if r.s.state >= 2 && o.has("err") && strings.Contains(o.String(), "dial") {
				continue // no destination of the dialog could be opened
			}
			var ws []act
			for _, a := range o.trace {
				switch a.kind {
				case "write":
					ws = append(ws, a)
				case "state", "peer":
					r.bad("acts", o, "hanging up causes %s", a)
				}
			}
			if o.end != "loop" && !o.has("err") {
				r.bad("goes-on", o, "the call ends before the peer has answered")
				continue
			}
			if o.end != "loop" {
				// ends with an error: only when the network gave it nowhere to go
				if r.s.state < 2 {
					r.bad("goes-on", o, "hanging up ends the call with an error")
				}
				continue
			}
			want := "CANCEL"
			if r.s.state == 2 {
				want = "BYE"
			}
			if len(ws) != 1 || ws[0].what() != want {
				var n []string
				for _, a := range ws {
					n = append(n, a.what())
				}
				r.bad("sends", o, "hanging up sends [%s] instead of one %s", strings.Join(n, " "), want)
				continue
			}
			a := ws[0]
			seq := c.get(a.st, a.msg, "CSeq")
			if want == "CANCEL" {
				for _, f := range []string{"CSeq", "CallID", "Request", "From", "To"} {
					c.wantSame("cancel", pos2(c, a.in), "CANCEL's "+f, a.st, r.st0, c.get(a.st, a.msg, f), c.get(r.st0, r.invite, f), msgField(r.invite, f))
				}
				r.sameRequest(o)
				continue
			}
			old := c.get(r.st0, r.d, "lseq")
			if v, ok := a.st.evalCond(cond(token.LSS, old, seq)); ok && !v {
				r.bad("sequence", o, "the BYE's sequence number %s is not above the last used one %s", render(seq), render(old))
			} else if !ok {
				c.unsure("%s: the BYE's sequence number %s is not comparable with %s", r.label(), render(seq), render(old))
			}
			if now := c.get(o.st, r.d, "lseq"); !valEq(now, seq) {
				if v, ok := o.st.evalCond(cond(token.LSS, now, seq)); ok && v {
					r.bad("sequence", o, "the BYE's sequence number is not remembered as the last used one")
				}
			}
			for _, f := range []string{"CallID", "From"} {
				c.wantSame("bye", pos2(c, a.in), "BYE's "+f, a.st, r.st0, c.get(a.st, a.msg, f), c.get(r.st0, r.invite, f), msgField(r.invite, f))
			}
			c.wantSame("bye", pos2(c, a.in), "BYE's To", a.st, r.st0, c.get(a.st, a.msg, "To"), c.get(r.st0, r.rem, "To"), msgField(r.rem, "To"))
			// it is retransmitted and its answer recognised
			rq, ok := loc1(o.st, c.get(o.st, r.d, "request"))
			if ok && rq.O != a.msg {
				if m := o.st.load(Loc{rq.O, ".Method"}, tString); m.isConstStr() && m.Str != "BYE" {
					r.bad("pending", o, "the BYE does not become the pending request")
				}
			}
			if t := c.get(o.st, r.d, "requestTimer"); o.st.nilness(t) == 1 {
				r.bad("pending", o, "no retransmission of the BYE is scheduled")
			}
		}
	})
}

// hangupHistories: the BYE belongs to the dialog the answer established,
// whatever happened before and since.
func (c *Check) hangupHistories() {
	ok := func(n int64) stepEvent { return reply(n, n, true, "") }
	hang := stepEvent{name: "hang-up", kind: "hangup"}
	inv := ask("INVITE", "any", 1, "", "")
	inv2 := ask("INVITE", "any", 1, "", "")
	inv2.msg.contact = false
	opt := ask("OPTIONS", "any", 1, "", "")
	ack := ask("ACK", "any", 1, "", "")
	for _, h := range []struct {
		s   stepState
		evs []stepEvent
		ans int // which event is the answer
		tgt int // which event's Contact the BYE goes to
	}{
		{sRinging, []stepEvent{ok(200), hang}, 0, 0},
		{sRinging, []stepEvent{ok(200), hang, hang}, 0, 0},
		{sRinging, []stepEvent{ok(180), ok(200), hang}, 1, 1},
		{sRinging, []stepEvent{ok(200), inv, hang}, 0, 1},
		{sRinging, []stepEvent{ok(200), inv2, hang}, 0, 0},
		{sRinging, []stepEvent{ok(200), inv, ack, hang}, 0, 1},
		{sRinging, []stepEvent{ok(200), opt, hang}, 0, 0},
		{sRinging, []stepEvent{inv, ok(200), hang}, 1, 1},
		{withRoutes(sProceeding, 2), []stepEvent{ok(503), ok(200), hang}, 1, 1},
		{sRinging, []stepEvent{ok(302), ok(200), hang}, 1, 1},
	} {
		r := c.stepSeq(h.s, h.evs, false)
		if r.gaveUp {
			continue
		}
		seen := false
		for _, o := range r.outs {
			if !o.clean() || o.has("err") || o.end != "loop" {
				continue
			}
			ev := 0
			from := r.st0 // what the peer's answer said
			var tst *State
			if h.tgt == 0 {
				tst = from
			}
			last := c.get(r.st0, r.invite, "CSeq")
			byes := 0
			for _, a := range o.trace {
				switch a.kind {
				case "event":
					ev++
					if ev == h.ans {
						from = a.st
					}
					if ev == h.tgt {
						tst = a.st
					}
				case "write":
					if a.what() == "BYE" {
						byes++
						seq := c.get(a.st, a.msg, "CSeq")
						if v, ok := a.st.evalCond(cond(token.LSS, last, seq)); ok && !v {
							r.bad("sequence", o, "a BYE's sequence number %s is not above %s sent before", render(seq), render(last))
						}
						last = seq
						ans := r.msgs[h.ans]
						p := pos2(c, a.in)
						c.wantSame("bye", p, "To of the BYE after "+r.ev.name, a.st, from, c.get(a.st, a.msg, "To"), c.get(from, ans, "To"), msgField(ans, "To"))
						c.checkReversed("bye", p, "Route of the BYE after "+r.ev.name, a.st, from, c.get(a.st, a.msg, "Route"), c.get(from, ans, "RecordRoute"), msgField(ans, "RecordRoute"))
						if ct, ok := loc1(tst, c.get(tst, r.msgs[h.tgt], "Contact")); ok {
							c.wantSame("bye", p, "target of the BYE after "+r.ev.name, a.st, tst, c.get(a.st, a.msg, "Request"), tst.load(Loc{ct.O, ".Uri"}, structFieldType(ct.O.Type, "Uri")), structFieldType(ct.O.Type, "Uri"))
						}
					}
				}
			}
			seen = true
			want := 0
			for _, x := range h.evs {
				if x.kind == "hangup" {
					want++
				}
			}
			if byes != want {
				r.bad("sends", o, "%d BYEs are sent for %d hang-ups", byes, want)
			}
		}
		if !seen {
			c.unsure("%s: no path through the history was found", r.label())
		}
	}
}

// sameRequest: the pending request is still the one it was.
func (r *stepRun) sameRequest(o stepOut) {
	c := r.c
	got, ok := loc1(o.st, c.get(o.st, r.d, "request"))
	want, ok2 := loc1(r.st0, c.get(r.st0, r.d, "request"))
	if ok && ok2 && got != want {
		r.bad("pending", o, "the INVITE is no longer the pending request, so its final response would not be recognised")
	}
}
