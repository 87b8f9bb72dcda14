package main

import (
	"fmt"
	"go/types"
	"net"
	"strings"
)

func init() {
	register("R06", "rtp.Listen is interpreted for hosts with and without an explicit port; every ListenPacket call on every path is checked for host, port range, evenness (parity analysis), attempt count and the reason for a retry, with each attempt succeeding, failing because the port is in use, or failing otherwise.", checkR06)
}

func checkR06(c *Check) {
	c.rules = append(c.rules, "port", "attempts", "retry", "explicit", "result")
	fn := c.fn("rtp.Listen")
	if fn == nil {
		return
	}
	c.analysed(fn)
	c.newSession()
	trackParity = true
	pos := c.p.pos(fn.Pos())
	for _, h := range []struct {
		host string
		expl bool
	}{{"", false}, {"127.0.0.1", false}, {"localhost", false}, {"127.0.0.1:5004", true}, {":0", true}, {"[::1]:7000", true}} {
		e := c.engine()
		inUse := map[Sym]bool{}
		other := map[Sym]bool{}
		sawAny := false
		openSock := e.intrinsics["net.ListenPacket"]
		listen := func(e *Engine, cc *callCtx) []callRes {
			st := cc.st
			key := st.mon.Key
			n := strings.Count(key, "a")
			sawAny = true
			c.count("bind_calls", 1)
			where := c.p.pos(instrPos(cc.in))
			if n >= 10 {
				c.fail("attempts", where, "rtp.Listen attempts", "more than ten ports can be tried")
				return nil
			}
			if strings.HasSuffix(key, "o") {
				c.fail("retry", where, "rtp.Listen retry", "another port is tried although the failure was not a port in use")
				return nil
			}
			addr := cc.args[len(cc.args)-1]
			if h.expl {
				if n > 0 {
					c.fail("explicit", where, "rtp.Listen explicit attempts", "an explicit address is tried more than once")
					return nil
				}
				if addr.isConstStr() {
					if addr.Str != h.host {
						c.fail("explicit", where, "rtp.Listen explicit address", "host %q binds %q", h.host, addr.Str)
					}
				} else {
					c.unsure("bind address for host %q not resolved: %s", h.host, render(addr))
				}
			} else {
				c.bindAddr(st, addr, h.host, where)
			}
			var out []callRes
			for _, r := range openSock(e, cc) {
				if r.v.K != KTuple {
					c.unsure("bind result not resolved")
					return nil
				}
				if r.st.nilness(r.v.El[1]) == 1 {
					r.st.setMon(key + "as")
					out = append(out, r)
					continue
				}
				u := r.st.clone()
				ue, oe := e.errVal(u, "in-use"), e.errVal(r.st, "other")
				inUse[ue.S], other[oe.S] = true, true
				u.setMon(key + "au")
				r.st.setMon(key + "ao")
				out = append(out, callRes{u, tuple(nilVal, ue)}, callRes{r.st, tuple(nilVal, oe)})
			}
			return out
		}
		e.intrinsics["net.ListenPacket"] = listen
		e.intrinsics["(error).Error"] = func(e *Engine, cc *callCtx) []callRes {
			return ret1(cc.st, ssym(term("errtext", tString, cc.args[0])))
		}
		contains := e.intrinsics["strings.Contains"]
		e.intrinsics["strings.Contains"] = func(e *Engine, cc *callCtx) []callRes {
			a, b := cc.args[0], cc.args[1]
			if a.isConstStr() && b.isConstStr() {
				return ret1(cc.st, bconst(strings.Contains(a.Str, b.Str)))
			}
			if a.S != 0 && syms[a.S].Op == "errtext" && b.isConstStr() {
				x := syms[a.S].Args[0].S
				const msg = "listen udp 127.0.0.1:20000: bind: address already in use"
				switch strings.HasSuffix(cc.st.mon.Key, "u") {
				case true:
					_ = x
					return ret1(cc.st, bconst(strings.Contains(msg, b.Str)))
				case false:
					if strings.Contains("already in use", b.Str) || strings.Contains(msg, b.Str) && strings.Contains(b.Str, "in use") {
						return ret1(cc.st, bconst(false))
					}
					if strings.Contains("listen udp 127.0.0.1:20000: bind: ", b.Str) {
						return ret1(cc.st, bconst(true))
					}
				}
			}
			return contains(e, cc)
		}
		e.intrinsics["errors.Is"] = func(e *Engine, cc *callCtx) []callRes {
			if v := cc.args[1]; v.K == KIface && v.S == 0 && len(v.El) == 1 && v.El[0].isConstInt() && strings.HasSuffix(v.T.String(), "syscall.Errno") {
				return ret1(cc.st, bconst(v.El[0].N == 98 && strings.HasSuffix(cc.st.mon.Key, "u")))
			}
			return ret1(cc.st, bsym(freshSym("errors.Is", tBool)))
		}
		e.intrinsics["net.SplitHostPort"] = func(e *Engine, cc *callCtx) []callRes {
			if a := cc.args[0]; a.isConstStr() {
				hh, pp, err := net.SplitHostPort(a.Str)
				if err != nil {
					return ret1(cc.st, tuple(strc(""), strc(""), e.errVal(cc.st, "split")))
				}
				return ret1(cc.st, tuple(strc(hh), strc(pp), nilVal))
			}
			return e.externalResult(cc)
		}
		rs := e.run(fn, func(st *State, args []Val) []Val { return []Val{strc(h.host)} })
		c.obligations(e, "crash", nil)
		if e.gaveUp != "" {
			continue
		}
		if !sawAny {
			c.unsure("no ListenPacket call found for host %q", h.host)
		}
		for _, r := range rs {
			c.count("exits", 1)
			if r.v.K != KTuple || len(r.v.El) != 2 {
				c.unsure("result of Listen not resolved")
				continue
			}
			s, er := r.st.nilness(r.v.El[0]), r.st.nilness(r.v.El[1])
			key := r.st.mon.Key
			switch {
			case s == 1 && er == 1:
				c.fail("result", pos, "rtp.Listen returns neither", "Listen can return neither a socket nor an error")
			case s == 2 && er == 2:
				c.fail("result", pos, "rtp.Listen returns both", "Listen can return a socket and an error")
			case s == 0 || er == 0:
				c.unsure("result of Listen not resolved on path %s", key)
			case er == 2 && strings.HasSuffix(key, "s"):
				c.fail("result", pos, "rtp.Listen loses a socket", "Listen returns an error although binding succeeded")
			}
			if !h.expl && strings.HasSuffix(key, "u") && strings.Count(key, "a") < 2 {
				c.fail("retry", pos, "rtp.Listen gives up", "Listen gives up after one port in use")
			}
		}
	}
}

// newSession: a session exactly when there is no error.
func (c *Check) newSession() {
	fn := c.fn("rtp.NewSession")
	if fn == nil {
		return
	}
	c.analysed(fn)
	e := c.engine()
	rs := e.run(fn, nil)
	c.obligations(e, "crash", nil)
	if c.gaveUp(e, fnName(fn)) {
		return
	}
	pos := c.p.pos(fn.Pos())
	made := false
	for _, r := range rs {
		if r.v.K != KTuple || len(r.v.El) != 2 {
			c.unsure("result of NewSession not resolved")
			return
		}
		c.count("sessions", 1)
		s, er := r.st.nilness(r.v.El[0]), r.st.nilness(r.v.El[1])
		made = made || s != 1
		switch {
		case s == 1 && er == 1:
			c.fail("result", pos, "rtp.NewSession returns neither", "NewSession can return neither a session nor an error")
		case s == 2 && er == 2:
			c.fail("result", pos, "rtp.NewSession returns both", "NewSession can return a session and an error")
		case s == 0 || er == 0:
			c.unsure("result of NewSession not resolved")
		}
	}
	if !made {
		c.fail("result", pos, "rtp.NewSession never succeeds", "NewSession never returns a session")
	}
}

func (c *Check) bindAddr(st *State, addr Val, host, where string) {
	what := "rtp.Listen port"
	if addr.S == 0 || syms[addr.S].Op != "net.JoinHostPort" {
		// host + ":" + port
		if addr.S != 0 && syms[addr.S].Op == "cat" {
			a := flattenCat(addr)
			if len(a) >= 2 && a[0].isConstStr() && a[0].Str == host+":" {
				c.portVal(st, a[1], where)
				return
			}
		}
		c.unsure("bind address not resolved: %s", render(addr))
		return
	}
	a := syms[addr.S].Args
	if a[0].isConstStr() && a[0].Str != host {
		c.fail("port", where, "rtp.Listen host", "host %q binds host %q", host, a[0].Str)
	} else if !a[0].isConstStr() {
		c.unsure("bound host not resolved: %s", render(a[0]))
	}
	_ = what
	c.portVal(st, a[1], where)
}

func flattenCat(v Val) []Val {
	if v.S != 0 && syms[v.S].Op == "cat" {
		var r []Val
		for _, a := range syms[v.S].Args {
			r = append(r, flattenCat(a)...)
		}
		return r
	}
	return []Val{v}
}

func (c *Check) portVal(st *State, s Val, where string) {
	var p Val
	switch {
	case s.isConstStr():
		n := int64(0)
		fmt.Sscan(s.Str, &n)
		p = iconst(n)
	case s.S != 0 && syms[s.S].Op == "itoa":
		p = syms[s.S].Args[0]
	case s.S != 0 && syms[s.S].Op == "fmtint" && syms[s.S].Args[1].isConstInt():
		c.fail("port", where, "rtp.Listen port text", "the port is written in base %d", syms[s.S].Args[1].N)
		return
	default:
		c.unsure("port text not resolved: %s", render(s))
		return
	}
	lo, hi := st.rng(p)
	c.count("ports_checked", 1)
	c.sample("port %s in [%d,%d] parity %d", render(p), lo, hi, st.parity(p))
	if lo < 16384 || hi > 32768 {
		c.fail("port", where, "rtp.Listen port range", "a port between %d and %d can be bound, must be within 16384..32768", lo, hi)
	}
	switch st.parity(p) {
	case 2:
		c.fail("port", where, "rtp.Listen port parity", "an odd port can be bound")
	case 0:
		if lo >= 0 {
			c.fail("port", where, "rtp.Listen port parity", "the port bound is not made even: %s", render(p))
		}
	}
}

var _ = types.Typ
