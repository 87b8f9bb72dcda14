package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R02", "EventHeader.Write/Read are interpreted for every flag combination and the provenance of every bit is compared with RFC 4733; DtmfToChar, CharToDtmf and the event code of the first packet SendDTMF sends are evaluated for every one of the 256 arguments and compared with the digit table.", checkR02)
	register("R03", "Send and SendRaw are interpreted from a session made by NewSession with arbitrary sequence number and timestamp; the bytes of the packet handed to the socket and the header after the call are compared with the required ones (bit provenance, modular offsets).", checkR03)
	register("R04", "SendDTMF is interpreted for every digit with success and failure of every socket write; every path's packet train (marker, payload type, sequence offset, timestamp, event, end bit, duration) is checked.", checkR04)
}

const dtmfDigits = "0123456789*#ABCD!"

// affine16 splits a value into symbol + constant, modulo 2^w.
func affine(v Val) (Sym, int64, bool) {
	d := int64(0)
	for {
		if v.K != KInt {
			return 0, 0, false
		}
		d += v.N
		if v.S == 0 {
			return 0, d, true
		}
		si := syms[v.S]
		switch {
		case si.Op == "add" && si.Args[1].isConstInt():
			d += si.Args[1].N
			v = si.Args[0]
		case si.Op == "add" && si.Args[0].isConstInt():
			d += si.Args[0].N
			v = si.Args[1]
		case si.Op == "sub" && si.Args[1].isConstInt():
			d -= si.Args[1].N
			v = si.Args[0]
		case si.Op == "conv":
			v = si.Args[0]
		default:
			return v.S, d, true
		}
	}
}

// fieldOf recovers the value whose big-endian bytes are given.
func (s *State) fieldOf(bytes []Val) (Val, bool) {
	w := 8 * len(bytes)
	var all []bit
	for i := len(bytes) - 1; i >= 0; i-- {
		all = append(all, s.bits(bytes[i], 8)...)
	}
	n, isConst := int64(0), true
	var sym Sym
	for i, b := range all {
		switch b.k {
		case '1':
			n |= 1 << uint(i)
		case '0':
		case 'b':
			isConst = false
			if b.i != i || sym != 0 && sym != b.s {
				return Val{}, false
			}
			sym = b.s
		default:
			return Val{}, false
		}
	}
	if isConst {
		return iconst(n), true
	}
	for _, b := range all {
		if b.k != 'b' {
			// zero-extended narrower field
			return Val{}, false
		}
	}
	_ = w
	return isym(sym), true
}

// session runs NewSession and returns states holding a connected session with
// arbitrary sequence number, timestamp, source id.
type sess struct {
	st   *State
	o    *Obj
	seq  Sym
	ts   Sym
	ssrc Sym
	pt   Sym
	buf  Val
}

func (c *Check) session(e *Engine) *sess {
	ns := c.fn("rtp.NewSession")
	if ns == nil {
		return nil
	}
	rs := e.run(ns, nil)
	for _, r := range rs {
		if r.v.K != KTuple || r.st.nilness(r.v.El[1]) != 1 {
			continue
		}
		p := r.v.El[0]
		if p.K != KPtr || p.S != 0 || p.L.O == nil {
			continue
		}
		s := &sess{st: r.st, o: p.L.O}
		u16, u32 := types.Typ[types.Uint16], types.Typ[types.Uint32]
		s.seq, s.ts, s.ssrc = leaf("seq0", u16), leaf("ts0", u32), leaf("ssrc0", u32)
		set := func(f string, v Val, t types.Type) { s.st.store(Loc{s.o, f}, v, t) }
		set(".Header.Seq", isym(s.seq), u16)
		set(".Header.TS", isym(s.ts), u32)
		set(".Header.Ssrc", isym(s.ssrc), u32)
		set(".Header.Mark", bconst(false), tBool)
		set(".Header.Pad", bconst(false), tBool)
		s.pt = leaf("pt0", tByte)
		set(".Header.PT", isym(s.pt), tByte)
		peer := c.fieldType("rtp.Session", "Peer")
		po := newObj("peer", "peer", peer.(*types.Pointer).Elem())
		po.Input = true
		set(".Peer", ploc(Loc{po, ""}), peer)
		s.st.frames = nil
		s.st.setMonVal("$sess", p)
		return s
	}
	c.unsure("NewSession has no successful exit the analysis resolves")
	return nil
}

// packet reads the bytes handed to a socket write.
func packet(st *State, buf Val) ([]Val, Val, bool) {
	if buf.K != KSlice {
		return nil, Val{}, false
	}
	n := buf.El[2]
	if !n.isConstInt() {
		if lo, hi := st.rng(n); lo == hi {
			n = iconst(lo)
		}
	}
	k := int64(12)
	if n.isConstInt() {
		k = n.N
	}
	if k > 2000 {
		return nil, n, false
	}
	pts, ok := st.ptsOf(buf.El[0])
	if !ok {
		if buf.El[0].K != KPtr || buf.El[0].S == 0 {
			return nil, n, false
		}
		pts = []Loc{{objOfSym(buf.El[0].S), ""}}
	}
	if len(pts) != 1 {
		return nil, n, false
	}
	var bs []Val
	for i := int64(0); i < k; i++ {
		bs = append(bs, st.loadElem(pts[0], st.addv(buf.El[1], iconst(i)), "", tByte))
	}
	return bs, n, true
}

var sockWrites = map[string]int{"sock.WriteTo": 1, "sock.Write": 1, "sock.WriteToUDP": 1, "sock.WriteMsgUDP": 1}

func checkR03(c *Check) {
	c.rules = append(c.rules, "packet-header", "packet-samples", "advance", "unconnected")
	send, raw := c.fn("rtp.Session.Send"), c.fn("rtp.Session.SendRaw")
	if send == nil || raw == nil {
		return
	}
	c.analysed(send)
	c.analysed(raw)
	frameT := c.p.typ("rtp.Frame")
	type scen struct {
		fn   *ssa.Function
		name string
		n    int64 // raw payload length, -1: a frame
	}
	for _, sc := range []scen{{send, "Send", -1}, {raw, "SendRaw 0", 0}, {raw, "SendRaw 5", 5}, {raw, "SendRaw 33", 33}, {raw, "SendRaw any", -2}} {
		e := c.engine()
		e.intrinsics[modPath+"/dsp.LinearToUlaw"] = func(e *Engine, cc *callCtx) []callRes {
			x := term("ulaw", types.Typ[types.Int64], cc.args[0])
			cc.st.setLo(x, 0)
			cc.st.setHi(x, 255)
			return ret1(cc.st, isym(x))
		}
		s := c.session(e)
		if s == nil {
			return
		}
		name := fnName(sc.fn)
		pos := c.p.pos(sc.fn.Pos())
		var args []Val
		args = append(args, ploc(Loc{s.o, ""}))
		var in *Obj
		wantPT := iconst(0)
		wantTS := iconst(160)
		wantLen := iconst(172)
		if sc.n == -1 {
			in = newObj("frame", "in:frame", frameT)
			in.Input = true
			args = append(args, ploc(Loc{in, ""}))
		} else {
			pt := leaf("pt", tByte)
			s.st.setHi(pt, 127)
			sm := leaf("samps", types.Typ[types.Uint32])
			ln := iconst(sc.n)
			if sc.n < 0 {
				l := freshSym("datalen", lenType)
				s.st.setLo(l, 0)
				s.st.setHi(l, 65000)
				ln = isym(l)
			}
			var d Val
			d, in = inSlice(s.st, "data", tByte, ln, ln)
			args = append(args, isym(pt), d, isym(sm))
			wantPT, wantTS = isym(pt), isym(sm)
			wantLen = s.st.addv(ln, iconst(12))
		}
		bad := func(rule, what, format string, a ...any) {
			c.fail(rule, pos, name+": "+what, format, a...)
		}
		e.onEvent = func(e *Engine, st *State, ev *Event) []*State {
			bi, ok := sockWrites[ev.Kind]
			if !ok {
				return []*State{st}
			}
			c.count("packets_checked", 1)
			if st.mon.Key != "" {
				bad("packet-header", "more than one packet", "more than one packet is written for one call")
			}
			bs, n, ok := packet(st, ev.Args[bi])
			if !ok {
				c.unsure("%s: packet not resolved", sc.name)
				st.setMon("sent")
				return []*State{st}
			}
			if n.isConstInt() && wantLen.isConstInt() {
				if n.N != wantLen.N {
					bad("packet-samples", "packet length", "packet of %d bytes, must be %d", n.N, wantLen.N)
				}
			} else if r, k := st.evalCond(condEq(n, wantLen)); !k {
				c.unsure("%s: packet length %s not resolved (want %s)", sc.name, render(n), render(wantLen))
			} else if !r {
				bad("packet-samples", "packet length", "packet length %s differs from %s", render(n), render(wantLen))
			}
			if len(bs) < 12 {
				bad("packet-header", "header missing", "the packet has no whole RTP header")
				return []*State{st}
			}
			c.cmpBits("packet-header", sc.fn, "version byte", st.bits(bs[0], 8), constBits(0x80, 8))
			c.cmpBits("packet-header", sc.fn, "payload type byte", st.bits(bs[1], 8), append(st.bits(wantPT, 8)[:7:7], bit{k: '0'}))
			key := "sent"
			if v, ok := st.fieldOf(bs[2:4]); ok {
				y, d, ok := affine(v)
				if !ok || y != s.seq {
					bad("packet-header", "sequence number", "the packet's sequence number is %s, not derived from the session's", render(v))
				} else {
					key += fmt.Sprintf(" seq%+d", d&0xffff)
				}
			} else {
				c.unsure("%s: sequence bytes not resolved: %s", sc.name, render(bs[2]))
			}
			if v, ok := st.fieldOf(bs[4:8]); ok {
				if y, d, ok := affine(v); !ok || y != s.ts || d&0xffffffff != 0 {
					bad("packet-header", "timestamp", "the packet's timestamp is %s, must be the session's timestamp before the call", render(v))
				}
			} else {
				c.unsure("%s: timestamp bytes not resolved", sc.name)
			}
			if v, ok := st.fieldOf(bs[8:12]); ok {
				if !valEq(v, isym(s.ssrc)) {
					bad("packet-header", "source id", "the packet's source id is %s", render(v))
				}
			}
			for i := 12; i < len(bs) && n.isConstInt(); i++ {
				c.count("payload_bytes_compared", 1)
				if sc.n == -1 {
					t := types.Typ[types.Int16]
					smp := isym(initSym(Loc{in, fmt.Sprintf("[%d]", i-12)}, t))
					u := isym(term("ulaw", types.Typ[types.Int64], smp))
					c.cmpSample(st, sc.fn, i, bs[i], u)
				} else {
					want := initSym(Loc{in, fmt.Sprintf("[%d]", i-12)}, tByte)
					c.cmpBits("packet-samples", sc.fn, fmt.Sprintf("payload byte %d", i-12), st.bits(bs[i], 8), leafBits(want, 0, 8, 8))
				}
			}
			st.setMon(key)
			return []*State{st}
		}
		rs := e.call(s.st, sc.fn, args, nil, nil, "R03")
		c.obligations(e, "crash", nil)
		for _, r := range rs {
			c.count("exits", 1)
			if r.st.nilness(r.v) == 2 {
				continue // a failed write
			}
			if r.st.mon.Key == "" {
				bad("advance", "nothing sent", "a connected session can report success without sending a packet")
				continue
			}
			q := r.st.load(Loc{s.o, ".Header.Seq"}, types.Typ[types.Uint16])
			y, d, ok := affine(q)
			if !ok || y != s.seq || d&0xffff != 1 {
				bad("advance", "sequence number", "after a packet the session's sequence number is %s, must be one more than before", render(q))
			}
			if i := strings.Index(r.st.mon.Key, "seq+"); i >= 0 && r.st.mon.Key[i:] != "seq+0" && r.st.mon.Key[i:] != "seq+1" {
				bad("packet-header", "sequence number", "the packet carries the session's sequence number %s", r.st.mon.Key[i:])
			}
			tv := r.st.load(Loc{s.o, ".Header.TS"}, types.Typ[types.Uint32])
			okTS := false
			if wantTS.isConstInt() {
				y, d, ok := affine(tv)
				okTS = ok && y == s.ts && d&0xffffffff == wantTS.N
			} else if tv.S != 0 && syms[tv.S].Op == "add" && tv.N == 0 {
				a := syms[tv.S].Args
				okTS = valEq(a[0], isym(s.ts)) && valEq(a[1], wantTS) || valEq(a[1], isym(s.ts)) && valEq(a[0], wantTS)
			}
			if !okTS {
				bad("advance", "timestamp", "after a packet the session's timestamp is %s, must grow by %s", render(tv), render(wantTS))
			}
		}
	}
	// without socket or peer
	for _, fn := range []*ssa.Function{send, raw} {
		for _, f := range []string{"Sock", "Peer", "nil"} {
			e := c.engine()
			s := c.session(e)
			if s == nil {
				return
			}
			recv := ploc(Loc{s.o, ""})
			if f == "nil" {
				recv = nilVal
			} else {
				s.st.store(Loc{s.o, "." + f}, nilVal, c.fieldType("rtp.Session", f))
			}
			before := map[string]Val{}
			for k, v := range s.st.ostate(s.o).cells {
				before[k] = v
			}
			args := []Val{recv}
			for i, p := range fn.Params {
				if i > 0 {
					args = append(args, e.genericArg(s.st, fn.Name()+p.Name(), p.Type()))
				}
			}
			if fn == send {
				s.st.assumeNil(args[1], false)
			}
			e.onEvent = func(e *Engine, st *State, ev *Event) []*State {
				if _, ok := sockWrites[ev.Kind]; ok {
					c.fail("unconnected", pos2(c, ev.In), fnName(fn)+" without "+f, "a packet is written although %s is nil", f)
				}
				return []*State{st}
			}
			rs := e.call(s.st, fn, args, nil, nil, "R03")
			c.obligations(e, "crash", nil)
			for _, r := range rs {
				if f == "nil" {
					continue
				}
				for k, v := range r.st.ostate(s.o).cells {
					if strings.HasPrefix(k, ".Header") && !valEq(v, before[k]) {
						c.fail("unconnected", c.p.pos(fn.Pos()), fnName(fn)+" changes "+k, "%s changes %s although %s is nil", fnName(fn), k, f)
					}
				}
			}
		}
	}
}

func pos2(c *Check, in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	return c.p.pos(instrPos(in))
}

func condEq(a, b Val) Val { return cond(token.EQL, a, b) }

// cmpSample compares one encoded sample with the companded frame sample.
func (c *Check) cmpSample(st *State, fn *ssa.Function, i int, got, want Val) {
	v := got
	for v.S != 0 && v.N == 0 && syms[v.S].Op == "conv" {
		v = syms[v.S].Args[0]
	}
	if valEq(v, want) {
		return
	}
	if v.S != 0 && v.N == 0 && syms[v.S].Op == "ulaw" {
		a := syms[v.S].Args[0]
		for a.S != 0 && a.N == 0 && syms[a.S].Op == "conv" {
			a = syms[a.S].Args[0]
		}
		if valEq(isym(term("ulaw", types.Typ[types.Int64], a)), want) {
			return
		}
		c.fail("packet-samples", c.p.pos(fn.Pos()), fnName(fn)+": samples in order", "byte %d of the packet is %s, must be %s", i, render(got), render(want))
		return
	}
	if v.isConstInt() || v.S != 0 && (syms[v.S].Op == "init" || syms[v.S].Op == "ulaw") {
		c.fail("packet-samples", c.p.pos(fn.Pos()), fnName(fn)+": samples in order", "byte %d of the packet is %s, must be %s", i, render(got), render(want))
		return
	}
	c.unsure("%s: payload byte %d not resolved: %s", fnName(fn), i, render(got))
}

type pkt struct {
	mark bool
	pt   int64
	seq  int64
	ts   int64
	code int64
	end  bool
	res  bool
	vol  int64
	dur  int64
	bad  string
}

func (p pkt) key() string {
	return fmt.Sprintf("%v,%d,%d,%d,%d,%v,%v,%d,%d,%s;", p.mark, p.pt, p.seq, p.ts, p.code, p.end, p.res, p.vol, p.dur, p.bad)
}

// dtmfTrains runs SendDTMF for one digit and gives each path's packets.
func (c *Check) dtmfTrains(digit int, f func(s *sess, r callRes, train []pkt, failed bool)) bool {
	fn := c.fn("rtp.Session.SendDTMF")
	if fn == nil {
		return false
	}
	e := c.engine()
	s := c.session(e)
	if s == nil {
		return false
	}
	trains := map[string][]pkt{}
	e.onEvent = func(e *Engine, st *State, ev *Event) []*State {
		if ev.Kind == "sockdone.WriteTo" || strings.HasPrefix(ev.Kind, "sockdone.Write") {
			if ev.Args[0].K == KTuple && len(ev.Args[0].El) == 2 && st.nilness(ev.Args[0].El[1]) == 2 {
				k := st.mon.Key + "F"
				trains[k] = trains[st.mon.Key]
				st.setMon(k)
			}
			return []*State{st}
		}
		bi, ok := sockWrites[ev.Kind]
		if !ok {
			return []*State{st}
		}
		c.count("packets_checked", 1)
		var p pkt
		bs, n, ok := packet(st, ev.Args[bi])
		if !ok || !n.isConstInt() {
			p.bad = "unresolved"
		} else if n.N != 16 {
			p.bad = fmt.Sprintf("length %d", n.N)
		} else {
			num := func(what string, b []bit) int64 {
				x := int64(0)
				for i, y := range b {
					if y.k == '1' {
						x |= 1 << uint(i)
					} else if y.k != '0' && p.bad == "" {
						p.bad = what + " unresolved"
					}
				}
				return x
			}
			if num("version", st.bits(bs[0], 8)) != 0x80 {
				p.bad = "version byte"
			}
			b1 := st.bits(bs[1], 8)
			for _, y := range b1[:7] {
				if y.k == 'b' && y.s == s.pt {
					p.bad = "payload type of an earlier packet"
				}
			}
			p.pt = num("payload type", b1[:7])
			p.mark = num("marker", b1[7:]) == 1
			if v, ok := st.fieldOf(bs[2:4]); ok {
				y, d, _ := affine(v)
				p.seq = d & 0xffff
				if y != s.seq {
					p.bad = "sequence number not derived from the session's"
				}
			} else {
				p.bad = "sequence unresolved"
			}
			if v, ok := st.fieldOf(bs[4:8]); ok {
				y, d, _ := affine(v)
				p.ts = d & 0xffffffff
				if y != s.ts {
					p.bad = "timestamp not derived from the session's"
				}
			} else {
				p.bad = "timestamp unresolved"
			}
			if v, ok := st.fieldOf(bs[8:12]); !ok || !valEq(v, isym(s.ssrc)) {
				p.bad = "source id"
			}
			p.code = num("event", st.bits(bs[12], 8))
			b13 := st.bits(bs[13], 8)
			p.vol = num("volume", b13[:6])
			p.res = num("reserved", b13[6:7]) == 1
			p.end = num("end bit", b13[7:]) == 1
			p.dur = num("duration", append(append([]bit{}, st.bits(bs[15], 8)...), st.bits(bs[14], 8)...))
		}
		k := st.mon.Key + p.key()
		if _, ok := trains[k]; !ok {
			trains[k] = append(append([]pkt{}, trains[st.mon.Key]...), p)
		}
		st.setMon(k)
		if n := len(trains[k]); n > 60 {
			c.fail("train", c.p.pos(instrPos(ev.In)), fnName(fn)+": number of packets", "digit %q: more than sixty packets are sent", rune(digit))
			return nil
		} else if n > 1 && p.bad == "" && trains[k][n-2].bad == "" && p.dur < trains[k][n-2].dur {
			c.fail("train", c.p.pos(instrPos(ev.In)), fnName(fn)+": duration", "digit %q: packet %d has duration %d after %d", rune(digit), n-1, p.dur, trains[k][n-2].dur)
			return nil
		}
		return []*State{st}
	}
	rs := e.call(s.st, fn, []Val{ploc(Loc{s.o, ""}), iconst(int64(digit))}, nil, nil, "DTMF")
	c.obligations(e, "crash", nil)
	if e.gaveUp != "" {
		return false
	}
	for _, r := range rs {
		f(s, r, trains[r.st.mon.Key], strings.Contains(r.st.mon.Key, "F"))
	}
	return true
}

func digitCode(ch int) int {
	if ch >= 'a' && ch <= 'd' {
		ch -= 32
	}
	if ch == 0 {
		return -1
	}
	return strings.IndexByte(dtmfDigits, byte(ch))
}

func checkR04(c *Check) {
	c.rules = append(c.rules, "train", "marker-cleared", "invalid-digit")
	fn := c.fn("rtp.Session.SendDTMF")
	if fn == nil {
		return
	}
	c.analysed(fn)
	pos, name := c.p.pos(fn.Pos()), fnName(fn)
	for d := 0; d < 256; d++ {
		code := digitCode(d)
		okExit := false
		done := c.dtmfTrains(d, func(s *sess, r callRes, train []pkt, failed bool) {
			c.count("paths", 1)
			nn := r.st.nilness(r.v)
			if code < 0 {
				if len(train) > 0 {
					c.fail("invalid-digit", pos, name+": sends for an invalid digit", "digit %q sends %d packets", rune(d), len(train))
				}
				if nn == 1 {
					c.fail("invalid-digit", pos, name+": accepts an invalid digit", "digit %q is not refused", rune(d))
				}
				return
			}
			m := r.st.load(Loc{s.o, ".Header.Mark"}, tBool)
			if !(m.isConstBool() && m.N == 0) {
				if v, k := r.st.evalCond(m); k && v || m.isConstBool() {
					what := "after success"
					if failed {
						what = "after a failed write"
					}
					c.fail("marker-cleared", pos, name+": marker stays set "+what, "the session's marker is still set when SendDTMF returns %s", what)
				} else if !k {
					c.unsure("%s: marker at exit not resolved", name)
				}
			}
			complete := !failed && nn == 1
			okExit = okExit || complete
			if failed && nn == 1 && !complete {
				c.count("swallowed_write_errors", 1)
			}
			c.trainRules(s, r, fn, d, code, train, complete)
		})
		if !done {
			return
		}
		if code >= 0 && !okExit {
			c.fail("train", pos, name+": refuses a valid digit", "no successful path for digit %q", rune(d))
		}
	}
}

func (c *Check) trainRules(s *sess, r callRes, fn *ssa.Function, digit, code int, train []pkt, complete bool) {
	pos, name := c.p.pos(fn.Pos()), fnName(fn)
	bad := func(what, format string, a ...any) {
		c.fail("train", pos, name+": "+what, "digit %q: "+format, append([]any{rune(digit)}, a...)...)
	}
	var seqs []string
	for i, p := range train {
		if p.bad != "" {
			if strings.Contains(p.bad, "unresolved") {
				c.unsure("%s: packet %d: %s", name, i, p.bad)
			} else {
				bad(p.bad, "packet %d: %s", i, p.bad)
			}
			return
		}
		seqs = append(seqs, fmt.Sprint(p.dur))
		if p.pt != 101 {
			bad("payload type", "packet %d has payload type %d", i, p.pt)
		}
		if p.code != int64(code) {
			bad("event code", "packet %d carries event %d, must be %d", i, p.code, code)
		}
		if p.mark != (i == 0) {
			bad("marker", "packet %d has marker %v", i, p.mark)
		}
		if p.res {
			bad("reserved bit", "packet %d sets the reserved bit", i)
		}
		if p.ts != train[0].ts || p.ts != 0 {
			bad("timestamp", "packet %d has the timestamp shifted by %d", i, p.ts)
		}
		if i > 0 && p.seq != train[i-1].seq+1 {
			bad("sequence number", "packet %d has sequence number offset %d after %d", i, p.seq, train[i-1].seq)
		}
		if i == 0 && p.seq > 1 {
			bad("sequence number", "the first packet is %d after the session's sequence number", p.seq)
		}
		if i > 0 && p.dur < train[i-1].dur {
			bad("duration", "packet %d has duration %d after %d", i, p.dur, train[i-1].dur)
		}
		if complete && p.end != (i >= len(train)-3) {
			bad("end bit", "packet %d of %d has end bit %v", i, len(train), p.end)
		}
		if complete && p.end && p.dur != train[len(train)-1].dur {
			bad("end duration", "end packets differ in duration")
		}
	}
	if complete {
		if len(train) < 3 {
			bad("number of packets", "only %d packets are sent", len(train))
		} else if n := train[len(train)-1]; n.dur == 0 {
			bad("duration", "the end packets have no duration")
		}
		q := r.st.load(Loc{s.o, ".Header.Seq"}, types.Typ[types.Uint16])
		if y, d, ok := affine(q); !ok || y != s.seq || d&0xffff != int64(len(train)) {
			bad("sequence number afterwards", "after %d packets the session's sequence number is %s", len(train), render(q))
		}
		// the full duration is at most one step after the last update
		step, last := int64(0), int64(0)
		for _, p := range train {
			if p.end {
				if last > 0 && step > 0 && p.dur > last+step {
					bad("end duration", "the end packets have duration %d after updates in steps of %d up to %d", p.dur, step, last)
					break
				}
			} else {
				if last > 0 {
					step = max(step, p.dur-last)
				}
				last = p.dur
			}
		}
		c.sample("digit %q: %d packets, durations %s", rune(digit), len(train), strings.Join(seqs, ","))
	}
}

func checkR02(c *Check) {
	c.rules = append(c.rules, "event-write", "event-read", "table")
	wr, rd := c.fn("rtp.EventHeader.Write"), c.fn("rtp.EventHeader.Read")
	d2c, c2d := c.fn("rtp.DtmfToChar"), c.fn("rtp.CharToDtmf")
	u16 := types.Typ[types.Uint16]
	if wr != nil && rd != nil {
		c.analysed(wr)
		c.analysed(rd)
		c.boolScen(2, func(fl []bool) {
			e := c.engine()
			var h, b *Obj
			var s Val
			rs := e.run(wr, func(st *State, args []Val) []Val {
				h = recvObj(st, args, 0)
				st.assume(bsym(initSym(fieldLoc(h, "E"), tBool)), fl[0])
				st.assume(bsym(initSym(fieldLoc(h, "R"), tBool)), fl[1])
				s, b = inSlice(st, "b", tByte, iconst(9), iconst(9))
				args[1] = s
				return args
			})
			c.obligations(e, "crash", nil)
			for _, r := range rs {
				at := func(i int) []bit {
					return r.st.bits(r.st.loadElem(Loc{b, ""}, iconst(int64(i)), "", tByte), 8)
				}
				c.cmpBits("event-write", wr, "event byte", at(0), leafBits(initSym(fieldLoc(h, "Event"), tByte), 0, 8, 8))
				w := leafBits(initSym(fieldLoc(h, "Volume"), tByte), 0, 6, 8)
				w[6], w[7] = bitOfBool(fl[1]), bitOfBool(fl[0])
				c.cmpBits("event-write", wr, "flags and volume", at(1), w)
				d := initSym(fieldLoc(h, "Duration"), u16)
				c.cmpBits("event-write", wr, "duration high", at(2), leafBits(d, 8, 16, 8))
				c.cmpBits("event-write", wr, "duration low", at(3), leafBits(d, 0, 8, 8))
				for i := 4; i < 9; i++ {
					c.cmpBits("event-write", wr, "bytes after the event", at(i), leafBits(initSym(Loc{b, fmt.Sprintf("[%d]", i)}, tByte), 0, 8, 8))
				}
				c.unchanged("event-write", r.st, wr, h)
			}
			e = c.engine()
			rs = e.run(rd, func(st *State, args []Val) []Val {
				h = recvObj(st, args, 0)
				args[1], b = inSlice(st, "packet", tByte, iconst(4), iconst(4))
				st.restrict(initSym(Loc{b, "[1]"}, tByte), func(x int) bool { return x>>7 != 0 == fl[0] && x>>6&1 != 0 == fl[1] })
				return args
			})
			c.obligations(e, "crash", nil)
			for _, r := range rs {
				bt := func(i int) Sym { return initSym(Loc{b, fmt.Sprintf("[%d]", i)}, tByte) }
				for i, n := range []string{"E", "R"} {
					g := r.st.load(fieldLoc(h, n), tBool)
					v, k := r.st.evalCond(g)
					if g.isConstBool() {
						v, k = g.N != 0, true
					}
					if k && v != fl[i] || !k && g.S == initSym(fieldLoc(h, n), tBool) {
						c.fail("event-read", c.p.pos(rd.Pos()), fnName(rd)+": "+n, "%s does not follow its bit", n)
					} else if !k {
						c.unsure("EventHeader.Read: %s not resolved", n)
					}
				}
				c.cmpBits("event-read", rd, "Event", r.st.bits(r.st.load(fieldLoc(h, "Event"), tByte), 8), leafBits(bt(0), 0, 8, 8))
				c.cmpBits("event-read", rd, "Volume", r.st.bits(r.st.load(fieldLoc(h, "Volume"), tByte), 8), leafBits(bt(1), 0, 6, 8))
				var w []bit
				w = append(append(w, leafBits(bt(3), 0, 8, 8)...), leafBits(bt(2), 0, 8, 8)...)
				c.cmpBits("event-read", rd, "Duration", r.st.bits(r.st.load(fieldLoc(h, "Duration"), u16), 16), w)
			}
		})
	}
	// tables
	eval := func(fn *ssa.Function, n int) (val int64, refused, ok bool) {
		e := c.engine()
		rs := e.run(fn, func(st *State, args []Val) []Val { return []Val{iconst(int64(n))} })
		c.obligations(e, "crash", nil)
		if len(rs) != 1 || rs[0].v.K != KTuple {
			return
		}
		r := rs[0]
		switch r.st.nilness(r.v.El[1]) {
		case 2:
			return 0, true, true
		case 1:
			v := r.v.El[0]
			if lo, hi := r.st.rng(v); lo == hi {
				return lo, false, true
			}
		}
		return
	}
	table := func(fn *ssa.Function, want func(n int) int) {
		if fn == nil {
			return
		}
		c.analysed(fn)
		for n := 0; n < 256; n++ {
			v, ref, ok := eval(fn, n)
			c.count("table_entries", 1)
			if !ok {
				c.unsure("%s(%d) not resolved", fnName(fn), n)
				continue
			}
			w := want(n)
			if w < 0 && !ref {
				c.fail("table", c.p.pos(fn.Pos()), fmt.Sprintf("%s(%d)", fnName(fn), n), "%s(%d) gives %d, must be refused", fnName(fn), n, v)
			} else if w >= 0 && (ref || v != int64(w)) {
				c.fail("table", c.p.pos(fn.Pos()), fmt.Sprintf("%s(%d)", fnName(fn), n), "%s(%d) gives %d (refused %v), must be %d", fnName(fn), n, v, ref, w)
			}
		}
	}
	table(c2d, digitCode)
	table(d2c, func(n int) int {
		if n < len(dtmfDigits) {
			return int(dtmfDigits[n])
		}
		return -1
	})
	sd := c.fn("rtp.Session.SendDTMF")
	c.analysed(sd)
	for d := 0; d < 256; d++ {
		code := digitCode(d)
		if !c.dtmfTrains(d, func(s *sess, r callRes, train []pkt, failed bool) {
			if code < 0 && len(train) > 0 {
				c.fail("table", c.p.pos(sd.Pos()), fmt.Sprintf("%s(%d)", fnName(sd), d), "an invalid digit is sent as event %d", train[0].code)
			}
			for _, p := range train {
				if p.bad == "" && p.code != int64(code) {
					c.fail("table", c.p.pos(sd.Pos()), fmt.Sprintf("%s(%d)", fnName(sd), d), "digit %q is sent as event %d, must be %d", rune(d), p.code, code)
				}
			}
			if code >= 0 && len(train) == 0 {
				c.fail("table", c.p.pos(sd.Pos()), fmt.Sprintf("%s(%d)", fnName(sd), d), "digit %q is not sent", rune(d))
			}
		}) {
			return
		}
		c.count("table_entries", 1)
	}
}
