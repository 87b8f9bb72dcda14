package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M01", "The readers of a media line and of its codecs are interpreted for one to five tokens, up to two payload types, two rtpmap lines and one fmtp line, with every text unknown; what they return must be made from the tokens it belongs to. Parse itself is interpreted for any number of lines, with those readers as contracts: where it accepts, the connection address and the origin's address are tokens that follow IN and IP4 or IP6 on a line, known to be non-empty and without a slash, a medium is there, and each medium holds what was read of one media line; where it refuses, no description is returned.", checkM01)
}

// sdpTok is the i-th piece of a text split at blanks or slashes.
func sdpTok(sep string, s Val, i int) Val {
	return ssym(term("tok"+sep, tString, s, iconst(int64(i))))
}

func isTok(v Val, sep string) (Val, int, bool) {
	if v.K == KStr && v.S != 0 && syms[v.S].Op == "tok"+sep {
		return syms[v.S].Args[0], int(syms[v.S].Args[1].N), true
	}
	return Val{}, 0, false
}

// sdpSplit gives the pieces of a split text names: n of them, or an unknown
// number with the first eight named.
func sdpSplit(e *Engine, sep string, max int, then func(st *State, toks []Val, ln Val)) {
	old := map[string]func(e *Engine, c *callCtx) []callRes{}
	split := func(e *Engine, c *callCtx) []callRes {
		if len(c.args) < 1 || c.args[0].K != KStr || c.name != "strings.Fields" && (len(c.args) < 2 || !c.args[1].isConstStr() || c.args[1].Str == "") {
			return e.externalResult(c)
		}
		if len(c.args) > 1 && c.args[1].Str != sep && sep != "*" || c.name == "strings.Fields" && sep != " " && sep != "*" || len(c.args) == 3 && (!c.args[2].isConstInt() || c.args[2].N < 2) {
			return old[c.name](e, c)
		}
		s, lo := " ", 1
		if len(c.args) > 1 {
			s = c.args[1].Str
		} else {
			lo = 0
		}
		hi := max
		if len(c.args) == 3 && hi > 0 && int64(hi) > c.args[2].N {
			hi = int(c.args[2].N)
		}
		var out []callRes
		one := func(st *State, n int, ln Val) {
			o := e.alloc(st, c.site+"split", "pieces", tString, false)
			var toks []Val
			for i := 0; i < n; i++ {
				t := sdpTok(s, c.args[0], i)
				if len(c.args) == 1 {
					st.assume(cond(token.GTR, st.strLen(t), iconst(0)), true)
				}
				st.addDiff(st.strLen(t), st.strLen(c.args[0]), 0)
				st.wstate(o).cells[fmt.Sprintf("[%d]", i)] = t
				toks = append(toks, t)
			}
			if then != nil {
				then(st, toks, ln)
			}
			out = append(out, callRes{st, mkSlice(ploc(Loc{o, ""}), iconst(0), ln, ln)})
		}
		if max == 0 {
			ln := freshSym("len", lenType)
			c.st.setLo(ln, int64(lo))
			one(c.st, 8, isym(ln))
			return out
		}
		for n := lo; n <= hi; n++ {
			one(c.st.clone(), n, iconst(int64(n)))
		}
		return out
	}
	for _, n := range []string{"strings.Split", "strings.SplitN", "strings.Fields"} {
		old[n] = e.intrinsics[n]
		e.intrinsics[n] = split
	}
}

// sdpNumber: v is the number token t denotes. 1 yes, 0 no, -1 unknown.
func sdpNumber(st *State, v, t Val, prefix bool) int {
	for v.S != 0 && v.N == 0 && syms[v.S].Op == "conv" {
		in := syms[v.S].Args[0]
		lo, hi := st.rng(in)
		tl, th, _ := typeRange(syms[v.S].T)
		if lo < tl || hi > th {
			return 0
		}
		v = in
	}
	if v.isConstInt() {
		return 0
	}
	if v.S == 0 {
		return -1
	}
	if v.N != 0 {
		return 0
	}
	si := syms[v.S]
	if si.Op == "and" && len(si.Args) == 2 && si.Args[0].isConstInt() && isAtoi(si.Args[1]) {
		in, k := si.Args[1], si.Args[0].N
		if lo, hi := st.rng(in); lo >= 0 && hi <= k && k&(k+1) == 0 {
			return sdpNumber(st, in, t, prefix)
		}
		return 0
	}
	if si.Op == "" && si.Name == "bad" {
		return 0 // the value left by a conversion that failed
	}
	if si.Op != "atoi" {
		return -1
	}
	if !si.Args[2].isConstInt() || si.Args[2].N != 10 {
		return 0
	}
	x := si.Args[0]
	if valEq(x, t) {
		return 1
	}
	if prefix && x.S != 0 && syms[x.S].Op == "substr" && valEq(syms[x.S].Args[0], t) {
		if a := syms[x.S].Args[1]; a.isConstInt() && a.N == 0 {
			return 1
		}
		return 0
	}
	if _, _, ok := isTok(x, " "); ok {
		return 0
	}
	return -1
}

// sdpMediaLine: Part A.
func (c *Check) sdpMediaLine(fn *ssa.Function) {
	e := c.engine()
	e.concrete, e.paths, e.splitCalls = true, true, true
	ntok := 0
	s := ssym(freshSym("line", tString))
	sdpSplit(e, " ", 5, func(st *State, toks []Val, ln Val) { st.setMonVal("$n", iconst(int64(len(toks)))) })
	rs := e.run(fn, func(st *State, args []Val) []Val {
		st.setMonVal("$s", s)
		return []Val{s}
	})
	if c.gaveUp(e, fnName(fn)) {
		return
	}
	c.obligations(e, "bounds", nil)
	pos := c.p.pos(fn.Pos())
	accepted := 0
	for _, r := range rs {
		if r.v.K != KTuple || len(r.v.El) != 4 {
			c.unsure("%s: result", fnName(fn))
			return
		}
		port, proto, pts, err := r.v.El[0], r.v.El[1], r.v.El[2], r.v.El[3]
		if r.st.nilness(err) == 2 {
			continue
		}
		if r.st.nilness(err) != 1 {
			c.unsure("%s: error result not known", fnName(fn))
			continue
		}
		accepted++
		n, ok := r.st.monVal("$n")
		if !ok {
			c.unsure("%s accepts a line it does not split", fnName(fn))
			continue
		}
		ntok = int(n.N)
		what := fmt.Sprintf("a media line of %d tokens", ntok)
		judge := func(rule, name string, ok int, got Val) {
			if ok == 0 {
				c.fail(rule, pos, fnName(fn)+" "+name, "%s is accepted with %s %s", what, name, render(got))
			} else if ok < 0 {
				c.unsure("%s: %s is %s", fnName(fn), name, render(got))
			}
		}
		judge("port", "port", sdpNumber(r.st, port, sdpTok(" ", s, 0), true), port)
		if lo, _ := r.st.rng(r.st.strLen(proto)); lo < 1 {
			c.fail("protocol", pos, fnName(fn)+" protocol", "%s is accepted with a protocol that may be empty", what)
		} else if !valEq(proto, sdpTok(" ", s, 1)) {
			if _, _, ok := isTok(proto, " "); ok || definiteText(proto) {
				judge("protocol", "protocol", 0, proto)
			} else {
				judge("protocol", "protocol", -1, proto)
			}
		}
		p := e.asSlice(pts)
		if p.K != KSlice || !p.El[2].isConstInt() {
			c.unsure("%s: payload types", fnName(fn))
			continue
		}
		if p.El[2].N != int64(max(ntok-2, 0)) {
			c.fail("payload types", pos, fnName(fn)+" payload types", "%s gives %d payload types", what, p.El[2].N)
			continue
		}
		for i := 0; i < ntok-2; i++ {
			v := c.elem(r.st, p, i, types.Typ[types.Uint8], "")
			judge("payload types", fmt.Sprintf("payload type %d", i), sdpNumber(r.st, v, sdpTok(" ", s, i+2), false), v)
		}
	}
	if accepted == 0 {
		c.unsure("%s never accepts", fnName(fn))
	}
	c.count("ways a media line is accepted", accepted)
}

// elem reads a field of element i of a slice of known length.
func (c *Check) elem(st *State, s Val, i int, t types.Type, field string) Val {
	off := s.El[1]
	if s.El[0].L.O == nil || !off.isConstInt() {
		return Val{}
	}
	return st.load(Loc{s.El[0].L.O, fmt.Sprintf("%s[%d]%s", s.El[0].L.Path, off.N+int64(i), field)}, t)
}

// sdpCodecs: Part B.
func (c *Check) sdpCodecs(fn *ssa.Function, npts, nmaps, nfmtps int) {
	if c.memo == nil {
		c.memo = map[string]*Obj{}
	}
	e := c.engine()
	e.concrete, e.paths, e.splitCalls = true, true, true
	sdpSplit(e, "/", 3, nil)
	media := c.input("media", "sdp.Media")
	arr := func(name string, t types.Type, n int) (Val, *Obj) {
		o := c.memo["$"+name]
		if o == nil {
			o = newObj(name, "in:"+name, t)
			o.Input = true
			c.memo["$"+name] = o
		}
		return mkSlice(ploc(Loc{o, ""}), iconst(0), iconst(int64(n)), iconst(int64(n))), o
	}
	pts, po := arr("pts", types.Typ[types.Uint8], npts)
	maps, mo := arr("rtpmaps", tString, nmaps)
	fm, fo := arr("fmtps", tString, nfmtps)
	rs := e.run(fn, func(st *State, args []Val) []Val {
		st.setMonVal("$media", ptrTo(media))
		st.setMonVal("$pts", ploc(Loc{po, ""}))
		st.setMonVal("$maps", ploc(Loc{mo, ""}))
		st.setMonVal("$fmtps", ploc(Loc{fo, ""}))
		return []Val{ptrTo(media), pts, maps, fm}
	})
	what := fmt.Sprintf("%s with %d payload types, %d rtpmap and %d fmtp lines", fnName(fn), npts, nmaps, nfmtps)
	if c.gaveUp(e, what) {
		return
	}
	c.obligations(e, "bounds", nil)
	pos := c.p.pos(fn.Pos())
	accepted := 0
	codecT := elemOf(structFieldType(media.Type, "Codecs"))
	for _, r := range rs {
		st := r.st
		if st.nilness(r.v) == 2 {
			continue
		}
		if st.nilness(r.v) != 1 {
			c.unsure("%s: error result not known", what)
			continue
		}
		accepted++
		cs := e.asSlice(c.get(st, media, "Codecs"))
		if cs.K != KSlice || !cs.El[2].isConstInt() {
			c.unsure("%s: codecs", what)
			continue
		}
		if cs.El[2].N != int64(npts) {
			c.fail("codecs", pos, fnName(fn)+" number", "%s: %d codecs", what, cs.El[2].N)
			continue
		}
		for i := 0; i < npts; i++ {
			f := func(n string) Val { return c.elem(st, cs, i, structFieldType(codecT, n), "."+n) }
			pt := st.load(Loc{po, fmt.Sprintf("[%d]", i)}, types.Typ[types.Uint8])
			c.sdpCodec(st, what, fnName(fn), pos, i, pt, f, mo, nmaps, fo, nfmtps)
		}
	}
	if accepted == 0 && nmaps > 0 {
		c.unsure("%s: never accepts", what)
	}
	c.count("ways codecs are accepted", accepted)
}

// sdpAfter: v is (a part of) the text of one of the lines after "<pt> ".
// It returns the line's number, whether the line is known to begin so, and
// whether the form was recognised.
func sdpAfter(st *State, v, pt Val, o *Obj, n int) (line int, begins, form bool) {
	line = -1
	x := v
	if x.S != 0 && syms[x.S].Op == "substr" {
		x = syms[x.S].Args[0]
	}
	for k := 0; k < n; k++ {
		if valEq(x, st.load(Loc{o, fmt.Sprintf("[%d]", k)}, tString)) {
			line = k
		}
	}
	if line < 0 {
		return -1, false, false
	}
	for y := range st.facts {
		si := syms[y]
		if si.Op != "prefix" || !valEq(si.Args[0], x) {
			continue
		}
		form = true
		if k, known := st.evalCond(bsym(y)); !known || !k {
			continue
		}
		ps := flattenCat(si.Args[1])
		if len(ps) != 2 || !ps[1].isConstStr() || ps[1].Str != " " || ps[0].S == 0 || syms[ps[0].S].Op != "itoa" {
			continue
		}
		q := syms[ps[0].S].Args[0]
		for q.S != 0 && q.N == 0 && syms[q.S].Op == "conv" {
			q = syms[q.S].Args[0]
		}
		if !valEq(q, pt) {
			continue
		}
		// and v is what follows
		if v.S == 0 || syms[v.S].Op != "substr" {
			continue
		}
		if k, known := st.evalCond(condEq(syms[v.S].Args[1], st.strLen(si.Args[1]))); known && k {
			return line, true, true
		}
	}
	return line, false, form
}

func (c *Check) sdpCodec(st *State, what, fname, pos string, i int, pt Val, f func(string) Val, maps *Obj, nmaps int, fmtps *Obj, nfmtps int) {
	which := fmt.Sprintf("%s codec %d", what, i)
	if k, known := st.evalCond(condEq(f("PT"), pt)); !known || !k {
		c.fail("codecs", pos, fname+" payload type", "%s: payload type %s, listed as %s", which, render(f("PT")), render(pt))
	}
	name, rate, param := f("Name"), f("Rate"), f("Param")
	if lo, _ := st.rng(st.strLen(name)); lo < 1 {
		c.fail("codecs", pos, fname+" name", "%s: the name %s may be empty", which, render(name))
		return
	}
	if name.isConstStr() {
		if !rate.isConstInt() || rate.N <= 0 {
			c.fail("codecs", pos, fname+" rate", "%s: %s with rate %s", which, render(name), render(rate))
		}
	} else if src, k, ok := isTok(name, "/"); !ok {
		c.unsure("%s: name %s", which, render(name))
	} else {
		_, begins, form := sdpAfter(st, src, pt, maps, nmaps)
		if !form {
			c.unsure("%s: name from %s", which, render(src))
		} else if !begins {
			c.fail("codecs", pos, fname+" rtpmap", "%s: name from an rtpmap line that may be of another payload type", which)
		}
		if k != 0 {
			c.fail("codecs", pos, fname+" name", "%s: the name is part %d of the rtpmap line", which, k)
		}
		x := sdpTok("/", src, 1)
		if n := sdpNumber(st, rate, x, false); n == 0 || n < 0 && (rate.isConstInt() || isAtoi(rate)) {
			c.fail("codecs", pos, fname+" rate", "%s: rate %s", which, render(rate))
		} else if n < 0 {
			c.unsure("%s: rate %s", which, render(rate))
		}
		if !valEq(param, sdpTok("/", src, 2)) && !(param.isConstStr() && param.Str == "") {
			if _, _, ok := isTok(param, "/"); ok || definiteText(param) {
				c.fail("codecs", pos, fname+" parameter", "%s: parameter %s", which, render(param))
			} else {
				c.unsure("%s: parameter %s", which, render(param))
			}
		}
	}
	fm := f("Fmtp")
	if fm.isConstStr() {
		for k := 0; k < nfmtps; k++ {
			l := st.load(Loc{fmtps, fmt.Sprintf("[%d]", k)}, tString)
			for y := range st.facts {
				si := syms[y]
				if si.Op != "prefix" || !valEq(si.Args[0], l) || !mentionsVal(si.Args[1], pt) {
					continue
				}
				if t, known := st.evalCond(bsym(y)); known && t {
					c.fail("codecs", pos, fname+" fmtp", "%s: the fmtp line of the payload type is not kept", which)
				}
			}
		}
		return
	}
	if _, begins, form := sdpAfter(st, fm, pt, fmtps, nfmtps); !form {
		c.unsure("%s: fmtp %s", which, render(fm))
	} else if !begins {
		c.fail("codecs", pos, fname+" fmtp", "%s: format parameters of a line that may be of another payload type", which)
	}
}

func isAtoi(v Val) bool {
	for v.S != 0 && v.N == 0 && syms[v.S].Op == "conv" {
		v = syms[v.S].Args[0]
	}
	return v.S != 0 && syms[v.S].Op == "atoi"
}

func mentionsVal(v, x Val) bool {
	if valEq(v, x) {
		return true
	}
	if v.S != 0 {
		for _, a := range syms[v.S].Args {
			if mentionsVal(a, x) {
				return true
			}
		}
	}
	for _, a := range v.El {
		if mentionsVal(a, x) {
			return true
		}
	}
	return false
}

// ---- the whole description ----

// The monitor's key: what is known of the two addresses, e.g. "c=good o=none".
type sdpReader struct {
	c    *Check
	fn   *ssa.Function
	sdpT types.Type
	odd  map[string]bool // pieces given to calls that are not modelled
}

var sdpAddrs = []string{".Addr", ".Origin.Addr"}

func sdpStatus(st *State) map[string]string {
	m := map[string]string{}
	for _, x := range strings.Fields(st.mon.Key) {
		if i := strings.IndexByte(x, '='); i > 0 {
			m[x[:i]] = x[i+1:]
		}
	}
	return m
}

func setStatus(st *State, m map[string]string) {
	var sb strings.Builder
	for _, a := range sdpAddrs {
		if m[a] != "" {
			fmt.Fprintf(&sb, "%s=%s ", a, m[a])
		}
	}
	st.setMon(sb.String())
}

func (w *sdpReader) sdp(st *State) *Obj {
	if v, ok := st.monVal("$sdp"); ok {
		return v.L.O
	}
	return nil
}

// tok is what is known of one piece of a line.
func tokFacts(st *State, t Val) string {
	is := func(s string) int {
		if k, known := st.evalCond(condEq(t, strc(s))); known {
			if k {
				return 1
			}
			return 0
		}
		return -1
	}
	out := ""
	for _, s := range []string{"IN", "IP4", "IP6"} {
		if is(s) == 1 {
			return s
		}
	}
	if k, known := st.evalCond(bsym(term("has slash", tBool, t))); known && !k {
		out += "-"
	}
	if lo, _ := st.rng(st.strLen(t)); lo > 0 {
		out += "+"
	} else if k, known := st.evalCond(condEq(t, strc(""))); known && !k {
		out += "+"
	}
	return out
}

// verdict judges an address: "" if it is fine, "?" when it cannot tell.
func (w *sdpReader) verdict(st *State, v Val) string {
	if v.isConstStr() {
		if v.Str == "" {
			return "empty"
		}
		return "constant"
	}
	s, i, ok := isTok(v, " ")
	if !ok {
		return "?"
	}
	if i < 2 {
		return "the wrong piece of its line"
	}
	// another use of the pieces than comparing them
	odd := w.odd[valKey(sdpTok(" ", s, i-2))] || w.odd[valKey(sdpTok(" ", s, i-1))] || w.odd[valKey(v)]
	for y := range syms {
		switch syms[y].Op {
		case "has slash", "tok ", "len", "==", "!=", "prefix", "sat", "init", "strings.Index", "contains":
			continue
		}
		for _, a := range syms[y].Args {
			for _, j := range []int{i - 2, i - 1, i} {
				if valEq(a, sdpTok(" ", s, j)) {
					odd = true
					if dbgBlock != "" {
						println("odd", render(isym(Sym(y))))
					}
				}
			}
		}
	}
	why := ""
	if x := tokFacts(st, sdpTok(" ", s, i-2)); x != "IN" {
		why = "not known to follow IN"
	} else if x := tokFacts(st, sdpTok(" ", s, i-1)); x != "IP4" && x != "IP6" {
		why = "not known to follow IP4 or IP6"
	} else {
		x := tokFacts(st, v)
		switch {
		case !strings.Contains(x, "-"):
			why = "possibly a multicast range"
		case !strings.Contains(x, "+"):
			why = "possibly empty"
		default:
			if n, ok := st.monVal("$n"); ok {
				if k, known := st.evalCond(condEq(n, iconst(int64(i+1)))); !known || !k {
					why = "possibly not the end of its line"
				}
			}
		}
	}
	if why != "" && odd {
		return "?"
	}
	return why
}

// settle judges the addresses stored since the last time.
func (w *sdpReader) settle(st *State) {
	m := sdpStatus(st)
	o := w.sdp(st)
	changed := false
	for _, a := range sdpAddrs {
		if m[a] != "pending" || o == nil {
			continue
		}
		v := st.load(Loc{o, a}, tString)
		changed = true
		switch why := w.verdict(st, v); why {
		case "":
			m[a] = "good"
		case "?":
			if dbgBlock != "" {
				println("settle", a, render(v), st.dump())
			}
			m[a] = "unknown"
		default:
			m[a] = strings.ReplaceAll(why, " ", "_")
		}
	}
	if changed {
		setStatus(st, m)
	}
}

func (w *sdpReader) forget(st *State) {
	st.delMonVal("$n")
	for i := 0; i < 8; i++ {
		st.delMonVal(fmt.Sprintf("$t%d", i))
		st.delMonVal(fmt.Sprintf("$s%d", i))
	}
}

func (c *Check) sdpWhole01(fn, media, codecs *ssa.Function) {
	if c.memo == nil {
		c.memo = map[string]*Obj{}
	}
	e := c.engine()
	w := &sdpReader{c: c, fn: fn, sdpT: c.p.typ("sdp.SDP"), odd: map[string]bool{}}
	sdpSplit(e, " ", 0, func(st *State, toks []Val, ln Val) {
		w.settle(st)
		st.setMonVal("$n", ln)
		for i, t := range toks {
			st.setMonVal(fmt.Sprintf("$t%d", i), t)
			st.setMonVal(fmt.Sprintf("$s%d", i), bsym(term("has slash", tBool, t)))
		}
	})
	e.onCall = func(e *Engine, cc *callCtx) ([]callRes, bool) {
		out := slashSearch(cc)
		if n := cc.name; out == nil && !strings.HasPrefix(n, "log.") && (cc.fn == nil || !c.p.inRepo(cc.fn)) {
			for _, a := range cc.args {
				if _, _, ok := isTok(a, " "); ok && n != "strings.HasPrefix" && n != "strings.HasSuffix" && !plainSearch(cc) {
					w.odd[valKey(a)] = true
				}
			}
		}
		return out, out != nil
	}
	// the status of an address changes where it is stored
	e.onStore = func(e *Engine, tg target, v Val, in *ssa.Store) {
		o := tg.l.O
		if o == nil || o.Summary {
			return
		}
		if types.Identical(o.Type, w.sdpT) && w.sdp(tg.st) == nil {
			tg.st.setMonVal("$sdp", ptrTo(o))
		}
		if o != w.sdp(tg.st) {
			return
		}
		m := sdpStatus(tg.st)
		for _, a := range sdpAddrs {
			if tg.l.Path == a || tg.l.Path == "" || strings.HasPrefix(a, tg.l.Path+".") {
				m[a] = "pending"
			}
		}
		setStatus(tg.st, m)
	}
	e.onBlock = func(e *Engine, st *State, b *ssa.BasicBlock) {
		if b.Parent() != fn || !e.fi(fn).heads[b] {
			return
		}
		w.settle(st)
		w.forget(st)
	}
	e.keyFn = func(st *State) string {
		var sb strings.Builder
		for i := 0; i < 8; i++ {
			if t, ok := st.monVal(fmt.Sprintf("$t%d", i)); ok {
				sb.WriteString(tokFacts(st, t) + ",")
			}
		}
		if o := w.sdp(st); o != nil {
			for _, f := range []string{"Audio", "Video"} {
				v := c.get(st, o, f)
				sb.WriteString(fmt.Sprint(st.nilness(v)))
				if v.K == KPtr && v.L.O != nil {
					sb.WriteString(fmt.Sprint("&", v.L.O.ID, " "))
				}
			}
		}
		return sb.String()
	}
	// what was verified of the readers
	e.intrinsics[media.String()] = func(e *Engine, cc *callCtx) []callRes {
		s := cc.args[0]
		f := cc.st.clone()
		bad := tuple(iconst(0), strc(""), nilSlice(), e.errVal(f, "media line"))
		if cc.sig.Results().Len() != 4 || s.K != KStr {
			return e.externalResult(cc)
		}
		port := isym(term("m.port", cc.sig.Results().At(0).Type(), s))
		proto := strTerm(cc.st, "m.proto", 1, s)
		o := e.alloc(cc.st, cc.site+"pts", "pts", types.Typ[types.Uint8], true)
		cc.st.wstate(o).cells["$of"] = s
		n := freshSym("len", lenType)
		return []callRes{{cc.st, tuple(port, proto, mkSlice(ploc(Loc{o, ""}), iconst(0), isym(n), isym(n)), nilVal)}, {f, bad}}
	}
	e.intrinsics[codecs.String()] = func(e *Engine, cc *callCtx) []callRes {
		var out []callRes
		for _, tg := range e.resolve(cc.st, cc.args[0], cc.in, "media") {
			f := tg.st.clone()
			out = append(out, callRes{f, e.errVal(f, "codecs")})
			pts := e.asSlice(cc.args[1])
			of := Val{}
			if pts.K == KSlice && pts.El[0].L.O != nil {
				if h, ok := tg.st.heap[pts.El[0].L.O]; ok {
					of = h.cells["$of"]
				}
			}
			if of.K == KStr {
				tg.st.wstate(tg.l.O).cells["$of"] = of
			}
			out = append(out, callRes{tg.st, nilVal})
		}
		return out
	}
	s := ssym(freshSym("text", tString))
	rs := e.run(fn, func(st *State, args []Val) []Val { return []Val{s} })
	if c.gaveUp(e, fnName(fn)) {
		return
	}
	c.obligations(e, "bounds", nil)
	pos := c.p.pos(fn.Pos())
	accepted, refused := 0, 0
	for _, r := range rs {
		st := r.st
		if r.v.K != KTuple || len(r.v.El) != 2 {
			c.unsure("%s: result", fnName(fn))
			return
		}
		v, err := r.v.El[0], r.v.El[1]
		switch st.nilness(err) {
		case 2:
			refused++
			if st.nilness(v) != 1 {
				c.fail("refused", pos, fnName(fn)+" error with description", "a description is returned together with an error")
			}
			continue
		case 1:
		default:
			c.unsure("%s: error result not known", fnName(fn))
			continue
		}
		accepted++
		if st.nilness(v) != 2 || v.L.O == nil {
			if st.nilness(v) != 2 {
				c.fail("refused", pos, fnName(fn)+" neither", "neither a description nor an error is returned")
			} else {
				c.unsure("%s: description %s", fnName(fn), render(v))
			}
			continue
		}
		o := v.L.O
		w.settle(st)
		m := sdpStatus(st)
		for _, a := range sdpAddrs {
			name := map[string]string{".Addr": "the connection address", ".Origin.Addr": "the origin's address"}[a]
			switch {
			case o != w.sdp(st):
				c.unsure("%s: returned description not followed", fnName(fn))
			case m[a] == "good":
			case m[a] == "unknown":
				c.unsure("%s: %s not followed", fnName(fn), name)
			case m[a] == "":
				c.fail("addresses", pos, fnName(fn)+" "+a, "a description is accepted without %s", name)
			default:
				c.fail("addresses", pos, fnName(fn)+" "+a, "a description is accepted where %s is %s", name, strings.ReplaceAll(m[a], "_", " "))
			}
		}
		some := false
		for _, f := range []string{"Audio", "Video"} {
			mv := c.get(st, o, f)
			switch st.nilness(mv) {
			case 1:
				continue
			case 2:
			default:
				c.unsure("%s: %s", fnName(fn), f)
				some = true
				continue
			}
			some = true
			mo := mv.L.O
			if mo == nil {
				c.unsure("%s: %s is %s", fnName(fn), f, render(mv))
				continue
			}
			of := st.heap[mo].cells["$of"]
			port, proto := c.get(st, mo, "Port"), c.get(st, mo, "Proto")
			if of.K != KStr {
				c.fail("media", pos, fnName(fn)+" "+f+" codecs", "%s is offered without the codecs of its media line", f)
				continue
			}
			c.sdpHolds("media", pos, fnName(fn)+" "+f+" port", f+" port", port, isym(term("m.port", structFieldType(mo.Type, "Port"), of)))
			c.sdpHolds("media", pos, fnName(fn)+" "+f+" protocol", f+" protocol", proto, ssym(term("m.proto", tString, of)))
		}
		if !some {
			c.fail("media", pos, fnName(fn)+" no media", "a description without media is accepted")
		}
	}
	if accepted == 0 || refused == 0 {
		c.unsure("%s: %d ways to accept, %d to refuse", fnName(fn), accepted, refused)
	}
	c.count("ways a description is accepted", accepted)
	c.count("ways a description is refused", refused)
}

func (c *Check) sdpHolds(rule, pos, construct, what string, got, want Val) {
	if valEq(got, want) {
		return
	}
	if got.S != 0 && strings.HasPrefix(syms[got.S].Op, "m.") || definiteText(got) || got.isConstInt() {
		c.fail(rule, pos, construct, "%s is %s, not that of its media line", what, render(got))
		return
	}
	c.unsure("%s is %s", what, render(got))
}

// plainSearch: a search for one constant other than a slash.
func plainSearch(cc *callCtx) bool {
	if len(cc.args) != 2 {
		return false
	}
	switch p := cc.args[1]; fnName(cc.fn) {
	case "strings.Index", "strings.LastIndex", "strings.Contains", "strings.Count":
		return p.isConstStr() && p.Str != "/"
	case "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.ContainsRune":
		return p.isConstInt() && p.N != '/'
	case "strings.IndexAny", "strings.ContainsAny":
		return p.isConstStr() && !strings.Contains(p.Str, "/")
	}
	return false
}

// slashSearch splits where a text is searched for a slash.
func slashSearch(cc *callCtx) []callRes {
	if cc.fn == nil || len(cc.args) != 2 || cc.args[0].S == 0 {
		return nil
	}
	if _, _, ok := isTok(cc.args[0], " "); !ok {
		return nil
	}
	p := cc.args[1]
	name := fnName(cc.fn)
	switch name {
	case "strings.Index", "strings.LastIndex", "strings.Contains", "strings.IndexAny", "strings.ContainsAny", "strings.Count":
		if !p.isConstStr() || p.Str != "/" {
			return nil
		}
	case "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.ContainsRune":
		if !p.isConstInt() || p.N != '/' {
			return nil
		}
	default:
		return nil
	}
	x := bsym(term("has slash", tBool, cc.args[0]))
	yes, no := bconst(true), bconst(false)
	f := cc.st.clone()
	st := cc.st
	ok := st.assume(x, true) && st.assume(cond(token.GTR, st.strLen(cc.args[0]), iconst(0)), true)
	if !strings.Contains(name, "Contains") {
		i := isym(freshSym("found", lenType))
		lo, none := int64(0), int64(-1)
		if strings.HasSuffix(name, "Count") {
			lo, none = 1, 0
		}
		ok = ok && st.setLo(i.S, lo) && st.addDiff(i, st.strLen(cc.args[0]), lo-1)
		yes, no = i, iconst(none)
	}
	var out []callRes
	if ok {
		out = append(out, callRes{st, yes})
	}
	if f.assume(x, false) {
		out = append(out, callRes{f, no})
	}
	return out
}

func checkM01(c *Check) {
	c.rules = append(c.rules, "port", "protocol", "payload types", "codecs", "addresses", "media", "refused")
	fn := func(n string) *ssa.Function { return c.p.fn(n) }
	parse := c.fn("sdp.Parse")
	if parse == nil {
		return
	}
	media, codecs := fn("sdp.parseMediaInfo"), fn("sdp.populateCodecs")
	if media == nil || codecs == nil {
		c.unsure("the readers of media lines have other names: not decided")
		return
	}
	c.analysed(parse)
	c.analysed(media)
	c.analysed(codecs)
	c.sdpMediaLine(media)
	for _, n := range [][3]int{{0, 1, 1}, {1, 0, 0}, {1, 1, 1}, {1, 2, 1}, {1, 0, 2}, {2, 1, 0}} {
		c.sdpCodecs(codecs, n[0], n[1], n[2])
	}
	c.sdpWhole01(parse, media, codecs)
}
