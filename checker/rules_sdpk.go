package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M04", "Parse is interpreted on descriptions with the mandatory lines and up to two further lines of unknown text, before, between and after them. On every path that accepts, each kind of line the unknown ones can be on that path is considered; session name, time, packet time, direction, attributes, other lines, and the media, rtpmap and fmtp texts handed to their readers must be exactly what lines of those kinds say, in order. New is interpreted for an unknown address and zero to three codecs.", checkM04)
}

// sdpKept checks one layout of lines.
type sdpKept struct {
	c     *Check
	fn    *ssa.Function
	what  string
	lines []Val
	known map[string]bool
	e     *Engine
	odd   bool // the path has tests that are not followed
}

// the kinds of lines: the text they begin with, or are ("=..."), and what they
// must not begin with or be.
type lineKind struct {
	name, text string
	exact      bool
	not        []string // texts that are another kind; a final $ for whole lines
}

var sdpRecognised = []string{"a=rtpmap:", "a=fmtp:", "a=ptime:", "a=sendrecv$", "a=sendonly$", "a=recvonly$"}

var sdpKinds = []lineKind{
	{"session", "s=", false, nil},
	{"time", "t=", false, nil},
	{"audio", "m=audio ", false, nil},
	{"video", "m=video ", false, nil},
	{"other media", "m=", false, []string{"m=audio ", "m=video "}},
	{"connection", "c=", false, nil},
	{"origin", "o=", false, nil},
	{"rtpmap", "a=rtpmap:", false, nil},
	{"fmtp", "a=fmtp:", false, nil},
	{"ptime", "a=ptime:", false, nil},
	{"sendrecv", "a=sendrecv", true, nil},
	{"sendonly", "a=sendonly", true, nil},
	{"recvonly", "a=recvonly", true, nil},
	{"attribute", "a=", false, sdpRecognised},
	{"other", "?=", false, []string{"s=", "t=", "m=", "c=", "o=", "a=", "=="}},
	{"nothing", "", false, []string{"?="}},
}

// begins: the line is known to begin with (or be) a text: 1, 0, or -1. A "?"
// stands for any byte.
func lineBegins(st *State, line Val, text string, exact bool) int {
	if line.isConstStr() {
		ok := len(line.Str) >= len(text) && (!exact || len(line.Str) == len(text))
		for i := 0; ok && i < len(text); i++ {
			ok = text[i] == '?' || line.Str[i] == text[i]
		}
		// a line of this form has something after the equals sign
		if ok && !exact && len(text) == 2 && len(line.Str) < 3 {
			ok = false
		}
		if ok {
			return 1
		}
		return 0
	}
	need := int64(len(text))
	if !exact && len(text) == 2 {
		need = 3
	}
	lo, hi := st.rng(st.strLen(line))
	if hi < need || exact && lo > need {
		return 0
	}
	long := lo >= need && (!exact || hi == need)
	bytes := make([]bool, len(text))
	for i := 0; i < len(text); i++ {
		if text[i] == '?' {
			bytes[i] = true
			continue
		}
		k, known := st.evalCond(cond(token.EQL, st.strAt(line, iconst(int64(i))), iconst(int64(text[i]))))
		if known && !k {
			return 0
		}
		bytes[i] = known
	}
	// tests of parts of the line
	for x := range st.facts {
		si := syms[x]
		off, end := int64(0), int64(-1)
		switch {
		case x == line.S:
		case si.Op == "substr" && valEq(si.Args[0], line) && si.Args[1].isConstInt():
			off = si.Args[1].N
			if !valEq(si.Args[2], st.strLen(line)) {
				if !si.Args[2].isConstInt() {
					continue
				}
				end = si.Args[2].N
			}
		default:
			continue
		}
		if off > int64(len(text)) || strings.Contains(text, "?") {
			continue
		}
		rest := text[off:]
		f := st.facts[x]
		if end >= 0 {
			// a part of the line
			part := rest[:min(end-off, int64(len(rest)))]
			whole := end <= int64(len(text))
			if f.HasIn {
				some := false
				for _, s := range f.In {
					if whole && s == part || !whole && strings.HasPrefix(s, part) {
						some = true
					}
				}
				if !some {
					return 0
				}
				if len(f.In) == 1 && lo >= end {
					for i := off; i < off+int64(len(part)); i++ {
						bytes[i] = true
					}
				}
			}
			if whole && hasStr(f.Out, part) {
				return 0
			}
			continue
		}
		if f.HasIn {
			some := false
			for _, s := range f.In {
				if exact && s == rest || !exact && strings.HasPrefix(s, rest) {
					some = true
				}
			}
			if !some {
				return 0
			}
		}
		if exact && hasStr(f.Out, rest) {
			return 0
		}
		if exact && f.HasIn && len(f.In) == 1 && f.In[0] == rest {
			long = true
			for i := int(off); i < len(text); i++ {
				bytes[i] = true
			}
		}
	}
	for y := range st.facts {
		p := syms[y]
		if p.Op != "prefix" || !p.Args[1].isConstStr() || p.Args[0].S == 0 {
			continue
		}
		si, off := syms[p.Args[0].S], int64(0)
		switch {
		case valEq(p.Args[0], line):
		case si.Op == "substr" && valEq(si.Args[0], line) && si.Args[1].isConstInt() && valEq(si.Args[2], st.strLen(line)):
			off = si.Args[1].N
		default:
			continue
		}
		if off > int64(len(text)) {
			continue
		}
		rest := text[off:]
		w := p.Args[1].Str
		k, known := st.evalCond(bsym(y))
		if !known {
			continue
		}
		if k {
			n := min(len(w), len(rest))
			if w[:n] != rest[:n] && !strings.Contains(rest[:n], "?") || exact && len(w) > len(rest) {
				return 0
			}
		} else if strings.HasPrefix(rest, w) {
			return 0
		}
	}
	for _, k := range bytes {
		long = long && k
	}
	if long {
		return 1
	}
	return -1
}

// kindsOf lists what an unknown line can be on a path.
func kindsOf(st *State, line Val) []string {
	var out []string
	for _, k := range sdpKinds {
		if k.text != "" && lineBegins(st, line, k.text, k.exact) == 0 {
			continue
		}
		is := false
		for _, n := range k.not {
			if lineBegins(st, line, strings.TrimSuffix(n, "$"), strings.HasSuffix(n, "$")) == 1 {
				is = true
			}
		}
		if k.name == "other" && !is {
			// its first byte is none of those that have a meaning
			x := st.strAt(line, iconst(0))
			s := st.clone()
			ok := true
			for _, b := range "stmcoa=" {
				ok = ok && s.assume(cond(token.NEQ, x, iconst(int64(b))), true)
			}
			is = !ok
		}
		if k.name == "nothing" && !is && st.clone().assume(cond(token.GEQ, st.strLen(line), iconst(3)), true) {
			// long enough: it is nothing only without an equals sign in second place
			if k, known := st.evalCond(cond(token.EQL, st.strAt(line, iconst(1)), iconst('='))); known && k {
				if lo, _ := st.rng(st.strLen(line)); lo >= 3 {
					is = true
				}
			}
		}
		if !is {
			out = append(out, k.name)
		}
	}
	return out
}

// rest is the line's text from a place on.
func lineRest(st *State, line Val, from int) Val {
	if line.isConstStr() {
		if from > len(line.Str) {
			return strc("")
		}
		return strc(line.Str[from:])
	}
	return st.substr(line, iconst(int64(from)), st.strLen(line))
}

type keptCase struct {
	st    *State
	kinds []string
}

// cuts finds the places where a text was searched for a separator.
func cutAt(st *State, v Val, sep string) (i Val, last bool) {
	for n := 0; ; n++ {
		k, ok := st.monVal(fmt.Sprintf("$cut%d", n))
		if !ok {
			return
		}
		y := k.S
		if y == 0 || k.N != 0 {
			continue
		}
		si := syms[y]
		if len(si.Args) != 2 || !valEq(si.Args[0], v) {
			continue
		}
		a := si.Args[1]
		if a.isConstStr() && a.Str == sep || a.isConstInt() && len(sep) == 1 && a.N == int64(sep[0]) {
			switch si.Op {
			case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny":
				return isym(y), false
			case "strings.LastIndex", "strings.LastIndexByte":
				i, last = isym(y), true
			}
		}
	}
}

// keepCuts keeps where texts were searched for separators.
func keepCuts(e *Engine) {
	for _, n := range []string{"Index", "IndexByte", "IndexRune", "IndexAny", "LastIndex", "LastIndexByte"} {
		old := e.intrinsics["strings."+n]
		if old == nil {
			continue
		}
		e.intrinsics["strings."+n] = func(e *Engine, cc *callCtx) []callRes {
			rs := old(e, cc)
			for _, r := range rs {
				i := 0
				for {
					if _, ok := r.st.monVal(fmt.Sprintf("$cut%d", i)); !ok {
						break
					}
					i++
				}
				if r.v.S != 0 {
					r.st.setMonVal(fmt.Sprintf("$cut%d", i), r.v)
				}
			}
			return rs
		}
	}
}

type keptText struct {
	alts []Val // any of these
	none bool  // may be missing
}

// same: 1 equal, 0 different, -1 unknown.
func (w *sdpKept) same(st *State, got, want Val) int {
	if valEq(got, want) {
		return 1
	}
	if got.K == KStr && want.K == KStr {
		if k, known := st.evalCond(condEq(got, want)); known {
			if k {
				return 1
			}
			return 0
		}
		// two parts of known lines that are cut differently
		part := func(v Val) bool {
			if v.isConstStr() {
				return true
			}
			v = lineOf(v)
			for _, l := range w.lines {
				if valEq(l, v) {
					return true
				}
			}
			return false
		}
		if part(got) && part(want) {
			return 0
		}
	}
	return -1
}

func (w *sdpKept) judge(st *State, rule, construct, what string, got, want Val) bool {
	switch w.same(st, got, want) {
	case 1:
		return true
	case 0:
		w.report(rule, construct, "%s: %s is %s, the lines say %s", w.what, what, render(got), render(want))
	default:
		w.c.unsure("%s: %s is %s, the lines say %s", w.what, what, render(got), render(want))
	}
	return false
}

// never reports a function that does not return.
func (w *sdpKept) never() {
	w.report("new", "never returns", "%s: does not return", w.what)
}

func (w *sdpKept) report(rule, construct, format string, a ...any) {
	k := rule + construct
	if w.known[k] {
		return
	}
	if w.odd {
		w.c.unsure("tests of the lines not followed: "+format, a...)
		return
	}
	w.known[k] = true
	w.c.fail(rule, w.c.p.pos(w.fn.Pos()), fnName(w.fn)+" "+construct, format, a...)
}

// pairs compares a list of pairs of texts.
func (w *sdpKept) pairs(st *State, rule, name string, v Val, want [][2]Val) {
	s := w.e.asSlice(v)
	n := int64(0)
	if st.nilness(s) != 1 {
		if s.K != KSlice || !s.El[2].isConstInt() {
			w.c.unsure("%s: %s", w.what, name)
			return
		}
		n = s.El[2].N
	}
	if n != int64(len(want)) {
		w.report(rule, name+" number", "%s: %d %s, the lines have %d", w.what, n, name, len(want))
		return
	}
	for i, x := range want {
		for j := 0; j < 2; j++ {
			w.judge(st, rule, name, fmt.Sprintf("%s[%d][%d]", name, i, j), w.c.elem(st, s, i, tString, fmt.Sprintf("[%d]", j)), x[j])
		}
	}
}

// texts compares a list of texts.
func (w *sdpKept) texts(st *State, rule, name string, v Val, want []Val) {
	s := w.e.asSlice(v)
	n := int64(0)
	if st.nilness(s) != 1 {
		if s.K != KSlice || !s.El[2].isConstInt() {
			w.c.unsure("%s: %s", w.what, name)
			return
		}
		n = s.El[2].N
	}
	if n != int64(len(want)) {
		w.report(rule, name+" number", "%s: %d %s, the lines have %d", w.what, n, name, len(want))
		return
	}
	for i, x := range want {
		w.judge(st, rule, name, fmt.Sprintf("%s[%d]", name, i), w.c.elem(st, s, i, tString, ""), x)
	}
}

// positive: whether the number a text denotes was accepted as positive.
func positiveNumber(st *State, v Val) (Val, bool) {
	for y := range st.facts {
		if si := syms[y]; si.Op == "atoi" && valEq(si.Args[0], v) {
			if lo, _ := st.rng(isym(y)); lo > 0 {
				return isym(y), true
			}
		}
	}
	return Val{}, false
}

func (w *sdpKept) accept(st *State, o *Obj, kinds []string, base map[string]Val) {
	c := w.c
	get := func(f string) Val { return c.get(st, o, f) }
	desc := ""
	for i, k := range kinds {
		if !w.lines[i].isConstStr() {
			desc += " [" + k + "]"
		} else {
			desc += " " + w.lines[i].Str[:1]
		}
	}
	save := w.what
	w.what = "lines" + desc
	defer func() { w.what = save }()
	session, time := base["Session"], base["Time"]
	ptime := base["Ptime"]
	var audio, video, conn Val
	send, recv := false, false
	var attrs, other [][2]Val
	var rtpmaps, fmtps []Val
	for i, k := range kinds {
		l := w.lines[i]
		switch k {
		case "session":
			session = lineRest(st, l, 2)
		case "time":
			time = lineRest(st, l, 2)
		case "audio":
			audio = lineRest(st, l, 8)
		case "video":
			video = lineRest(st, l, 8)
		case "connection":
			if conn.K == KUndef {
				conn = l
			}
		case "rtpmap":
			rtpmaps = append(rtpmaps, lineRest(st, l, 9))
		case "fmtp":
			fmtps = append(fmtps, lineRest(st, l, 7))
		case "ptime":
			if v, ok := positiveNumber(st, lineRest(st, l, 8)); ok {
				ptime = v
			}
		case "sendonly":
			send = true
		case "recvonly":
			recv = true
		case "attribute":
			t := lineRest(st, l, 2)
			if l.isConstStr() {
				if a, b, ok := strings.Cut(t.Str, ":"); a != "" || !ok {
					attrs = append(attrs, [2]Val{strc(a), strc(b)})
				}
				continue
			}
			at, last := cutAt(st, t, ":")
			if at.K == KUndef {
				c.unsure("%s: where an attribute is split is not followed", w.what)
				return
			}
			if last {
				w.report("attributes", "split", "%s: an attribute is split at its last colon", w.what)
				return
			}
			lo, hi := st.rng(at)
			if hi >= 0 && lo < 1 && lo != hi {
				// not there, nothing before the colon, or something
				for _, r := range [][2]int64{{-1, -1}, {0, 0}, {1, 1 << 40}} {
					s := st.clone()
					if s.assume(cond(token.GEQ, at, iconst(r[0])), true) && s.assume(cond(token.LEQ, at, iconst(r[1])), true) {
						w.accept(s, o, kinds, base)
					}
				}
				return
			}
			switch {
			case hi < 0:
				attrs = append(attrs, [2]Val{t, strc("")})
			case lo > 0:
				attrs = append(attrs, [2]Val{st.substr(t, iconst(0), at), st.substr(t, st.addv(at, iconst(1)), st.strLen(t))})
			case lo == 0 && hi == 0:
				// nothing before the colon
			default:
				c.unsure("%s: where an attribute is split is not known", w.what)
				return
			}
		case "other":
			if l.isConstStr() {
				other = append(other, [2]Val{strc(l.Str[:1]), strc(l.Str[2:])})
				continue
			}
			// the equals sign is the second byte
			at, _ := cutAt(st, l, "=")
			if at.K == KUndef || at.isConstInt() {
				at = iconst(1)
			} else if lo, hi := st.rng(at); hi < 1 || lo > 1 {
				return // not so: the line has none there
			}
			other = append(other, [2]Val{st.substr(l, iconst(0), at), st.substr(l, st.addv(at, iconst(1)), st.strLen(l))})
		}
	}
	c.count("kinds of lines considered", 1)
	w.judge(st, "session", "Session", "the session name", get("Session"), session)
	w.judge(st, "session", "Time", "the active time", get("Time"), time)
	if v := get("Ptime"); !valEq(v, ptime) {
		if ptime.isConstInt() && v.isConstInt() || isAtoi(v) || isAtoi(ptime) && v.isConstInt() {
			w.report("packet time", "Ptime", "%s: the packet time is %s, the lines say %s", w.what, render(v), render(ptime))
		} else if k, known := st.evalCond(condEq(v, ptime)); !known {
			c.unsure("%s: the packet time is %s", w.what, render(v))
		} else if !k {
			w.report("packet time", "Ptime", "%s: the packet time is %s, the lines say %s", w.what, render(v), render(ptime))
		}
	}
	for f, want := range map[string]bool{"SendOnly": send, "RecvOnly": recv} {
		if k, known := st.evalCond(get(f)); !known {
			c.unsure("%s: %s", w.what, f)
		} else if k != want {
			w.report("direction", f, "%s: %s is %v, the lines say %v", w.what, f, k, want)
		}
	}
	if a := get("Addr"); conn.K != KUndef && a.K == KStr && a.S != 0 && syms[a.S].Op == "c.addr" {
		if !valEq(syms[a.S].Args[0], conn) {
			w.report("address", "Addr", "%s: the address is that of a later connection line", w.what)
		}
	} else if definiteText(a) {
		w.report("address", "Addr", "%s: the address is %s", w.what, render(a))
	} else {
		c.unsure("%s: the address is %s", w.what, render(a))
	}
	w.pairs(st, "attributes", "Attrs", get("Attrs"), attrs)
	w.pairs(st, "other", "Other", get("Other"), other)
	for _, m := range []struct {
		f    string
		text Val
	}{{"Audio", audio}, {"Video", video}} {
		v := get(m.f)
		empty := m.text.K == KUndef
		if !empty {
			if lo, hi := st.rng(st.strLen(m.text)); hi <= 0 {
				empty = true
			} else if lo <= 0 && !m.text.isConstStr() {
				if k, known := st.evalCond(condEq(m.text, strc(""))); !known || k {
					continue
				}
			}
		}
		switch st.nilness(v) {
		case 1:
			if !empty {
				w.report("media", m.f, "%s: no %s", w.what, m.f)
			}
			continue
		case 2:
		default:
			c.unsure("%s: %s", w.what, m.f)
			continue
		}
		if v.L.O == nil {
			c.unsure("%s: %s", w.what, m.f)
			continue
		}
		of := st.heap[v.L.O].cells["$of"]
		if empty {
			w.report("media", m.f, "%s: %s is %s", w.what, m.f, render(of))
			continue
		}
		if of.K != KStr {
			w.report("media", m.f+" codecs", "%s: %s without its media line", w.what, m.f)
			continue
		}
		w.judge(st, "media", m.f+" line", m.f+"'s media line", of, m.text)
		w.texts(st, "media", "rtpmap", st.heap[v.L.O].cells["$maps"], rtpmaps)
		w.texts(st, "media", "fmtp", st.heap[v.L.O].cells["$fmtps"], fmtps)
	}
}

// lineOf is the text a text is a part of.
func lineOf(v Val) Val {
	for v.K == KStr && v.S != 0 && syms[v.S].Op == "substr" {
		v = syms[v.S].Args[0]
	}
	return v
}

// sdpContracts replaces the readers of lines by what M01 verifies of them.
func (c *Check) sdpContracts(e *Engine, media, codecs *ssa.Function, conn, origin *ssa.Function) {
	e.intrinsics[media.String()] = func(e *Engine, cc *callCtx) []callRes {
		s := cc.args[0]
		f := cc.st.clone()
		if cc.sig.Results().Len() != 4 || s.K != KStr {
			return e.externalResult(cc)
		}
		bad := tuple(iconst(0), strc(""), nilSlice(), e.errVal(f, "media line"))
		port := isym(term("m.port", cc.sig.Results().At(0).Type(), s))
		proto := strTerm(cc.st, "m.proto", 1, s)
		o := e.alloc(cc.st, cc.site+"pts", "pts", types.Typ[types.Uint8], true)
		cc.st.wstate(o).cells["$of"] = s
		n := freshSym("len", lenType)
		return []callRes{{cc.st, tuple(port, proto, mkSlice(ploc(Loc{o, ""}), iconst(0), isym(n), isym(n)), nilVal)}, {f, bad}}
	}
	e.intrinsics[codecs.String()] = func(e *Engine, cc *callCtx) []callRes {
		var out []callRes
		for _, tg := range e.resolve(cc.st, cc.args[0], cc.in, "media") {
			f := tg.st.clone()
			out = append(out, callRes{f, e.errVal(f, "codecs")})
			pts := e.asSlice(cc.args[1])
			of := Val{}
			if pts.K == KSlice && pts.El[0].L.O != nil {
				if h, ok := tg.st.heap[pts.El[0].L.O]; ok {
					of = h.cells["$of"]
				}
			}
			if of.K == KStr {
				tg.st.wstate(tg.l.O).cells["$of"] = of
			}
			if len(cc.args) == 4 && e.concrete {
				tg.st.wstate(tg.l.O).cells["$maps"] = cc.args[2]
				tg.st.wstate(tg.l.O).cells["$fmtps"] = cc.args[3]
			}
			out = append(out, callRes{tg.st, nilVal})
		}
		return out
	}
	if conn != nil && conn.Signature.Results().Len() == 2 {
		e.intrinsics[conn.String()] = func(e *Engine, cc *callCtx) []callRes {
			f := cc.st.clone()
			return []callRes{{cc.st, tuple(strTerm(cc.st, "c.addr", 1, lineOf(cc.args[0])), nilVal)}, {f, tuple(strc(""), e.errVal(f, "connection line"))}}
		}
	}
	if origin != nil && isErrorType(origin.Signature.Results().At(0).Type()) {
		e.intrinsics[origin.String()] = func(e *Engine, cc *callCtx) []callRes {
			f := cc.st.clone()
			return []callRes{{cc.st, nilVal}, {f, e.errVal(f, "origin line")}}
		}
	}
}

const (
	lineO = "o=- 1 1 IN IP4 1.2.3.4"
	lineC = "c=IN IP4 1.2.3.4"
	lineM = "m=audio 4000 RTP/AVP 0"
)

// known lines around the unknown one
var sdpAround = []string{"s=name", "a=flag", "t=1 2", "z=a=b", "a=x:y:z", "a=rtpmap:96 X/8000", "a=fmtp:96 p=1", "y", "b=AS:1", "a=rtpmap:97 Y/8000"}

// sdpLines runs Parse on some lines; "?" stands for an unknown one.
func (c *Check) sdpLines(fn, media, codecs *ssa.Function, layout []string, base map[string]Val) map[string]Val {
	e := c.engine()
	e.concrete, e.paths, e.splitCalls = true, true, true
	e.maxParts, e.maxSteps = 20000, 150000
	w := &sdpKept{c: c, fn: fn, known: map[string]bool{}, e: e}
	w.what = fnName(fn)
	n := 0
	for _, l := range layout {
		v := strc(l)
		if l == "?" {
			v = ssym(freshSym(fmt.Sprintf("line%d", n), tString))
			n++
		}
		w.lines = append(w.lines, v)
	}
	split := false
	s := ssym(freshSym("text", tString))
	old := e.intrinsics["strings.Split"]
	lines := func(e *Engine, cc *callCtx) []callRes {
		if len(cc.args) >= 2 && cc.args[1].isConstStr() && strings.Contains(cc.args[1].Str, "\n") {
			ls := append(append([]Val{}, w.lines...), strc(""))
			a := cc.args[0]
			switch {
			case a.K == KStr && a.S != 0 && syms[a.S].Op == "substr" && valEq(syms[a.S].Args[0], s) && syms[a.S].Args[1].isConstInt() && syms[a.S].Args[1].N == 5:
			case valEq(a, s):
				ls = append([]Val{strc("v=0")}, ls...)
			default:
				return old(e, cc)
			}
			split = true
			o := e.alloc(cc.st, cc.site+"lines", "lines", tString, false)
			for i, v := range ls {
				cc.st.wstate(o).cells[fmt.Sprintf("[%d]", i)] = v
			}
			k := iconst(int64(len(ls)))
			return ret1(cc.st, mkSlice(ploc(Loc{o, ""}), iconst(0), k, k))
		}
		return old(e, cc)
	}
	e.intrinsics["strings.Split"] = lines
	keepCuts(e)
	// tests of something else than the lines' bytes, beginnings and separators
	// may be tests of the lines that lineBegins does not see
	e.pathKey = func(x Val) (string, string) {
		odd := ""
		valSymsDeep(x, func(y Sym) {
			switch op := syms[y].Op; {
			case op == "" && strings.HasPrefix(syms[y].Name, "line"):
			case op == "len", op == "substr", op == "sat", op == "atoi", op == "prefix", op == "add", op == "conv", op == "==", op == "!=":
			case strings.HasPrefix(op, "strings.Index"), strings.HasPrefix(op, "strings.LastIndex"), strings.HasPrefix(op, "m."):
			default:
				odd = "~"
			}
		})
		return odd, odd
	}
	c.sdpContracts(e, media, codecs, c.p.fn("sdp.parseConnLine"), c.p.fn("sdp.parseOriginLine"))
	rs := e.run(fn, func(st *State, args []Val) []Val {
		for i, v := range w.lines {
			st.setMonVal(fmt.Sprintf("$line%d", i), v)
		}
		return []Val{s}
	})
	if c.gaveUp(e, fnName(fn)) {
		return nil
	}
	if !split {
		c.unsure("%s: how the text is split into lines is not followed", fnName(fn))
		return nil
	}
	accepted := 0
	for _, r := range rs {
		st := r.st
		if r.v.K != KTuple || len(r.v.El) != 2 || st.nilness(r.v.El[1]) != 1 {
			continue
		}
		o := r.v.El[0].L.O
		if o == nil {
			c.unsure("%s: description %s", fnName(fn), render(r.v.El[0]))
			continue
		}
		accepted++
		if n == 0 {
			out := map[string]Val{}
			for _, f := range []string{"Session", "Time", "Ptime"} {
				out[f] = c.get(st, o, f)
			}
			if base == nil {
				return out
			}
		}
		cases := [][]string{nil}
		for _, l := range w.lines {
			ks := kindsOf(st, l)
			var next [][]string
			for _, cs := range cases {
				for _, k := range ks {
					next = append(next, append(append([]string{}, cs...), k))
				}
			}
			cases = next
			if len(cases) > 400 {
				break
			}
		}
		if len(cases) > 400 {
			c.unsure("%s: lines not told apart", fnName(fn))
			continue
		}
		c.count("accepting paths", 1)
		for _, ks := range cases {
			if len(ks) == len(w.lines) {
				w.odd = strings.Contains(st.mon.Key, "~")
				w.accept(st, o, ks, base)
			}
		}
	}
	if accepted == 0 {
		c.unsure("%s: never accepts", fnName(fn))
	}
	return base
}

// sdpNew checks the description made for an address and codecs.
func (c *Check) sdpNew(fn *ssa.Function, n int) {
	if c.memo == nil {
		c.memo = map[string]*Obj{}
	}
	e := c.engine()
	e.concrete, e.paths, e.splitCalls = true, true, true
	if fn.Signature.Params().Len() != 2 || elemOf(fn.Signature.Params().At(0).Type()) == nil {
		c.unsure("%s: signature", fnName(fn))
		return
	}
	addr := c.memo["$new.addr"]
	if addr == nil {
		addr = newObj("addr", "in:new.addr", elemOf(fn.Signature.Params().At(0).Type()))
		addr.Input = true
		c.memo["$new.addr"] = addr
	}
	ct := c.p.typ("sdp.Codec")
	a := c.memo["$new.codecs"]
	if a == nil {
		a = newObj("codecs", "in:new.codecs", ct)
		a.Input = true
		c.memo["$new.codecs"] = a
	}
	ip := ssym(freshSym("ip text", tString))
	e.intrinsics["(net.IP).String"] = func(e *Engine, cc *callCtx) []callRes {
		st0 := cc.st
		if v := c.get(st0, addr, "IP"); valEq(e.asSlice(v), e.asSlice(cc.args[0])) {
			return ret1(st0, ip)
		}
		return ret1(st0, freshVal("ip", tString))
	}
	if f := c.p.fn("util.GenerateOriginID"); f != nil {
		e.intrinsics[f.String()] = func(e *Engine, cc *callCtx) []callRes {
			return ret1(cc.st, strTerm(cc.st, "newid", 1))
		}
	}
	rs := e.run(fn, func(st *State, args []Val) []Val {
		st.setMonVal("$addr", ptrTo(addr))
		st.setMonVal("$codecs", ploc(Loc{a, ""}))
		cs := nilSlice()
		if n > 0 {
			cs = mkSlice(ploc(Loc{a, ""}), iconst(0), iconst(int64(n)), iconst(int64(n)))
		}
		return []Val{ptrTo(addr), cs}
	})
	what := fmt.Sprintf("%s with %d codecs", fnName(fn), n)
	if c.gaveUp(e, what) {
		return
	}
	w := &sdpKept{c: c, fn: fn, known: map[string]bool{}, e: e, what: what, lines: []Val{ip}}
	for _, r := range rs {
		st, o := r.st, r.v.L.O
		if st.nilness(r.v) != 2 || o == nil {
			c.unsure("%s: result", what)
			continue
		}
		w.judge(st, "new", "Addr", "the address", c.get(st, o, "Addr"), ip)
		w.judge(st, "new", "Origin.Addr", "the origin's address", st.load(Loc{o, ".Origin.Addr"}, tString), ip)
		for _, f := range []string{".Origin.ID", ".Origin.Version"} {
			v := st.load(Loc{o, f}, tString)
			if v.isConstStr() || v.S == 0 || syms[v.S].Op != "newid" {
				if definiteText(v) || v.isConstStr() {
					w.report("new", f, "%s: %s is %s", what, f[1:], render(v))
				} else {
					c.unsure("%s: %s", what, f)
				}
			}
		}
		m := c.get(st, o, "Audio")
		if st.nilness(m) != 2 || m.L.O == nil {
			w.report("new", "Audio", "%s: no audio", what)
			continue
		}
		if v := c.get(st, o, "Video"); st.nilness(v) != 1 {
			w.report("new", "Video", "%s: a video medium", what)
		}
		port := c.get(st, m.L.O, "Port")
		for port.S != 0 && port.N == 0 && syms[port.S].Op == "conv" {
			port = syms[port.S].Args[0]
		}
		if want := c.get(st, addr, "Port"); !valEq(port, want) {
			if port.isConstInt() || port.S != 0 && port.S == want.S {
				w.report("new", "Port", "%s: port %s", what, render(port))
			} else {
				c.unsure("%s: port %s", what, render(port))
			}
		}
		w.judge(st, "new", "Proto", "the protocol", c.get(st, m.L.O, "Proto"), strc("RTP/AVP"))
		cs := e.asSlice(c.get(st, m.L.O, "Codecs"))
		ln := int64(0)
		if st.nilness(cs) != 1 {
			if cs.K != KSlice || !cs.El[2].isConstInt() {
				c.unsure("%s: codecs", what)
				continue
			}
			ln = cs.El[2].N
		}
		if ln != int64(n) {
			w.report("new", "codecs", "%s: %d codecs", what, ln)
			continue
		}
		if n > 0 && cs.El[0].L.O == a {
			w.report("new", "codecs shared", "%s: the codecs are the caller's own list", what)
		}
		fields := []string{"PT", "Name", "Rate", "Param", "Fmtp"}
		sort.Strings(fields)
		for i := 0; i < n; i++ {
			for _, f := range fields {
				ft := structFieldType(ct, f)
				got := c.elem(st, cs, i, ft, "."+f)
				want := st.load(Loc{a, fmt.Sprintf("[%d].%s", i, f)}, ft)
				if !valEq(got, want) {
					if got.isConstInt() || definiteText(got) || got.S != 0 && syms[got.S].Op == "init" {
						w.report("new", "codec "+f, "%s: codec %d has %s %s, given %s", what, i, f, render(got), render(want))
					} else {
						c.unsure("%s: codec %d %s %s", what, i, f, render(got))
					}
				}
			}
		}
		c.count("new descriptions", 1)
	}
	if len(rs) == 0 {
		w.never()
	}
}

func checkM04(c *Check) {
	c.rules = append(c.rules, "session", "packet time", "direction", "attributes", "other", "media", "address", "new")
	parse := c.fn("sdp.Parse")
	media, codecs := c.p.fn("sdp.parseMediaInfo"), c.p.fn("sdp.populateCodecs")
	if parse == nil {
		return
	}
	c.analysed(parse)
	if media == nil || codecs == nil {
		c.unsure("the readers of media lines have other names: not decided")
	} else {
		base := c.sdpLines(parse, media, codecs, []string{lineO, lineC, lineM}, nil)
		if base != nil {
			for _, l := range [][]string{
				{lineO, lineC, lineM, "?"},
				{"?", lineO, lineC, lineM},
				append([]string{lineO, lineC, lineM, "?"}, sdpAround...),
				append(append([]string{}, sdpAround...), lineO, lineC, lineM, "?"),
				append(append([]string{lineO}, sdpAround...), lineC, "?", "m=video 5000 RTP/AVP 96", lineM),
			} {
				c.sdpLines(parse, media, codecs, l, base)
			}
		}
	}
	if fn := c.fn("sdp.New"); fn != nil {
		c.analysed(fn)
		for n := 0; n <= 3; n++ {
			c.sdpNew(fn, n)
		}
	}
}
