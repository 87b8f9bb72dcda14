package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S06", "The message writer is analysed once for every field of a message, with all fields unknown. What is written is followed as text: constants, whole fields, decimal numbers, components. Every finished line must be a header whose name belongs to the field its value is made from; where the writer returns, the field's header has been written exactly once if the field is set and not at all if it is not.", checkS06)
	register("S08", "The message writer is analysed with all fields unknown and everything it writes is followed as text. On every path: one start line with its parts in order, header lines of the form name, colon, value, CRLF, one Content-Length as the last of them, an empty line and the payload, whose length is the number written.", checkS08)
}

// ---- text written to a buffer ----
//
// A written part is constant text or \x01kind:what\x02, where kind is
//	f  the whole text of a field
//	b  some bytes that come from a field
//	i  a field as a decimal number
//	c  a component written by its own Append
//	?  anything else

type writer struct {
	c    *Check
	e    *Engine
	buf  *Obj
	name func(st *State, v Val) string // what a value is; "" if unknown
	put  func(st *State, in ssa.Instruction, part string) []*State
	nums []Val // numbers a value may equal
}

func part(kind, what string) string { return "\x01" + kind + ":" + what + "\x02" }

func (w *writer) isBuf(st *State, v Val) bool {
	if v.K == KIface && len(v.El) > 0 {
		v = v.El[0]
	}
	l, ok := loc1(st, v)
	return ok && l.O == w.buf
}

// text describes a written string.
func (w *writer) text(st *State, v Val) string {
	if v.K == KIface && v.S == 0 && len(v.El) > 0 {
		v = v.El[0]
	}
	var sb strings.Builder
	for _, x := range flattenCat(v) {
		switch {
		case x.isConstStr():
			sb.WriteString(x.Str)
		case x.K == KInt && x.isConstInt():
			fmt.Fprintf(&sb, "%d", x.N)
		case x.K == KInt:
			sb.WriteString(w.number(st, x))
		case x.K == KStr && x.S != 0:
			if n := w.name(st, x); n != "" {
				sb.WriteString(part("f", n))
				continue
			}
			si := syms[x.S]
			if si.Op == "fmtint" && len(si.Args) > 1 && si.Args[1].isConstInt() && si.Args[1].N != 10 {
				sb.WriteString(part("i", fmt.Sprintf("base %d of %s", si.Args[1].N, pretty(w.number(st, si.Args[0])))))
				continue
			}
			if (si.Op == "itoa" || si.Op == "fmtint") && len(si.Args) > 0 {
				sb.WriteString(w.number(st, si.Args[0]))
				continue
			}
			if si.Op == "substr" && si.Args[0].S != 0 && st.lt(st.strLen(x), st.strLen(si.Args[0])) {
				if n := w.name(st, si.Args[0]); n != "" {
					sb.WriteString(part("f", "part of "+n))
					continue
				}
			}
			sb.WriteString(part("?", render(x)))
		default:
			sb.WriteString(part("?", render(x)))
		}
	}
	return sb.String()
}

func (w *writer) number(st *State, x Val) string {
	if x.isConstInt() {
		return fmt.Sprint(x.N)
	}
	for x.S != 0 && x.N == 0 && syms[x.S].Op == "conv" {
		y := syms[x.S].Args[0]
		if lo, hi, ok := typeRange(syms[x.S].T); ok && y.K == KInt {
			if l, h := st.rng(y); (l < lo || h > hi) && w.name(st, y) != "" {
				return part("i", typeText(syms[x.S].T)+" of "+w.name(st, y))
			}
		}
		x = y
	}
	if x.S != 0 && syms[x.S].Op == "runes" {
		n := "characters of " + pretty(w.text(st, syms[x.S].Args[0]))
		if x.N != 0 {
			n += fmt.Sprintf("%+d", x.N)
		}
		return part("i", n)
	}
	if x.S != 0 {
		if n := w.name(st, isym(x.S)); n != "" {
			if x.N != 0 {
				n += fmt.Sprintf("%+d", x.N)
			}
			return part("i", n)
		}
		for _, y := range w.nums {
			if st.leq(x, y) && st.leq(y, x) {
				return w.number(st, y)
			}
		}
	}
	return part("?", "number "+render(x))
}

// bytesText describes a written byte slice.
func (w *writer) bytesText(st *State, v Val) string {
	v = w.e.asSlice(v)
	if v.K != KSlice {
		return part("?", render(v))
	}
	if v.El[2].isConstInt() && v.El[2].N == 0 {
		return ""
	}
	if n := w.name(st, v); n != "" {
		return part("f", n)
	}
	s := w.e.bytesToString(st, v)
	if s.isConstStr() || s.S != 0 && syms[s.S].Op != "" {
		return w.text(st, s)
	}
	return part("?", render(v))
}

// root finds the one field a value is computed from.
func (w *writer) root(st *State, v Val) string {
	var found []string
	seen := map[string]bool{}
	add := func(n string) {
		if n != "" && !seen[n] {
			seen[n] = true
			found = append(found, n)
		}
	}
	valSyms(v, func(x Sym) {
		si := syms[x]
		switch si.Op {
		case "sat":
			add(w.name(st, si.Args[0]))
		case "at":
			if p := si.Args[0]; p.L.O != nil {
				if s, ok := st.pristine(p.L); ok {
					add(w.name(st, s))
				} else {
					add(w.name(st, p))
				}
			}
		}
	})
	if len(found) == 1 {
		return found[0]
	}
	return ""
}

func (w *writer) event(e *Engine, st *State, ev *Event) []*State {
	if ev.Kind != "write" || len(ev.Args) < 2 || !w.isBuf(st, ev.Args[0]) {
		return []*State{st}
	}
	v := ev.Args[1]
	switch ev.Name {
	case "WriteByte", "WriteRune":
		if v.isConstInt() {
			return w.put(st, ev.In, string(rune(v.N)))
		}
		if n := w.root(st, v); n != "" {
			return w.put(st, ev.In, part("b", n))
		}
		return w.put(st, ev.In, part("?", render(v)))
	case "WriteString":
		return w.put(st, ev.In, w.text(st, v))
	}
	return w.put(st, ev.In, w.bytesText(st, v))
}

// install prepares an engine: components are written as one part, formatted
// output is taken apart.
func (w *writer) install(components ...string) {
	e := w.e
	e.onEvent = w.event
	for _, n := range components {
		fn := w.c.p.fn("sip." + n + ".Append")
		if fn == nil {
			w.c.unsure("sip.%s.Append not found", n)
			continue
		}
		n := n
		e.intrinsics[fn.String()] = func(e *Engine, cc *callCtx) []callRes {
			if !w.isBuf(cc.st, cc.args[1]) {
				return ret1(cc.st, undef)
			}
			if cc.st.nilness(cc.args[0]) == 1 {
				return ret1(cc.st, undef)
			}
			what := w.name(cc.st, cc.args[0])
			p := part("c", what)
			if what == "" {
				p = part("?", n+" "+render(cc.args[0]))
			}
			var out []callRes
			for _, s := range w.put(cc.st, cc.in, p) {
				out = append(out, callRes{s, undef})
			}
			return out
		}
	}
	e.intrinsics["io.WriteString"] = func(e *Engine, cc *callCtx) []callRes {
		if !w.isBuf(cc.st, cc.args[0]) {
			return e.externalResult(cc)
		}
		var out []callRes
		for _, s := range w.put(cc.st, cc.in, w.text(cc.st, cc.args[1])) {
			out = append(out, callRes{s, tuple(isym(freshSym("n", lenType)), nilVal)})
		}
		return out
	}
	e.intrinsics["fmt.Fprintf"] = func(e *Engine, cc *callCtx) []callRes {
		if !w.isBuf(cc.st, cc.args[0]) {
			return e.externalResult(cc)
		}
		var out []callRes
		for _, s := range w.put(cc.st, cc.in, w.format(cc.st, cc.args[1], cc.args[2])) {
			out = append(out, callRes{s, tuple(isym(freshSym("n", lenType)), nilVal)})
		}
		return out
	}
}

var verb = regexp.MustCompile(`%[sdcv%]`)

func (w *writer) format(st *State, f, args Val) string {
	args = w.e.asSlice(args)
	if !f.isConstStr() || args.K != KSlice || !args.El[2].isConstInt() {
		return part("?", "formatted text")
	}
	l, ok := loc1(st, args.El[0])
	if !ok && args.El[2].N > 0 {
		return part("?", "formatted text")
	}
	k := int64(0)
	bad := strings.Contains(verb.ReplaceAllString(f.Str, ""), "%")
	r := verb.ReplaceAllStringFunc(f.Str, func(v string) string {
		if v == "%%" {
			return "%"
		}
		if k >= args.El[2].N {
			bad = true
			return ""
		}
		x := st.loadElem(l, st.addv(args.El[1], iconst(k)), "", types.NewInterfaceType(nil, nil))
		k++
		if v == "%c" {
			bad = true
		}
		if x.K == KIface && len(x.El) > 0 {
			x = x.El[0]
		}
		if x.K == KSlice {
			return w.bytesText(st, x)
		}
		return w.text(st, x)
	})
	if bad || k != args.El[2].N {
		return part("?", "formatted text")
	}
	return r
}

var sameBytes = regexp.MustCompile("(\x01b:([^\x02]*)\x02)[^\x01\r\n]{1,3}(\x01b:([^\x02]*)\x02)$")

// glue appends a part to a line; bytes taken one by one from the same field,
// with escape characters between them, are one part.
func glue(line, p string) string {
	if strings.HasPrefix(p, "\x01b:") && strings.HasSuffix(line, p) {
		return line
	}
	line += p
	if m := sameBytes.FindStringSubmatchIndex(line); m != nil && line[m[2]:m[3]] == line[m[6]:m[7]] {
		line = line[:m[3]]
	}
	return line
}

// ---- the message writer ----

type msgWriter struct {
	writer
	msg    *Obj
	vias   []*Obj
	field  string // whose lines are counted
	data   Val
	rule   map[string]bool
	st     *State
	lines  map[string]bool
	writes map[string]bool
}

const (
	pStart = "start"
	pHead  = "head"
	pBody  = "body"
)

// The monitor's key is phase, line so far, count (or the Via hops written), Content-Length seen.
func (w *msgWriter) key(phase, line, count, clen string) string {
	return strings.Join([]string{phase, line, count, clen}, "\x00")
}

func unkey(k string) (phase, line, count, clen string) {
	a := strings.Split(k, "\x00")
	if len(a) != 4 {
		return pStart, "", "", ""
	}
	return a[0], a[1], a[2], a[3]
}

func (w *msgWriter) what(st *State, v Val) string {
	if v.K == KSlice {
		if l, ok := loc1(st, v.El[0]); ok && l.O == w.data.El[0].L.O {
			if valEq(v.El[1], iconst(0)) && valEq(v.El[2], w.data.El[2]) {
				return "Data"
			}
		}
		return ""
	}
	if v.K == KPtr && v.S == 0 {
		for i, o := range w.vias {
			if v.L.O == o && v.L.Path == "" {
				return fmt.Sprintf("Via%d", i)
			}
		}
	}
	if v.S == 0 {
		return ""
	}
	if v.S == w.data.El[2].S && v.N == 0 {
		return "DataLen"
	}
	si := syms[v.S]
	if si.Op == "init" && si.L.O == w.msg && v.N == 0 {
		return strings.TrimPrefix(si.L.Path, ".")
	}
	if si.Op == "ctype" {
		return "ContentType"
	}
	for _, f := range []string{"Phrase"} { // filled in by the writer itself
		if valEq(w.c.get(st, w.msg, f), v) {
			return f
		}
	}
	return ""
}

// isSet: 1 set, 0 not set, -1 unknown.
func (w *msgWriter) isSet(st *State, f string) int {
	t := structFieldType(w.msg.Type, f)
	v := w.c.get(st, w.msg, f)
	switch t.Underlying().(type) {
	case *types.Basic:
		if isStr(t) {
			lo, hi := st.rng(st.strLen(v))
			if lo > 0 {
				return 1
			}
			if hi <= 0 {
				return 0
			}
			return -1
		}
		lo, hi := st.rng(v)
		if lo > 0 {
			return 1
		}
		if hi <= 0 {
			return 0
		}
		return -1
	}
	switch st.nilness(v) {
	case 1:
		return 0
	case 2:
		return 1
	}
	return -1
}

func (w *msgWriter) failf(st *State, in ssa.Instruction, rule, format string, a ...any) {
	if !w.rule[rule] {
		return
	}
	what, pos := "sip.Msg.Append", ""
	if in != nil {
		pos = w.c.p.pos(instrPos(in))
	}
	w.c.fail(rule, pos, what, format, a...)
}

func pretty(line string) string {
	r := regexp.MustCompile("\x01(.):([^\x02]*)\x02")
	return strings.TrimSpace(r.ReplaceAllStringFunc(line, func(s string) string {
		m := r.FindStringSubmatch(s)
		switch m[1] {
		case "?":
			return "<" + m[2] + ">"
		case "b":
			return "<bytes of " + m[2] + ">"
		}
		return "<" + m[2] + ">"
	}))
}

func (w *msgWriter) putPart(st *State, in ssa.Instruction, p string) []*State {
	phase, line, count, clen := unkey(st.mon.Key)
	for p != "" {
		// one atom or constant at a time, lines cut at CRLF
		var x string
		if p[0] == 1 {
			i := strings.IndexByte(p, 2)
			x, p = p[:i+1], p[i+1:]
		} else {
			i := strings.IndexByte(p, 1)
			if i < 0 {
				i = len(p)
			}
			x = p[:i]
			all := line + x
			if j := strings.Index(all[len(line)-min(len(line), 1):], "\r\n"); j >= 0 {
				j += len(line) - min(len(line), 1) + 2
				x = all[len(line):j]
				p = p[j-len(line):]
			} else {
				p = p[i:]
			}
		}
		if phase == pBody {
			if x == "" {
				continue
			}
			line += x
			if len(line) > 200 {
				line = line[:200]
			}
			continue
		}
		if x == part("c", "XHeader") {
			if line != "" || phase != pHead {
				w.failf(st, in, "line form", "the extension headers are written in the middle of a line: %s", pretty(line))
			}
			if clen != "" {
				w.failf(st, in, "content length last", "extension headers follow Content-Length")
			}
			if w.field == "XHeader" {
				count += "1"
			}
			w.lines["<extension headers>"] = true
			continue
		}
		line = glue(line, x)
		if len(line) > 600 {
			line = line[:600]
		}
		if strings.HasSuffix(line, "\r\n") {
			l := strings.TrimSuffix(line, "\r\n")
			line = ""
			switch {
			case phase == pStart:
				w.startLine(st, in, l)
				phase = pHead
			case l == "":
				if clen == "" {
					w.failf(st, in, "one content length", "the headers end without a Content-Length")
				}
				phase = pBody
			default:
				n := w.header(st, in, l)
				if clen != "" {
					if n == "Content-Length" {
						w.failf(st, in, "one content length", "Content-Length is written more than once")
					} else {
						w.failf(st, in, "content length last", "%s follows Content-Length", pretty(l))
					}
				}
				if n == "Content-Length" {
					clen = "y"
				}
				if f := fieldOfHeader(n); n != "" && f == w.field {
					if f == "Via" {
						count += viaOf(l)
					} else if len(count) < 2 {
						count += "1"
					}
				}
			}
		}
	}
	st.setMon(w.key(phase, line, count, clen))
	return []*State{st}
}

func viaOf(l string) string {
	i := strings.Index(l, "\x01c:Via")
	if i < 0 {
		return "?"
	}
	return l[i+6 : i+7]
}

func fieldOfHeader(n string) string {
	switch n {
	case "Content-Type", "Content-Length", "CSeq":
		return n
	}
	return strings.ReplaceAll(n, "-", "")
}

func canonHeader(n string) string {
	for h := range headerNames {
		if strings.EqualFold(h, n) {
			return h
		}
	}
	return ""
}

// header checks one header line and says which header it is.
func (w *msgWriter) header(st *State, in ssa.Instruction, l string) string {
	w.lines[l] = true
	i := strings.IndexByte(l, ':')
	if j := strings.IndexByte(l, 1); i < 0 || j >= 0 && j < i {
		if strings.Contains(l, "\x01?") {
			w.c.unsure("header line not resolved: %s", pretty(l))
		} else {
			w.failf(st, in, "line form", "a line without a name and a colon: %q", pretty(l))
		}
		return ""
	}
	name, val := l[:i], strings.TrimLeft(l[i+1:], " \t")
	n := canonHeader(name)
	if n == "" {
		if strings.Trim(name, tokenChars) != "" {
			w.failf(st, in, "line form", "%q is no header name", name)
		}
		w.failf(st, in, "name of field", "no header called %q fills a field: written with %s", name, pretty(val))
		return ""
	}
	if strings.Contains(val, "\x01?") {
		w.c.unsure("value of %s not resolved: %s", n, pretty(val))
		return n
	}
	ok := false
	var want string
	switch n {
	case "CSeq":
		want = part("i", "CSeq") + " " + part("f", "CSeqMethod")
		ok = val == want
	case "Via":
		want = part("c", "Via")
		ok = regexp.MustCompile("^\x01c:Via[0-9]\x02$").MatchString(val)
	case "Content-Type":
		want = part("f", "ContentType")
		ok = val == want
	case "Content-Length":
		want = part("i", "DataLen")
		ok = val == want
		if _, hi := st.rng(w.data.El[2]); w.isSet(st, "Payload") == 0 || !ok && hi == 0 {
			want = "0"
			ok = val == want
		}
		if !ok {
			w.failf(st, in, "length", "Content-Length says %s, not %s", pretty(val), pretty(want))
		}
		return n
	case "Max-Forwards":
		want = part("i", "MaxForwards")
		ok = val == want || val == "70" && w.isSet(st, "MaxForwards") == 0
	case "Expires", "Min-Expires":
		want = part("i", fieldOfHeader(n))
		ok = val == want || val == "0" && w.isSet(st, fieldOfHeader(n)) == 0
	default:
		f := fieldOfHeader(n)
		kind := "f"
		if _, p := structFieldType(w.msg.Type, f).Underlying().(*types.Pointer); p {
			kind = "c"
		}
		want = part(kind, f)
		ok = val == want
		if !ok && val == "" && kind == "c" && w.isSet(st, f) == 0 { // nothing to write: From and To of an incomplete message
			ok = true
		}
	}
	if !ok {
		w.failf(st, in, "name of field", "%s is written with %q, not with %s", n, pretty(val), pretty(want))
	}
	return n
}

func (w *msgWriter) version(st *State, s string) bool {
	if s == "SIP/2.0" {
		return w.isSet(st, "VersionMajor") == 0
	}
	return s == "SIP/"+part("i", "VersionMajor")+"."+part("i", "VersionMinor")
}

// startLine checks the first line.
func (w *msgWriter) startLine(st *State, in ssa.Instruction, l string) {
	if strings.Contains(l, "\x01?") {
		w.c.unsure("start line not resolved: %s", pretty(l))
		return
	}
	w.lines[l] = true
	resp := w.isSet(st, "Status")
	a := strings.SplitN(l, " ", 3)
	bad := func(why string) {
		w.failf(st, in, "start line", "%s: %q", why, pretty(l))
	}
	if len(a) != 3 {
		bad("the start line does not have three parts")
		return
	}
	if strings.HasPrefix(l, "SIP/") {
		if resp == 0 {
			bad("a request starts with a status line")
		}
		if !w.version(st, a[0]) {
			bad("the version is not the message's")
		}
		if a[1] != part("i", "Status") {
			bad("the second part is not the status")
		}
		p := strings.TrimPrefix(a[2], "%")
		switch {
		case p == part("b", "Phrase") || p == part("f", "Phrase"):
		case p == "":
			if lo, _ := st.rng(st.strLen(w.c.get(st, w.msg, "Phrase"))); lo > 0 {
				bad("the reason phrase is missing")
			}
		case !strings.Contains(p, "\x01") && w.isSet(st, "Phrase") != 1: // a standard phrase
		default:
			bad("the last part is not the reason phrase")
		}
		return
	}
	if resp == 1 {
		bad("a response starts with a request line")
	}
	switch {
	case a[0] == part("f", "Method") || a[0] == part("b", "Method"):
		if w.isSet(st, "Method") == 0 {
			bad("the method is empty")
		}
	case w.isSet(st, "Method") == 0 && a[0] != "" && strings.Trim(a[0], tokenChars) == "":
	default:
		bad("the first part is not the method")
	}
	switch {
	case a[1] == part("c", "Request"):
	case w.isSet(st, "Request") == 0 && a[1] != "" && !strings.Contains(a[1], "\x01"):
	default:
		bad("the second part is not the request target")
	}
	if !w.version(st, a[2]) {
		bad("the third part is not the protocol version")
	}
}

// run analyses the writer for one field.
func (c *Check) writeMsg(field string, vias int, rules ...string) (*msgWriter, []callRes) {
	fn := c.fn("sip.Msg.Append")
	if fn == nil {
		return nil, nil
	}
	c.analysed(fn)
	if c.memo == nil {
		c.memo = map[string]*Obj{}
	}
	e := c.engine()
	e.concrete = vias > 0
	msg := c.input("msg", "sip.Msg")
	buf := c.memo["$buf"]
	if buf == nil {
		buf = newObj("b", "in:b", elemOf(fn.Signature.Params().At(0).Type()))
		buf.Input = true
		c.memo["$buf"] = buf
	}
	dat := c.memo["$data"]
	if dat == nil {
		dat = newObj("payload", "in:payload", types.Typ[types.Uint8])
		dat.Input = true
		c.memo["$data"] = dat
	}
	w := &msgWriter{msg: msg, field: field, rule: map[string]bool{}, lines: map[string]bool{}}
	for _, r := range rules {
		w.rule[r] = true
	}
	n := isym(leaf("len(payload)", lenType))
	w.data = mkSlice(ploc(Loc{dat, ""}), iconst(0), n, n)
	w.c, w.e, w.buf, w.name, w.put = c, e, buf, w.what, w.putPart
	w.nums = []Val{n}
	w.install("Addr", "URI", "Via", "XHeader")
	pay := structFieldType(msg.Type, "Payload")
	e.intrinsics["("+types.TypeString(pay, nil)+").Data"] = func(e *Engine, cc *callCtx) []callRes {
		cc.st.setLo(n.S, 0)
		return ret1(cc.st, w.data)
	}
	e.intrinsics["("+types.TypeString(pay, nil)+").ContentType"] = func(e *Engine, cc *callCtx) []callRes {
		return ret1(cc.st, ssym(term("ctype", tString, cc.args[0])))
	}
	tri := []string{"u", "n", "s"}
	e.keyFn = func(st *State) string {
		k := tri[w.isSet(st, "Payload")+1] + tri[w.isSet(st, "Status")+1]
		if v := c.get(st, msg, "Phrase"); v.S == 0 || syms[v.S].Op != "init" {
			k += "p"
		}
		if fieldIn(msg.Type, field) {
			k += tri[w.isSet(st, field)+1]
		}
		if field == "Expires" {
			for _, f := range []string{"Method", "CSeqMethod"} {
				r, known := st.evalCond(condEq(c.get(st, msg, f), strc("REGISTER")))
				switch {
				case !known:
					k += "?"
				case r:
					k += "R"
				default:
					k += "-"
				}
			}
		}
		return k
	}
	rs := e.run(fn, func(st *State, args []Val) []Val {
		v, os := c.list(st, "msg.Via", "sip.Via", vias)
		w.vias = os
		c.set(st, msg, "Via", v)
		for i, o := range os {
			st.setMonVal(fmt.Sprintf("$via%d", i), ptrTo(o))
		}
		st.setMonVal("$msg", ptrTo(msg))
		st.setMonVal("$data", w.data.El[0])
		for _, f := range structFields(msg.Type) { // numbers as the parser leaves them
			if isInt(f.Type()) {
				if x := c.get(st, msg, f.Name()); x.S != 0 {
					st.setLo(x.S, 0)
					if _, hi := st.rng(x); hi > 1<<31-1 {
						st.setHi(x.S, 1<<31-1)
					}
				}
			}
		}
		st.setMon(w.key(pStart, "", "", ""))
		return []Val{ptrTo(msg), ptrTo(buf)}
	})
	if c.gaveUp(e, "sip.Msg.Append") {
		return w, nil
	}
	if len(rs) == 0 {
		c.unsure("sip.Msg.Append does not return")
	}
	c.count("paths", len(rs))
	return w, rs
}

func fieldIn(t types.Type, f string) bool {
	for _, x := range structFields(t) {
		if x.Name() == f {
			return true
		}
	}
	return false
}

func checkS06(c *Check) {
	c.rules = append(c.rules, "name of field", "once", "not without a value", "extension headers")
	c.assumption("numbers in a message are not negative and below 2^31, as the parser leaves them")
	t := c.p.typ("sip.Msg")
	if t == nil {
		c.unsure("sip.Msg not found")
		return
	}
	var hs []string
	for h := range headerNames {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	hs = append(hs, "XHeader")
	lines := map[string]bool{}
	end := c.p.pos(c.fn("sip.Msg.Append").Pos())
	for _, h := range hs {
		f := fieldOfHeader(h)
		counted := f
		switch {
		case h == "Content-Type" || h == "Content-Length" || h == "CSeq":
			counted = h
		case !fieldIn(t, f):
			c.unsure("no field for %s", h)
			continue
		}
		ns := []int{0}
		if f == "Via" {
			ns = []int{0, 1, 2, 3}
		}
		for _, n := range ns {
			w, rs := c.writeMsg(counted, n, "name of field")
			if w == nil {
				return
			}
			for l := range w.lines {
				lines[l] = true
			}
			c.count("fields", 1)
			for _, r := range rs {
				w.countAt(r.st, h, n, end)
			}
		}
	}
	c.count("different lines", len(lines))
	c.writeX()
}

// countAt judges how often the counted header was written on a path.
func (w *msgWriter) countAt(st *State, h string, vias int, pos string) {
	c := w.c
	phase, line, count, _ := unkey(st.mon.Key)
	if phase != pBody || strings.Contains(line, "\x01?") {
		c.unsure("what was written is not resolved: %s", pretty(line))
	}
	if h == "Via" {
		want := ""
		for i := 0; i < vias; i++ {
			want += fmt.Sprint(i)
		}
		if count != want {
			c.fail("once", pos, "sip.Msg.Append", "of %d Via hops, in order, these are written: %q", vias, count)
		}
		return
	}
	n := len(count)
	f := fieldOfHeader(h)
	set := -1
	switch h {
	case "Content-Length", "CSeq", "From", "To", "Call-ID":
		set = 1
		if n == 0 {
			c.fail("once", pos, "sip.Msg.Append", "a message can be written without %s", h)
			return
		}
	case "Content-Type":
		set = w.isSet(st, "Payload")
		if _, hi := st.rng(w.data.El[2]); n == 0 && hi == 0 {
			set = 0
		}
	case "Max-Forwards":
		if w.isSet(st, "Status") == 0 && n == 0 {
			c.fail("once", pos, "sip.Msg.Append", "a request can be written without %s", h)
		}
		if n < 2 {
			return
		}
	default:
		set = w.isSet(st, f)
	}
	switch {
	case n > 1:
		c.fail("once", pos, "sip.Msg.Append", "%s can be written more than once", h)
	case n == 0 && set != 0:
		c.fail("once", pos, "sip.Msg.Append", "a message with %s set can be written without the header", f)
	case n == 1 && set != 1:
		if h == "Expires" {
			for _, m := range []string{"Method", "CSeqMethod"} {
				if r, known := st.evalCond(condEq(c.get(st, w.msg, m), strc("REGISTER"))); known && r {
					return
				}
			}
		}
		if h == "XHeader" { // nothing is written for an empty list
			return
		}
		c.fail("not without a value", pos, "sip.Msg.Append", "%s is written although nothing is set for it", h)
	}
}

// writeX: extension headers are written one line each, with their own name and value.
func (c *Check) writeX() {
	fn := c.fn("sip.XHeader.Append")
	if fn == nil {
		return
	}
	c.analysed(fn)
	pos := c.p.pos(fn.Pos())
	for n := 0; n <= 3; n++ {
		e := c.engine()
		e.concrete = true
		buf := c.memo["$buf"]
		var els []*Obj
		w := &writer{c: c, e: e, buf: buf}
		w.name = func(st *State, v Val) string {
			for i, o := range els {
				for _, f := range []string{"Name", "Value"} {
					x := c.get(st, o, f)
					switch {
					case f == "Name" && v.K == KStr && valEq(v, x):
						return fmt.Sprintf("%s%d", f, i)
					case f == "Value" && v.K == KSlice && x.K == KSlice && valEq(v.El[0], x.El[0]) && valEq(v.El[1], x.El[1]) && valEq(v.El[2], x.El[2]):
						return fmt.Sprintf("%s%d", f, i)
					case f == "Value" && v.K == KPtr && x.K == KSlice && valEq(v, x.El[0]):
						return fmt.Sprintf("%s%d", f, i)
					}
				}
			}
			return ""
		}
		w.put = func(st *State, in ssa.Instruction, p string) []*State {
			k := st.mon.Key
			i := strings.LastIndex(k, "\n") + 1
			k = k[:i] + glue(k[i:], p)
			if len(k) > 2000 {
				k = k[:2000]
			}
			st.setMon(k)
			return []*State{st}
		}
		w.install()
		rs := e.run(fn, func(st *State, args []Val) []Val {
			var v Val
			v, els = c.list(st, "x", "sip.XHeader", n)
			for i, o := range els {
				st.setMonVal(fmt.Sprintf("$x%d", i), ptrTo(o))
			}
			return []Val{v, ptrTo(buf)}
		})
		if c.gaveUp(e, "sip.XHeader.Append") {
			return
		}
		full := false
		for _, r := range rs {
			var got []string
			lines := strings.Split(r.st.mon.Key, "\r\n")
			if lines[len(lines)-1] != "" {
				c.fail("extension headers", pos, "sip.XHeader.Append", "the last line does not end: %q", pretty(lines[len(lines)-1]))
			}
			whole := true
			for _, l := range lines[:len(lines)-1] {
				c.count("extension header lines", 1)
				if strings.Contains(l, "\x01?") {
					c.unsure("extension header not resolved: %s", pretty(l))
					return
				}
				i := strings.IndexByte(l, ':')
				if i < 0 {
					c.fail("extension headers", pos, "sip.XHeader.Append", "a line without a colon: %q", pretty(l))
					return
				}
				name, val := l[:i], strings.TrimLeft(l[i+1:], " \t")
				if strings.HasPrefix(l, "\x01") { // the colon inside the part's own description
					j := strings.IndexByte(l, 2)
					k := strings.IndexByte(l[j:], ':')
					if k < 0 {
						c.fail("extension headers", pos, "sip.XHeader.Append", "a line without a colon: %q", pretty(l))
						return
					}
					name, val = l[:j+k], strings.TrimLeft(l[j+k+1:], " \t")
				}
				m := regexp.MustCompile("^\x01[fb]:Value([0-9])\x02$").FindStringSubmatch(val)
				id := ""
				switch {
				case m != nil:
					id = m[1]
					got = append(got, id)
				case val == "":
					whole = false
				default:
					c.fail("extension headers", pos, "sip.XHeader.Append", "an extension header's value is written as %q", pretty(val))
					return
				}
				nm := regexp.MustCompile("^\x01[fb]:Name([0-9])\x02$").FindStringSubmatch(name)
				switch {
				case nm != nil && (id == "" || nm[1] == id):
				case name == "": // nothing of the name can be written
					whole = false
				default:
					c.fail("extension headers", pos, "sip.XHeader.Append", "an extension header is written under the name %q with the value %q", pretty(name), pretty(val))
					return
				}
			}
			if len(lines)-1 != n {
				c.fail("extension headers", pos, "sip.XHeader.Append", "%d extension headers are written as %d lines", n, len(lines)-1)
				return
			}
			sort.Strings(got)
			for i, g := range got {
				if i > 0 && got[i-1] == g {
					c.fail("extension headers", pos, "sip.XHeader.Append", "an extension header is written twice")
				}
			}
			full = full || whole && len(got) == n
		}
		if len(rs) == 0 {
			c.unsure("sip.XHeader.Append does not return")
		} else if !full {
			c.fail("extension headers", pos, "sip.XHeader.Append", "%d extension headers are never written with name and value", n)
		}
	}
}

func checkS08(c *Check) {
	c.rules = append(c.rules, "start line", "line form", "one content length", "content length last", "length", "payload")
	c.assumption("texts the writer copies as they are contain no line breaks, as the parser leaves them; the others are the subject of S07")
	lines := map[string]bool{}
	for _, n := range []int{0, 1, 2} {
		w, rs := c.writeMsg("", n, "start line", "line form", "one content length", "content length last", "length", "payload")
		if w == nil {
			return
		}
		for l := range w.lines {
			lines[l] = true
		}
		pos := c.p.pos(c.fn("sip.Msg.Append").Pos())
		for _, r := range rs {
			phase, line, _, _ := unkey(r.st.mon.Key)
			if phase != pBody {
				c.fail("line form", pos, "sip.Msg.Append", "the message can end before its headers do: %q", pretty(line))
				continue
			}
			if strings.Contains(line, "\x01?") {
				c.unsure("payload not resolved: %s", pretty(line))
				continue
			}
			want := part("f", "Data")
			switch w.isSet(r.st, "Payload") {
			case 0:
				want = ""
			case -1:
				c.unsure("payload not decided on a path")
				continue
			}
			c.count("endings", 1)
			if line != want {
				if _, hi := r.st.rng(w.data.El[2]); line == "" && hi == 0 {
					continue
				}
				c.fail("payload", pos, "sip.Msg.Append", "after the empty line %q is written, not %q", pretty(line), pretty(want))
			}
		}
	}
	c.count("different lines", len(lines))
}
