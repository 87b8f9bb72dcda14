package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M02", "The description writer is interpreted for every shape of a description (media present or not, none to three codecs, attributes and other lines none or two), with all fields unknown, and everything it writes is followed as text. Each finished line must be the next one the description needs, made from exactly the fields it belongs to; a default stands only where the field is known to be unset, an optional part is left out only where it is known to be unset, IP6 stands exactly where the address is known to contain a colon, and where the writer returns every line has been written once.", checkM02)
}

// The monitor's key: line so far, the lines already written.
type sdpWriter struct {
	writer
	sdp    *Obj
	objs   map[*Obj]string
	codecs map[string]int // medium -> number of codecs, -1 without the medium
	attrs  int
	other  int
	shape  string
	fn     *ssa.Function
}

func sdpKey(line string, done map[string]bool) string {
	return line + "\x00" + strings.Join(sortedKeys(done), " ")
}

func sdpUnkey(k string) (string, map[string]bool) {
	i := strings.IndexByte(k, 0)
	done := map[string]bool{}
	if i < 0 {
		return k, done
	}
	for _, x := range strings.Fields(k[i+1:]) {
		done[x] = true
	}
	return k[:i], done
}

func (w *sdpWriter) bad(in ssa.Instruction, rule, format string, a ...any) {
	pos := w.c.p.pos(w.fn.Pos())
	if in != nil {
		pos = w.c.p.pos(instrPos(in))
	}
	w.c.fail(rule, pos, fnName(w.fn), format, a...)
}

func (w *sdpWriter) what(st *State, v Val) string {
	if v.S == 0 || v.N != 0 {
		return ""
	}
	si := syms[v.S]
	if si.Op == "newid" {
		return "new id"
	}
	if si.Op == "init" {
		if n, ok := w.objs[si.L.O]; ok {
			return strings.TrimPrefix(n+si.L.Path, ".")
		}
	}
	return ""
}

// val is the value of a field by the name used in written parts.
func (w *sdpWriter) val(st *State, f string) Val {
	o, rest, best := w.sdp, f, 0
	for x, n := range w.objs {
		if len(n) > best && strings.HasPrefix(f, n) {
			o, rest, best = x, strings.TrimPrefix(f[len(n):], "."), len(n)
		}
	}
	path := "." + rest
	if strings.HasPrefix(rest, "[") {
		path = rest
	}
	var t types.Type = types.Typ[types.String]
	switch {
	case strings.HasSuffix(f, "Ptime"), strings.HasSuffix(f, "Rate"):
		t = types.Typ[types.Int]
	case strings.HasSuffix(f, "Only"):
		t = types.Typ[types.Bool]
	}
	return st.load(Loc{o, path}, t)
}

// set: 1 known to be set, 0 known to be unset, -1 unknown.
func (w *sdpWriter) set(st *State, f string) int {
	v := w.val(st, f)
	switch v.K {
	case KStr:
		lo, hi := st.rng(st.strLen(v))
		if lo > 0 {
			return 1
		}
		if hi <= 0 {
			return 0
		}
		return -1
	case KInt:
		lo, hi := st.rng(v)
		if lo > 0 {
			return 1
		}
		if hi <= 0 {
			return 0
		}
		return -1
	}
	if r, known := st.evalCond(v); known {
		if r {
			return 1
		}
		return 0
	}
	return -1
}

func (w *sdpWriter) colon(st *State, f string) int {
	if w.set(st, f) == 0 {
		return 0
	}
	if r, known := st.evalCond(bsym(term("has colon", tBool, w.val(st, f)))); known {
		if r {
			return 1
		}
		return 0
	}
	return -1
}

// search splits where an address is searched for a colon.
func (w *sdpWriter) search(cc *callCtx) []callRes {
	if len(cc.args) != 2 || cc.fn == nil {
		return nil
	}
	n := w.what(cc.st, cc.args[0])
	if n != "Addr" && n != "Origin.Addr" {
		return nil
	}
	p := cc.args[1]
	switch fnName(cc.fn) {
	case "strings.Index", "strings.LastIndex", "strings.Contains", "strings.IndexAny", "strings.ContainsAny", "strings.Count":
		if !p.isConstStr() || p.Str != ":" {
			return nil
		}
	case "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.ContainsRune":
		if !p.isConstInt() || p.N != ':' {
			return nil
		}
	default:
		return nil
	}
	x := bsym(term("has colon", tBool, cc.args[0]))
	yes, no := bconst(true), bconst(false)
	f := cc.st.clone()
	st := cc.st
	ok := st.assume(x, true) && st.assume(cond(token.GTR, st.strLen(cc.args[0]), iconst(0)), true)
	if !strings.Contains(fnName(cc.fn), "Contains") {
		i := isym(freshSym("found", lenType))
		lo, none := int64(0), int64(-1)
		if strings.HasSuffix(fnName(cc.fn), "Count") {
			lo, none = 1, 0
		}
		ok = ok && st.setLo(i.S, lo) && st.addDiff(i, st.strLen(cc.args[0]), lo-1)
		yes, no = i, iconst(none)
	}
	var out []callRes
	if ok {
		out = append(out, callRes{st, yes})
	}
	if f.assume(x, false) {
		out = append(out, callRes{f, no})
	}
	return out
}

func (w *sdpWriter) putPart(st *State, in ssa.Instruction, p string) []*State {
	line, done := sdpUnkey(st.mon.Key)
	all := line + p
	for {
		j := strings.Index(all, "\r\n")
		if j < 0 {
			break
		}
		w.line(st, in, all[:j], done)
		all = all[j+2:]
	}
	if len(all) > 600 {
		all = all[:600]
	}
	st.setMon(sdpKey(all, done))
	return []*State{st}
}

func (w *sdpWriter) optional(st *State, in ssa.Instruction, f, got, dflt string, pattern *regexp.Regexp) bool {
	s := w.set(st, f)
	switch {
	case got == part("f", f):
		if s != 1 {
			w.bad(in, "field", "%s is written although it may be empty", f)
		}
		return true
	case !strings.Contains(got, "\x01") && pattern.MatchString(got):
		if s != 0 {
			w.bad(in, "default", "%q is written although %s may be set", got, f)
		}
		return true
	}
	return false
}

func (w *sdpWriter) address(st *State, in ssa.Instruction, f, got string) bool {
	m := regexp.MustCompile(`^IN IP([46]) (.+)$`).FindStringSubmatch(got)
	if m == nil {
		return false
	}
	six := m[1] == "6"
	if !strings.Contains(m[2], "\x01") {
		if strings.Contains(m[2], ":") != six {
			w.bad(in, "address family", "%q has the wrong family", got)
		}
		return w.optional(st, in, f, m[2], "", regexp.MustCompile(`^[0-9.]+$|^[0-9a-f:.]+$`))
	}
	if m[2] != part("f", f) {
		return false
	}
	switch c := w.colon(st, f); {
	case six && c != 1:
		w.bad(in, "address family", "%s is called IP6 although it may contain no colon", f)
	case !six && c != 0:
		w.bad(in, "address family", "%s is called IP4 although it may contain a colon", f)
	}
	return w.optional(st, in, f, m[2], "", regexp.MustCompile("^$"))
}

var sdpHead = []string{"v", "o", "s", "c", "t"}

// closeMedium: all lines of a medium were written.
func (w *sdpWriter) closeMedia(st *State, in ssa.Instruction, done map[string]bool) {
	for _, m := range []string{"Audio", "Video"} {
		if !done["m"+m] || done["end"+m] {
			continue
		}
		for i := 0; i < w.codecs[m]; i++ {
			c := fmt.Sprintf("%s.Codecs[%d]", m, i)
			if !done["r"+c] {
				w.bad(in, "every line", "%s has no rtpmap line", c)
			}
			if !done["f"+c] && w.set(st, c+".Fmtp") != 0 {
				w.bad(in, "every line", "%s has no fmtp line although its Fmtp may be set", c)
			}
			delete(done, "r"+c)
			delete(done, "f"+c)
		}
		done["end"+m] = true
	}
}

func (w *sdpWriter) head(in ssa.Instruction, done map[string]bool, line string) {
	for _, h := range sdpHead {
		if !done[h] {
			w.bad(in, "order", "%q comes before the %s= line", pretty(line), h)
			done[h] = true
		}
	}
}

// line judges a finished line.
func (w *sdpWriter) line(st *State, in ssa.Instruction, line string, done map[string]bool) {
	w.c.count("lines", 1)
	if strings.Contains(line, "\x01?") {
		w.c.unsure("line not resolved: %s", pretty(line))
		return
	}
	if len(line) < 2 || line[1] != '=' {
		if i := strings.IndexByte(line, '='); i > 0 && line[0] == 1 {
			w.otherLine(in, line, done)
			return
		}
		w.bad(in, "line form", "a line that is no field: %q", pretty(line))
		return
	}
	k, rest := line[:1], line[2:]
	once := func(n string) {
		if done[n] {
			w.bad(in, "every line", "a second line %q", pretty(line))
		}
		done[n] = true
	}
	ok := true
	switch k {
	case "v", "o", "s", "c", "t":
		for _, h := range sdpHead {
			if h == k {
				break
			}
			if !done[h] {
				w.bad(in, "order", "the %s= line comes before the %s= line", k, h)
				done[h] = true
			}
		}
		once(k)
	}
	switch k {
	case "v":
		ok = rest == "0"
	case "o":
		a := strings.SplitN(rest, " ", 4)
		if strings.HasPrefix(rest, part("f", "new id")) || len(a) < 4 {
			ok = false
			break
		}
		// the texts of fields contain no separator here
		a = splitParts(rest, 4)
		if len(a) < 4 {
			ok = false
			break
		}
		ok = w.optional(st, in, "Origin.User", a[0], "-", regexp.MustCompile(`^\S+$`)) &&
			(a[1] == part("f", "new id") && w.unset(st, in, "Origin.ID") || w.optional(st, in, "Origin.ID", a[1], "", regexp.MustCompile(`^$`))) &&
			w.version(st, in, a[2], a[1]) &&
			w.address(st, in, "Origin.Addr", a[3])
	case "s":
		ok = w.optional(st, in, "Session", rest, "", regexp.MustCompile(`^.+$`))
	case "c":
		ok = w.address(st, in, "Addr", rest)
	case "t":
		ok = w.optional(st, in, "Time", rest, "", regexp.MustCompile(`^[0-9]+ [0-9]+$`))
	case "m":
		w.head(in, done, line)
		ok = w.mediaLine(st, in, rest, line, done)
	case "a":
		w.head(in, done, line)
		ok = w.attr(st, in, rest, line, done)
	default:
		w.otherLine(in, line, done)
	}
	if !ok {
		w.bad(in, "content", "not what the fields say: %q", pretty(line))
	}
}

// splitParts splits at blanks outside parts.
func splitParts(s string, n int) []string {
	var out []string
	in, from := false, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 1:
			in = true
		case 2:
			in = false
		case ' ':
			if !in && len(out) < n-1 {
				out = append(out, s[from:i])
				from = i + 1
			}
		}
	}
	return append(out, s[from:])
}

func (w *sdpWriter) unset(st *State, in ssa.Instruction, f string) bool {
	if w.set(st, f) != 0 {
		w.bad(in, "default", "a default is written although %s may be set", f)
	}
	return true
}

func (w *sdpWriter) version(st *State, in ssa.Instruction, got, id string) bool {
	if got == part("f", "Origin.Version") {
		return w.optional(st, in, "Origin.Version", got, "", regexp.MustCompile("^$"))
	}
	if got == id || got == part("f", "new id") {
		return w.unset(st, in, "Origin.Version")
	}
	return false
}

func (w *sdpWriter) mediaLine(st *State, in ssa.Instruction, rest, line string, done map[string]bool) bool {
	m := map[string]string{"audio ": "Audio", "video ": "Video"}[rest[:min(len(rest), 6)]]
	if m == "" {
		return false
	}
	for _, x := range []string{"attr", "ptime", "dir"} {
		if done[x] {
			w.bad(in, "order", "a media line follows attributes of the description")
		}
	}
	w.closeMedia(st, in, done)
	if done["m"+m] {
		w.bad(in, "every line", "a second line %q", pretty(line))
	}
	done["m"+m] = true
	if w.codecs[m] < 0 {
		return false
	}
	a := splitParts(rest[6:], 3)
	if len(a) < 2 || a[0] != part("i", m+".Port") {
		return false
	}
	want := ""
	for i := 0; i < w.codecs[m]; i++ {
		want += part("i", fmt.Sprintf("%s.Codecs[%d].PT", m, i)) + " "
	}
	got := ""
	if len(a) == 3 {
		got = a[2] + " "
	}
	return got == want && w.optional(st, in, m+".Proto", a[1], "", regexp.MustCompile("^RTP/AVP$"))
}

func (w *sdpWriter) attr(st *State, in ssa.Instruction, rest, line string, done map[string]bool) bool {
	cur := ""
	for _, m := range []string{"Audio", "Video"} {
		if done["m"+m] && !done["end"+m] {
			cur = m
		}
	}
	if strings.HasPrefix(rest, "rtpmap:") || strings.HasPrefix(rest, "fmtp:") {
		i := strings.IndexByte(rest, ':')
		kind, x := rest[:1], rest[i+1:]
		re := regexp.MustCompile("^\x01i:((Audio|Video)\\.Codecs\\[[0-9]+\\])\\.PT\x02 (.*)$").FindStringSubmatch(x)
		if re == nil {
			return false
		}
		if re[2] != cur {
			w.bad(in, "order", "%q does not follow the media line it belongs to", pretty(line))
			return true
		}
		if done[kind+re[1]] {
			w.bad(in, "every line", "a second line %q", pretty(line))
		}
		done[kind+re[1]] = true
		if kind == "f" {
			if !done["r"+re[1]] {
				w.bad(in, "order", "the fmtp line of %s comes before its rtpmap line", re[1])
			}
			return re[3] == part("f", re[1]+".Fmtp") && w.optional(st, in, re[1]+".Fmtp", re[3], "", regexp.MustCompile("^$"))
		}
		short := part("f", re[1]+".Name") + "/" + part("i", re[1]+".Rate")
		if re[3] == short {
			if w.set(st, re[1]+".Param") != 0 {
				w.bad(in, "field", "the rtpmap line has no parameter although %s.Param may be set", re[1])
			}
			return true
		}
		return strings.HasPrefix(re[3], short+"/") && w.optional(st, in, re[1]+".Param", re[3][len(short)+1:], "", regexp.MustCompile("^$"))
	}
	w.closeMedia(st, in, done)
	// attributes of the description follow its media: all of them are written
	for _, m := range []string{"Audio", "Video"} {
		if w.codecs[m] >= 0 && !done["m"+m] {
			w.bad(in, "every line", "%q is written before the %s medium", pretty(line), strings.ToLower(m))
			done["m"+m], done["end"+m] = true, true
		}
	}
	once := func(n string) {
		if done[n] {
			w.bad(in, "every line", "a second line %q", pretty(line))
		}
		done[n] = true
	}
	switch {
	case rest == "ptime:"+part("i", "Ptime"):
		once("ptime")
		if w.set(st, "Ptime") != 1 {
			w.bad(in, "field", "a packet time is written although it may not be positive")
		}
		return true
	case rest == "sendonly" || rest == "recvonly" || rest == "sendrecv":
		once("dir")
		s, r := w.set(st, "SendOnly"), w.set(st, "RecvOnly")
		switch {
		case rest == "sendonly" && s != 1:
			w.bad(in, "direction", "sendonly is written although SendOnly may be false")
		case rest == "recvonly" && r != 1:
			w.bad(in, "direction", "recvonly is written although RecvOnly may be false")
		case rest == "sendrecv" && (s != 0 || r != 0):
			w.bad(in, "direction", "sendrecv is written although SendOnly or RecvOnly may be true")
		}
		return true
	}
	n := 0
	for done[fmt.Sprintf("attr%d", n)] {
		n++
	}
	done[fmt.Sprintf("attr%d", n)], done["attr"] = true, true
	if n >= w.attrs {
		return false
	}
	name, val := fmt.Sprintf("Attrs[%d][0]", n), fmt.Sprintf("Attrs[%d][1]", n)
	if rest == part("f", name) {
		if w.set(st, val) != 0 {
			w.bad(in, "field", "an attribute is written without its value, which may be set")
		}
		return true
	}
	return strings.HasPrefix(rest, part("f", name)+":") && w.optional(st, in, val, rest[len(part("f", name))+1:], "", regexp.MustCompile("^$"))
}

func (w *sdpWriter) otherLine(in ssa.Instruction, line string, done map[string]bool) {
	n := 0
	for done[fmt.Sprintf("other%d", n)] {
		n++
	}
	done[fmt.Sprintf("other%d", n)] = true
	if n >= w.other || line != part("f", fmt.Sprintf("Other[%d][0]", n))+"="+part("f", fmt.Sprintf("Other[%d][1]", n)) {
		w.bad(in, "content", "not what the fields say: %q", pretty(line))
	}
}

func (w *sdpWriter) end(st *State) {
	line, done := sdpUnkey(st.mon.Key)
	if line != "" {
		w.bad(nil, "line form", "the last line is not ended: %q", pretty(line))
	}
	w.closeMedia(st, nil, done)
	need := append([]string{}, sdpHead...)
	for _, m := range []string{"Audio", "Video"} {
		if w.codecs[m] >= 0 {
			need = append(need, "m"+m)
		}
	}
	for i := 0; i < w.attrs; i++ {
		need = append(need, fmt.Sprintf("attr%d", i))
	}
	for i := 0; i < w.other; i++ {
		need = append(need, fmt.Sprintf("other%d", i))
	}
	need = append(need, "dir")
	for _, n := range need {
		if !done[n] {
			w.bad(nil, "every line", "a description (%s) can be written without the line %s", w.shape, n)
		}
	}
	if !done["ptime"] && w.set(st, "Ptime") != 0 {
		w.bad(nil, "every line", "a description can be written without its packet time")
	}
	w.c.count("descriptions", 1)
}

func checkM02(c *Check) {
	c.rules = append(c.rules, "line form", "order", "every line", "content", "default", "field", "address family", "direction")
	fn := c.fn("sdp.SDP.Append")
	if fn == nil {
		return
	}
	c.analysed(fn)
	for _, audio := range []int{-1, 0, 1, 2, 3} {
		for _, video := range []int{-1, 0, 2} {
			for _, n := range []int{0, 2} {
				c.sdpWrite(fn, audio, video, n, n)
			}
		}
	}
	c.sdpWrite(fn, 1, -1, 2, 0)
	c.sdpWrite(fn, 1, -1, 1, 3)
	for _, n := range []string{"Data", "String"} {
		c.sdpWhole(n)
	}
}

func (c *Check) sdpWrite(fn *ssa.Function, audio, video, attrs, other int) {
	if c.memo == nil {
		c.memo = map[string]*Obj{}
	}
	e := c.engine()
	e.concrete = true
	buf := c.memo["$buf"]
	if buf == nil {
		buf = newObj("b", "in:b", elemOf(fn.Signature.Params().At(0).Type()))
		buf.Input = true
		c.memo["$buf"] = buf
	}
	w := &sdpWriter{sdp: c.input("sdp", "sdp.SDP"), objs: map[*Obj]string{}, codecs: map[string]int{"Audio": audio, "Video": video}, attrs: attrs, other: other, fn: fn}
	w.c, w.e, w.buf, w.name, w.put = c, e, buf, w.what, w.putPart
	w.shape = fmt.Sprintf("audio %d video %d codecs, %d attributes", audio, video, attrs)
	w.install()
	w.objs[w.sdp] = ""
	if f := c.p.fn("util.GenerateOriginID"); f != nil {
		e.intrinsics[f.String()] = func(e *Engine, cc *callCtx) []callRes {
			v := ssym(term("newid", tString))
			cc.st.assume(cond(token.GTR, cc.st.strLen(v), iconst(0)), true)
			return ret1(cc.st, v)
		}
	}
	old := e.onCall
	e.onCall = func(e *Engine, cc *callCtx) ([]callRes, bool) {
		if out := w.search(cc); out != nil {
			return out, true
		}
		if old != nil {
			return old(e, cc)
		}
		return nil, false
	}
	e.keyFn = func(st *State) string {
		_, done := sdpUnkey(st.mon.Key)
		var sb strings.Builder
		add := func(slot string, fields ...string) {
			if !done[slot] {
				for _, f := range fields {
					sb.WriteByte("un s"[w.set(st, f)+1])
					if strings.HasSuffix(f, "Addr") {
						sb.WriteByte("?64"[w.colon(st, f)+1])
					}
				}
			}
		}
		add("o", "Origin.User", "Origin.ID", "Origin.Version", "Origin.Addr")
		add("s", "Session")
		add("c", "Addr")
		add("t", "Time")
		add("dir", "SendOnly", "RecvOnly")
		add("x", "Ptime")
		return sb.String()
	}
	slice := func(st *State, name, field string, t types.Type, n int, o *Obj) {
		a := c.memo["$"+name]
		if a == nil {
			a = newObj(name, "in:"+name, t)
			a.Input = true
			c.memo["$"+name] = a
		}
		w.objs[a] = name
		v := nilSlice()
		if n > 0 {
			v = mkSlice(ploc(Loc{a, ""}), iconst(0), iconst(int64(n)), iconst(int64(n)))
			st.setMonVal("$"+name, ploc(Loc{a, ""}))
		}
		c.set(st, o, field, v)
	}
	rs := e.run(fn, func(st *State, args []Val) []Val {
		st.setMonVal("$sdp", ptrTo(w.sdp))
		for _, m := range []string{"Audio", "Video"} {
			if w.codecs[m] < 0 {
				c.set(st, w.sdp, m, nilVal)
				continue
			}
			o := c.input(m, "sdp.Media")
			w.objs[o] = m
			c.set(st, w.sdp, m, ptrTo(o))
			st.setMonVal("$"+m, ptrTo(o))
			slice(st, m+".Codecs", "Codecs", elemOf(structFieldType(o.Type, "Codecs")), w.codecs[m], o)
		}
		slice(st, "Attrs", "Attrs", elemOf(structFieldType(w.sdp.Type, "Attrs")), attrs, w.sdp)
		slice(st, "Other", "Other", elemOf(structFieldType(w.sdp.Type, "Other")), other, w.sdp)
		st.setMon(sdpKey("", nil))
		return []Val{ptrTo(w.sdp), ptrTo(buf)}
	})
	if c.gaveUp(e, "sdp.SDP.Append") {
		return
	}
	if len(rs) == 0 {
		c.unsure("sdp.SDP.Append does not return")
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].st.mon.Key < rs[j].st.mon.Key })
	for _, r := range rs {
		w.end(r.st)
	}
}

// sdpWhole: what the payload consists of is what Append writes.
func (c *Check) sdpWhole(name string) {
	fn := c.fn("sdp.SDP." + name)
	app := c.p.fn("sdp.SDP.Append")
	if fn == nil || app == nil {
		return
	}
	c.analysed(fn)
	e := c.engine()
	o := c.input("sdp", "sdp.SDP")
	e.intrinsics[app.String()] = func(e *Engine, cc *callCtx) []callRes {
		if l, ok := loc1(cc.st, cc.args[0]); !ok || l.O != o {
			c.fail("whole", c.p.pos(cc.in.Pos()), fnName(fn), "another description is written")
		}
		cc.st.setMon(cc.st.mon.Key + "A")
		return ret1(cc.st, undef)
	}
	e.onEvent = func(e *Engine, st *State, ev *Event) []*State {
		if ev.Kind == "write" {
			st.setMon(st.mon.Key + "w")
		}
		return []*State{st}
	}
	take := func(e *Engine, cc *callCtx) []callRes {
		v := e.result(cc, cc.st, "", cc.sig.Results().At(0).Type())
		if v.K == KStr {
			v = ssym(freshSym("text", tString))
		}
		cc.st.setMonVal("$res", v)
		return ret1(cc.st, v)
	}
	e.intrinsics["(*bytes.Buffer).Bytes"] = take
	e.intrinsics["(*bytes.Buffer).String"] = take
	old := e.onCall
	e.onCall = func(e *Engine, cc *callCtx) ([]callRes, bool) {
		if cc.fn != nil && cutsText.MatchString(fnName(cc.fn)) {
			c.fail("whole", c.p.pos(cc.in.Pos()), fnName(fn), "%s shortens what was written", fnName(cc.fn))
		}
		if old != nil {
			return old(e, cc)
		}
		return nil, false
	}
	rs := e.run(fn, func(st *State, args []Val) []Val {
		st.setMonVal("$sdp", ptrTo(o))
		return []Val{ptrTo(o)}
	})
	if c.gaveUp(e, fnName(fn)) {
		return
	}
	for _, r := range rs {
		if r.st.mon.Key != "A" {
			c.fail("whole", c.p.pos(fn.Pos()), fnName(fn), "the text returned is not exactly what Append writes once")
			continue
		}
		res, ok := r.st.monVal("$res")
		got := r.v
		if !ok {
			c.unsure("what %s returns is not known", fnName(fn))
			continue
		}
		if got.K == KSlice && res.K == KSlice {
			a, ka := loc1(r.st, got.El[0])
			b, kb := loc1(r.st, res.El[0])
			if ka && kb && a == b {
				if !valEq(got.El[1], res.El[1]) || !valEq(got.El[2], res.El[2]) {
					c.fail("whole", c.p.pos(fn.Pos()), fnName(fn), "only a part of the text written is returned")
				}
				c.count("whole texts", 1)
				continue
			}
		}
		if got.K == KSlice {
			got = e.bytesToString(r.st, got)
		}
		if res.K == KSlice {
			res = e.bytesToString(r.st, res)
		}
		if !valEq(got, res) {
			c.unsure("what %s returns is not known to be the text written", fnName(fn))
			continue
		}
		c.count("whole texts", 1)
	}
}

var cutsText = regexp.MustCompile(`^(bytes|strings)\.Trim|^\(\*bytes\.Buffer\)\.(Truncate|Next|Read)|^bytes\.Buffer\.(Truncate|Next|Read)`)
