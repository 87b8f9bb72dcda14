package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S07", "The writers of addresses, URIs and parameters are interpreted over text of every length, byte by byte. Every byte that reaches the output from the field looked at must be known, from the tests passed on its way, to be allowed where it stands: in bare text the component's own characters, after a percent sign the two hexadecimal digits of one byte, inside a quoted string anything but an unescaped quote, backslash or line break. Text written as a whole is judged by one arbitrary byte of it. Every quoted string is closed and every escape complete before anything else follows.", checkS07)
}

// escapeCase is one field of one component.
type escapeCase struct {
	typ, field string
	allowed    string // bare characters
	quoted     bool   // may stand in a quoted string
	what       string
}

const (
	alnum     = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
	uriMark   = "-_.!~*'()"
	hexDigits = "0123456789abcdefABCDEF"
)

// RFC 3261 section 25.1
var escapeCases = []escapeCase{
	{"URI", "User", alnum + uriMark + "&=+$,;?/", false, "user"},
	{"URI", "Pass", alnum + uriMark + "&=+$,", false, "password"},
	{"URIParam", "Name", alnum + uriMark + "[]/:&+$", false, "URI parameter name"},
	{"URIParam", "Value", alnum + uriMark + "[]/:&+$", false, "URI parameter value"},
	{"URIHeader", "Name", alnum + uriMark + "[]/?:+$", false, "URI header name"},
	{"URIHeader", "Value", alnum + uriMark + "[]/?:+$", false, "URI header value"},
	{"Param", "Name", tokenChars, false, "parameter name"},
	{"Param", "Value", tokenChars, true, "parameter value"},
	{"Addr", "Display", tokenChars + " ", true, "display name"},
	{"XHeader", "Name", tokenChars, false, "extension header name"},
}

// States of the text around a value: B between values, T bare text of the value, C after a closed
// quoted string, X after another component, Q in a quoted string, E after its backslash, R after its
// carriage return, L after its line break, 1 and 2 after a percent sign and its first digit. With a
// "g" the byte looked at last is the ghost, with an "h" it stands after the ghost.
type escapeRun struct {
	c     *Check
	e     *Engine
	k     escapeCase
	fn    *ssa.Function
	src   Val // the field
	g     Val // an arbitrary place in it
	ghost bool
	raw   bool // text was written as a whole
	seen  bool // bytes of the field were written

	judging bool // text written as a whole is judged
	set     [4]uint64
}

func checkS07(c *Check) {
	c.rules = append(c.rules, "allowed characters", "escape", "quoted string", "closed")
	for _, k := range escapeCases {
		wrote := false
		for n := 1; n <= 2; n++ {
			for at := 0; at < n; at++ {
				r := &escapeRun{c: c, k: k}
				if !r.run(n, at) {
					return
				}
				if r.raw {
					g := &escapeRun{c: c, k: k, ghost: true}
					if !g.run(n, at) {
						return
					}
					wrote = true
				}
				wrote = wrote || r.seen
				if k.typ == "URI" {
					n = 2
				}
			}
		}
		if !wrote {
			c.unsure("%s.%s is not seen to be written", k.typ, k.field)
		}
	}
}

func (r *escapeRun) run(n, at int) bool {
	c := r.c
	fn := c.fn("sip." + r.k.typ + ".Append")
	if fn == nil {
		return false
	}
	r.fn = fn
	c.analysed(fn)
	e := c.engine()
	r.e = e
	e.concrete = true
	if c.memo == nil {
		c.memo = map[string]*Obj{}
	}
	buf := c.memo["$buf"]
	if buf == nil {
		buf = newObj("b", "in:b", elemOf(fn.Signature.Params().At(0).Type()))
		buf.Input = true
		c.memo["$buf"] = buf
	}
	r.set = charSet(r.k.allowed)
	e.onEvent = r.event
	if r.ghost {
		e.onByte = r.onByte
	}
	for _, t := range []string{"Addr", "URI", "Param", "URIParam", "URIHeader", "Via", "XHeader"} {
		f := c.p.fn("sip." + t + ".Append")
		if f == nil || f == fn {
			continue
		}
		e.intrinsics[f.String()] = func(e *Engine, cc *callCtx) []callRes {
			if cc.st.nilness(cc.args[0]) != 1 {
				r.component(cc)
			}
			return ret1(cc.st, undef)
		}
	}
	old := e.onCall
	e.onCall = func(e *Engine, cc *callCtx) ([]callRes, bool) {
		if cc.fn != nil && cc.fn.Blocks == nil || cc.fn != nil && !c.p.inRepo(cc.fn) {
			switch fnName(cc.fn) {
			case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
				for _, a := range cc.args {
					if r.mentions(cc.st, a) {
						c.unsure("%s is written through %s at %s", r.k.what, fnName(cc.fn), c.p.pos(cc.in.Pos()))
					}
				}
			}
		}
		if r.ghost && cc.fn != nil {
			if out := r.search(cc); out != nil {
				return out, true
			}
		}
		if old != nil {
			return old(e, cc)
		}
		return nil, false
	}
	rs := e.run(fn, func(st *State, args []Val) []Val {
		var v Val
		var o *Obj
		if r.k.typ == "URI" {
			o = c.input("uri", "sip.URI")
			v = ptrTo(o)
		} else {
			var os []*Obj
			v, os = c.list(st, "the"+r.k.typ, "sip."+r.k.typ, n)
			o = os[at]
			for i, x := range os {
				st.setMonVal(fmt.Sprintf("$x%d", i), ptrTo(x))
			}
		}
		st.setMonVal("$o", ptrTo(o))
		r.src = c.get(st, o, r.k.field)
		ln := st.strLen(r.src)
		r.g = isym(leaf("ghost "+r.k.typ+"."+r.k.field, lenType))
		if r.ghost {
			st.setLo(r.g.S, 0)
			st.addDiff(r.g, ln, -1)
			st.setMonVal("$g", r.g)
		}
		st.setMon("B")
		return []Val{v, ptrTo(buf)}
	})
	if c.gaveUp(e, fnName(fn)) {
		return true
	}
	for _, x := range rs {
		c.count("ends", 1)
		r.open(x.st, nil, "the end")
	}
	return true
}

// bad reports; what bytes one by one lead to is judged without the ghost.
func (r *escapeRun) bad(rule, where, construct, format string, args ...any) {
	if !r.ghost || r.judging {
		r.c.fail(rule, where, construct, format, args...)
	}
}

func (r *escapeRun) pos(in ssa.Instruction) string {
	if in != nil {
		return r.c.p.pos(in.Pos())
	}
	return r.c.p.pos(r.fn.Pos())
}

func (r *escapeRun) where() string { return fnName(r.fn) + " (" + r.k.what + ")" }

func state1(st *State) byte { return st.mon.Key[0] }

func (r *escapeRun) to(st *State, b byte) {
	k := st.mon.Key
	st.setMon(string(b) + k[1:])
}

// open: nothing may be left open.
func (r *escapeRun) open(st *State, in ssa.Instruction, before string) {
	switch state1(st) {
	case 'Q', 'E', 'R', 'L':
		r.bad("closed", r.pos(in), r.where(), "a quoted string is not closed before %s", before)
	case '1', '2':
		r.bad("escape", r.pos(in), r.where(), "a percent sign is not followed by two digits before %s", before)
	}
}

func (r *escapeRun) component(cc *callCtx) {
	r.open(cc.st, cc.in, "the next component")
	r.to(cc.st, 'X')
}

func (r *escapeRun) mentions(st *State, v Val) bool {
	found := false
	valSymsDeep(v, func(x Sym) {
		if x == r.src.S {
			found = true
		}
	})
	return found
}

// part of the field a value is a byte of; its place.
func (r *escapeRun) byteOf(v Val) (Val, bool) {
	for v.S != 0 && v.N == 0 && syms[v.S].Op == "conv" {
		v = syms[v.S].Args[0]
	}
	if v.K == KInt && v.S != 0 && v.N == 0 && syms[v.S].Op == "sat" && valEq(syms[v.S].Args[0], r.src) {
		return v, true
	}
	return undef, false
}

// search splits at a search for constant bytes in the field: where nothing is found, the ghost is none
// of them.
func (r *escapeRun) search(cc *callCtx) []callRes {
	if len(cc.args) != 2 {
		return nil
	}
	name := fnName(cc.fn)
	s, p := cc.args[0], cc.args[1]
	switch {
	case strings.HasPrefix(name, "strings."):
		name = name[8:]
	case strings.HasPrefix(name, "bytes."):
		name = name[6:]
		if s = r.e.asSlice(s); s.K == KSlice {
			s = r.e.bytesToString(cc.st, s)
		}
		if p.K == KSlice {
			p = r.e.bytesToString(cc.st, p)
		}
	default:
		return nil
	}
	if !valEq(s, r.src) {
		return nil
	}
	set, found := "", undef
	switch name {
	case "Index", "LastIndex", "Contains":
		if p.isConstStr() && len(p.Str) == 1 {
			set = p.Str
		}
	case "IndexByte", "LastIndexByte", "IndexRune", "ContainsRune":
		if p.isConstInt() && p.N >= 0 && p.N < 128 {
			set = string(rune(p.N))
		}
	case "IndexAny", "LastIndexAny", "ContainsAny":
		if p.isConstStr() {
			for _, x := range p.Str {
				if x < 128 {
					set += string(x)
				}
			}
		}
	}
	if set == "" {
		return nil
	}
	yes, no := bconst(true), bconst(false)
	st, f := cc.st, cc.st.clone()
	if !strings.HasPrefix(name, "Contains") {
		found = isym(term("found in field", lenType, s, p))
		if !st.setLo(found.S, 0) || !st.addDiff(found, st.strLen(s), -1) {
			st = nil
		}
		yes, no = found, iconst(-1)
	}
	var out []callRes
	if st != nil {
		out = append(out, callRes{st, yes})
	}
	g := isym(term("sat", types.Typ[types.Uint8], r.src, r.g))
	for i := 0; i < len(set) && f != nil; i++ {
		if !f.assume(cond(token.NEQ, g, iconst(int64(set[i]))), true) {
			f = nil
		}
	}
	if f != nil {
		out = append(out, callRes{f, no})
	}
	return out
}

func (r *escapeRun) event(e *Engine, st *State, ev *Event) []*State {
	if ev.Kind != "write" || len(ev.Args) < 2 {
		return []*State{st}
	}
	r.c.count("writes", 1)
	v := ev.Args[1]
	switch ev.Name {
	case "WriteByte", "WriteRune":
		r.byte(st, ev.In, v)
		return []*State{st}
	case "WriteString":
	default:
		v = e.asSlice(v)
		if v.K != KSlice {
			r.to(st, 'T')
			return []*State{st}
		}
		if v.El[2].isConstInt() && v.El[2].N == 0 {
			return []*State{st}
		}
		v = e.bytesToString(st, v)
	}
	for _, x := range flattenCat(v) {
		switch {
		case x.isConstStr():
			for i := 0; i < len(x.Str); i++ {
				r.constant(st, ev.In, x.Str[i])
			}
		case x.K == KStr:
			r.text(st, ev.In, x)
		}
	}
	return []*State{st}
}

func (r *escapeRun) constant(st *State, in ssa.Instruction, b byte) {
	s := state1(st)
	switch s {
	case '1', '2':
		if strings.IndexByte(hexDigits, b) < 0 {
			r.open(st, in, fmt.Sprintf("%q", b))
			r.to(st, 'B')
			return
		}
		r.to(st, map[byte]byte{'1': '2', '2': 'T'}[s])
	case 'Q':
		r.to(st, map[byte]byte{'"': 'C', '\\': 'E', '\r': 'R'}[b])
		if state1(st) == 0 {
			r.to(st, 'Q')
		}
		if b == '\n' {
			r.bad("quoted string", r.pos(in), r.where(), "a line feed is written into a quoted string")
		}
	case 'E':
		if b == '\r' || b == '\n' {
			r.bad("quoted string", r.pos(in), r.where(), "a line break is written after a backslash")
		}
		r.to(st, 'Q')
	case 'R', 'L':
		r.inQuotes(st, in, s, func(x int) bool { return x == int(b) })
	default:
		switch b {
		case '"':
			if s == 'T' && r.k.quoted || s == 'C' {
				r.bad("quoted string", r.pos(in), r.where(), "a quoted string begins right after other text of the value")
			}
			r.to(st, 'Q')
		case '%':
			r.to(st, '1')
		default:
			r.to(st, 'B')
		}
	}
}

// inQuotes: what may follow within a quoted string, for the given bytes.
func (r *escapeRun) inQuotes(st *State, in ssa.Instruction, s byte, has func(int) bool) {
	bad := -1
	for x := 0; x < 256 && bad < 0; x++ {
		if !has(x) {
			continue
		}
		switch s {
		case 'Q':
			if x == '"' || x == '\\' || x == '\n' {
				bad = x
			}
		case 'E':
			if x == '\r' || x == '\n' {
				bad = x
			}
		case 'R':
			if x != '\n' {
				bad = x
			}
		case 'L':
			if x != ' ' && x != '\t' {
				bad = x
			}
		}
	}
	cr := has('\r') && s == 'Q'
	other := false
	for x := 0; x < 256; x++ {
		other = other || x != '\r' && has(x)
	}
	switch {
	case bad >= 0:
		r.bad("quoted string", r.pos(in), r.where(), "%q may be written inside a quoted string%s", byte(bad), map[byte]string{'Q': " without a backslash", 'E': " after a backslash", 'R': " after a carriage return", 'L': " right after a line break"}[s])
		r.to(st, 'Q')
	case cr && other:
		r.bad("quoted string", r.pos(in), r.where(), "a carriage return may be written inside a quoted string like any other character")
		r.to(st, 'Q')
	case cr:
		r.to(st, 'R')
	case s == 'R':
		r.to(st, 'L')
	default:
		r.to(st, 'Q')
	}
}

func (r *escapeRun) byte(st *State, in ssa.Instruction, v Val) {
	c := r.c
	if v.isConstInt() {
		if v.N >= 0 && v.N < 256 {
			r.constant(st, in, byte(v.N))
		} else {
			r.to(st, 'T')
		}
		return
	}
	s := state1(st)
	b, own := r.byteOf(v)
	switch s {
	case '1', '2':
		r.digit(st, in, s, v)
		return
	}
	if !own {
		if v.S != 0 && r.mentions(st, v) {
			// computed from the field
			f := st.fact(v.S)
			set := byteSet(f)
			r.judge(st, in, &set, v)
			return
		}
		switch s {
		case 'E', 'L', 'R', 'Q':
			r.to(st, 'Q')
		case 'C':
		default:
			r.to(st, 'T')
		}
		return
	}
	r.seen = true
	if r.ghost {
		// judged without the ghost
		switch s {
		case 'E', 'L', 'R', 'Q':
			r.to(st, 'Q')
		case 'C':
		default:
			r.to(st, 'T')
		}
		return
	}
	f := st.fact(b.S)
	set := byteSet(f)
	c.count("bytes of fields written", 1)
	r.judge(st, in, &set, v)
}

// judge: one byte out of a set is written.
func (r *escapeRun) judge(st *State, in ssa.Instruction, set *[4]uint64, v Val) {
	switch s := state1(st); s {
	case 'Q', 'E', 'R', 'L':
		r.inQuotes(st, in, s, func(x int) bool { return setHas(set, x) })
	default:
		if s == 'C' {
			r.bad("quoted string", r.pos(in), r.where(), "text follows the closed quoted string")
		}
		if x := r.outside(set); x >= 0 {
			r.bad("allowed characters", r.pos(in), r.where(), "%q may be written as it is", byte(x))
		}
		r.to(st, 'T')
	}
}

func (r *escapeRun) outside(set *[4]uint64) int {
	for x := 0; x < 256; x++ {
		if setHas(set, x) && !setHas(&r.set, x) {
			return x
		}
	}
	return -1
}

// digit: the hexadecimal digits after a percent sign are those of one byte.
func (r *escapeRun) digit(st *State, in ssa.Instruction, s byte, v Val) {
	c := r.c
	r.to(st, map[byte]byte{'1': '2', '2': 'T'}[s])
	idx, table := v, ""
	for idx.S != 0 && idx.N == 0 && syms[idx.S].Op == "conv" {
		idx = syms[idx.S].Args[0]
	}
	if idx.S != 0 && idx.N == 0 && (syms[idx.S].Op == "sat" && syms[idx.S].Args[0].isConstStr()) {
		table, idx = syms[idx.S].Args[0].Str, syms[idx.S].Args[1]
	}
	x, ok := st.smallLeaf(idx, iconst(0))
	if !ok {
		f := st.fact(v.S)
		set := byteSet(f)
		h := charSet(hexDigits)
		for i := range set {
			if set[i]&^h[i] != 0 {
				c.unsure("what is written after a percent sign at %s is not known", r.pos(in))
				return
			}
		}
		return
	}
	f := st.fact(x)
	set := byteSet(f)
	for b := 0; b < 256; b++ {
		if !setHas(&set, b) {
			continue
		}
		n, ok := evalTerm(idx, x, int64(b))
		if ok && table != "" {
			if n < 0 || n >= int64(len(table)) {
				continue
			}
			n = int64(table[n])
		}
		if !ok {
			c.unsure("what is written after a percent sign at %s is not known", r.pos(in))
			return
		}
		want := b >> 4
		if s == '2' {
			want = b & 15
		}
		if n != int64(hexDigits[want]) && (want < 10 || n != int64(hexDigits[want+6])) {
			r.bad("escape", r.pos(in), r.where(), "byte 0x%02x gets %q as one of its two digits", b, rune(n))
			return
		}
	}
	r.c.count("digits", 1)
}

// text: text is written as a whole.
func (r *escapeRun) text(st *State, in ssa.Instruction, x Val) {
	c := r.c
	s := state1(st)
	lo, hi, src := iconst(0), undef, x
	if x.S != 0 && syms[x.S].Op == "substr" && len(syms[x.S].Args) >= 3 {
		src, lo, hi = syms[x.S].Args[0], syms[x.S].Args[1], syms[x.S].Args[2]
	}
	if !valEq(src, r.src) {
		if r.mentions(st, x) && syms[x.S].Op != "init" {
			c.unsure("%s is written as %s at %s", r.k.what, render(x), r.pos(in))
		}
		r.open2(st, in, s)
		return
	}
	r.raw, r.seen = true, true
	if r.ghost {
		r.judging = true
		defer func() { r.judging = false }()
		in1 := true
		if hi.K == KInt && (st.lt(r.g, lo) || st.leq(hi, r.g)) {
			in1 = false
		}
		if in1 {
			f := st.fact(term("sat", types.Typ[types.Uint8], r.src, r.g))
			set := byteSet(f)
			c.count("whole texts", 1)
			switch s {
			case 'Q', 'E', 'R', 'L':
				r.inQuotes(st, in, 'Q', func(x int) bool { return setHas(&set, x) })
				r.to(st, 'Q')
				return
			case '1', '2':
				r.open(st, in, "the "+r.k.what)
			case 'C':
				r.bad("quoted string", r.pos(in), r.where(), "text follows the closed quoted string")
			}
			if y := r.outside(&set); y >= 0 {
				r.bad("allowed characters", r.pos(in), r.where(), "%q may be written as it is", byte(y))
			}
			r.to(st, 'T')
			return
		}
	}
	r.open2(st, in, s)
}

func (r *escapeRun) open2(st *State, in ssa.Instruction, s byte) {
	switch s {
	case 'Q', 'E', 'R', 'L':
		r.to(st, 'Q')
	case 'C':
	default:
		r.to(st, 'T')
	}
}

// onByte splits at a byte of the field: before the ghost, the ghost itself, after it.
func (r *escapeRun) onByte(e *Engine, st *State, v Val) []callRes {
	b, own := r.byteOf(v)
	if !own {
		return ret1(st, v)
	}
	idx := syms[b.S].Args[1]
	if valEq(idx, r.g) {
		return ret1(st, v)
	}
	var out []callRes
	for i := 0; i < 3; i++ {
		s := st.clone()
		switch i {
		case 0:
			if s.addDiff(idx, r.g, -1) {
				s.setMon(s.mon.Key[:1])
				out = append(out, callRes{s, v})
			}
		case 1:
			if s.addDiff(r.g, idx, -1) {
				s.setMon(s.mon.Key[:1] + "h")
				out = append(out, callRes{s, v})
			}
		case 2:
			if s.addDiff(idx, r.g, 0) && s.addDiff(r.g, idx, 0) {
				s.setMon(s.mon.Key[:1] + "g")
				out = append(out, callRes{s, isym(term("sat", types.Typ[types.Uint8], r.src, r.g))})
			}
		}
	}
	return out
}
