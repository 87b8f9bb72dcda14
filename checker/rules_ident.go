package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D12", "Each identifier generator of package util is interpreted with the operating system's random source modelled as fresh unknown bytes; the result is split into constant characters and hexadecimal digits and the number of distinct random bits in it is counted from bit provenance; every path that returns after that source failed, or without consulting it, is a violation.", checkD12)
	register("M03", "The map of standard codecs and the exported codecs are read from the abstract heap after package initialisation and compared, entry by entry, with the IANA/RFC 3551 static assignments; stores to them outside package initialisation are violations.", checkM03)
}

func isCryptoReader(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.Global:
			return x.Name() == "Reader" && x.Pkg != nil && x.Pkg.Pkg.Path() == "crypto/rand"
		}
		return false
	}
}

var cryptoLeaf = map[Sym]bool{}

// cryptoModels models the operating system's random source.
func (c *Check) cryptoModels(e *Engine) {
	fill := func(st *State, b Val) bool {
		b = e.asSlice(b)
		if b.K != KSlice || !b.El[2].isConstInt() || b.El[2].N > 256 {
			return false
		}
		pts, ok := st.ptsOf(b.El[0])
		if !ok || len(pts) != 1 {
			return false
		}
		for i := int64(0); i < b.El[2].N; i++ {
			x := leaf("random", tByte)
			cryptoLeaf[x] = true
			st.storeElem(pts[0], st.addv(b.El[1], iconst(i)), "", isym(x), tByte)
		}
		st.setMon(st.mon.Key + "r")
		return true
	}
	failing := func(c *callCtx, ok []callRes) []callRes {
		f := c.st.clone()
		f.setMon(f.mon.Key + "F")
		return append(ok, callRes{f, tuple(iconst(0), e.errVal(f, "random source"))})
	}
	e.intrinsics["crypto/rand.Read"] = func(e *Engine, cc *callCtx) []callRes {
		if !fill(cc.st, cc.args[0]) {
			e.havocBytes(cc.st, cc.args[0])
			cc.st.setMon(cc.st.mon.Key + "?")
		}
		b := e.asSlice(cc.args[0])
		n := Val(isym(freshSym("n", lenType)))
		if b.K == KSlice {
			n = b.El[2]
		}
		return ret1(cc.st, tuple(n, nilVal)) // never fails: a failing source ends the process (Go 1.24 and later)
	}
	reader := func(bi int) func(e *Engine, cc *callCtx) []callRes {
		return func(e *Engine, cc *callCtx) []callRes {
			call, _ := cc.in.(ssa.CallInstruction)
			var src ssa.Value
			if call != nil {
				if call.Common().IsInvoke() {
					src = call.Common().Value
				} else if len(call.Common().Args) > 0 {
					src = call.Common().Args[0]
				}
			}
			if src == nil || !isCryptoReader(src) {
				return e.externalResult(cc)
			}
			bad := failing(cc, nil)
			if !fill(cc.st, cc.args[bi]) {
				cc.st.setMon(cc.st.mon.Key + "?")
			}
			return append([]callRes{{cc.st, tuple(e.asSlice(cc.args[bi]).El[2], nilVal)}}, bad...)
		}
	}
	e.intrinsics["io.ReadFull"] = reader(1)
	e.intrinsics["(io.Reader).Read"] = reader(1)
	ri := e.intrinsics["crypto/rand.Int"]
	e.intrinsics["crypto/rand.Int"] = func(e *Engine, cc *callCtx) []callRes {
		call, _ := cc.in.(ssa.CallInstruction)
		crypt := call != nil && len(call.Common().Args) > 0 && isCryptoReader(call.Common().Args[0])
		var out []callRes
		for _, r := range ri(e, cc) {
			if r.st.nilness(r.v.El[1]) == 2 {
				r.st.setMon(r.st.mon.Key + "F")
			} else if crypt {
				r.st.setMon(r.st.mon.Key + "r")
				e.ghost(r.st, r.v.El[0].L.O, "$crypto", bconst(true))
			}
			out = append(out, r)
		}
		return out
	}
	i64 := e.intrinsics["(*math/big.Int).Int64"]
	isCrypto := func(st *State, v Val) bool {
		if p, ok := st.ptsOf(v); ok && len(p) == 1 {
			if os := st.ostate(p[0].O); os != nil {
				return os.cells["$crypto"].K == KBool
			}
		}
		return false
	}
	for _, n := range []string{"Int64", "Uint64"} {
		e.intrinsics["(*math/big.Int)."+n] = func(e *Engine, cc *callCtx) []callRes {
			rs := i64(e, cc)
			for _, r := range rs {
				if isCrypto(r.st, cc.args[0]) {
					cryptoLeaf[r.v.S] = true
				}
			}
			return rs
		}
	}
	str := func(e *Engine, cc *callCtx) []callRes {
		x := freshSym("bigtext", tString)
		if isCrypto(cc.st, cc.args[0]) {
			cryptoLeaf[x] = true
		}
		return ret1(cc.st, ssym(x))
	}
	e.intrinsics["(*math/big.Int).String"] = str
	e.intrinsics["(*math/big.Int).Text"] = str
	e.intrinsics["encoding/hex.EncodeToString"] = func(e *Engine, cc *callCtx) []callRes {
		st, b := cc.st, e.asSlice(cc.args[0])
		if b.K == KSlice && b.El[2].isConstInt() && b.El[2].N <= 64 {
			if pts, ok := st.ptsOf(b.El[0]); ok && len(pts) == 1 {
				var a []Val
				for i := int64(0); i < b.El[2].N; i++ {
					a = append(a, st.loadElem(pts[0], st.addv(b.El[1], iconst(i)), "", tByte))
				}
				x := term("hex", tString, a...)
				st.setLo(st.lenSym(x), 2*b.El[2].N)
				st.setHi(st.lenSym(x), 2*b.El[2].N)
				return ret1(st, ssym(x))
			}
		}
		return ret1(st, freshVal("hex", tString))
	}
}

type char struct {
	c  byte
	v  Val // byte whose nibble this is
	hi bool
}

// chars spells a string value out; ok is false where it is not resolved.
func chars(v Val) (r []char, ok bool) {
	if v.K != KStr {
		return nil, false
	}
	if v.S == 0 {
		for i := 0; i < len(v.Str); i++ {
			r = append(r, char{c: v.Str[i]})
		}
		return r, true
	}
	si := syms[v.S]
	switch si.Op {
	case "cat":
		for _, a := range si.Args {
			q, ok := chars(a)
			if !ok {
				return nil, false
			}
			r = append(r, q...)
		}
		return r, true
	case "hex":
		for _, a := range si.Args {
			r = append(r, char{v: a, hi: true}, char{v: a})
		}
		return r, true
	case "substr":
		q, ok := chars(si.Args[0])
		if !ok || !si.Args[1].isConstInt() {
			return nil, false
		}
		lo, hi := si.Args[1], si.Args[2]
		h := int64(len(q))
		if hi.isConstInt() {
			h = hi.N
		} else if hi.S == 0 || syms[hi.S].Op != "len" {
			return nil, false
		}
		if lo.N < 0 || lo.N > h || h > int64(len(q)) {
			return nil, false
		}
		return q[lo.N:h], true
	}
	return nil, false
}

func checkD12(c *Check) {
	c.rules = append(c.rules, "source", "failure", "entropy", "shape", "range")
	type gen struct {
		name string
		bits int
		// template: 'x' hex digit, others literal
		shape string
	}
	for _, g := range []gen{{"util.GenerateTag", 48, ""}, {"util.GenerateBranch", 48, "z9hG4bK*"}, {"util.GenerateCallID", 120, "xxxxxxxx-xxxx-4xxx-yxxx-xxxxxxxxxxxx"}} {
		fn := c.fn(g.name)
		if fn == nil {
			continue
		}
		c.analysed(fn)
		e := c.engine()
		c.cryptoModels(e)
		rs := e.run(fn, nil)
		pos := c.p.pos(fn.Pos())
		if e.gaveUp != "" {
			c.unsure("%s: %s", g.name, e.gaveUp)
			continue
		}
		for _, r := range rs {
			c.count("exits", 1)
			if strings.Contains(r.st.mon.Key, "F") {
				c.fail("failure", pos, g.name+" continues after failure", "%s returns a value although the random source failed", g.name)
				continue
			}
			if !strings.ContainsAny(r.st.mon.Key, "r?") {
				c.fail("source", pos, g.name+" source", "%s can return without asking the operating system's random source", g.name)
				continue
			}
			cs, ok := chars(r.v)
			if !ok {
				c.unsure("%s: result not resolved: %s", g.name, render(r.v))
				continue
			}
			got := map[bit]bool{}
			var txt strings.Builder
			unk := false
			for _, ch := range cs {
				if ch.v.K == KUndef {
					txt.WriteByte(ch.c)
					continue
				}
				b := r.st.bits(ch.v, 8)
				nib := b[:4]
				if ch.hi {
					nib = b[4:]
				}
				k, val := true, 0
				for i, x := range nib {
					switch x.k {
					case 'b':
						k = false
						if cryptoLeaf[x.s] {
							got[x] = true
						}
					case '?':
						k = false
						unk = true
					case '1':
						val |= 1 << i
					}
				}
				if k {
					fmt.Fprintf(&txt, "%x", val)
				} else if nib[3].k == '1' && nib[2].k == '0' {
					txt.WriteByte('y')
				} else {
					txt.WriteByte('x')
				}
			}
			s := txt.String()
			c.sample("%s -> %s with %d random bits", g.name, s, len(got))
			c.count("random_bits", len(got))
			if len(got) < g.bits {
				if unk {
					c.unsure("%s: only %d random bits resolved in %s", g.name, len(got), s)
				} else {
					c.fail("entropy", pos, g.name+" entropy", "%s carries %d random bits (%s), must be at least %d", g.name, len(got), s, g.bits)
				}
			}
			if !unk && !shapeOK(s, g.shape) {
				c.fail("shape", pos, g.name+" shape", "%s produces %q, must be %q", g.name, s, g.shape)
			}
		}
		if len(rs) == 0 {
			c.gaveUp(e, g.name)
			if e.gaveUp == "" {
				c.fail("source", pos, g.name+" never returns", "%s never returns a value", g.name)
			}
		}
	}
	for _, n := range []string{"util.GenerateCSeq", "util.GenerateOriginID"} {
		fn := c.fn(n)
		if fn == nil {
			continue
		}
		c.analysed(fn)
		e := c.engine()
		c.cryptoModels(e)
		rs := e.run(fn, nil)
		pos := c.p.pos(fn.Pos())
		for _, r := range rs {
			c.count("exits", 1)
			if strings.Contains(r.st.mon.Key, "F") {
				c.fail("failure", pos, n+" continues after failure", "%s returns a value although the random source failed", n)
				continue
			}
			if !strings.ContainsAny(r.st.mon.Key, "r?") {
				c.fail("source", pos, n+" source", "%s can return without asking the operating system's random source", n)
				continue
			}
			dep := false
			valSymsDeep(r.v, func(x Sym) { dep = dep || cryptoLeaf[x] })
			if !dep {
				if r.v.K == KInt && r.v.S == 0 || r.v.isConstStr() {
					c.fail("source", pos, n+" source", "%s returns the constant %s", n, render(r.v))
				} else {
					c.unsure("%s: origin of the result not resolved: %s", n, render(r.v))
				}
			}
			if n == "util.GenerateCSeq" {
				lo, hi := r.st.rng(r.v)
				c.sample("%s in [%d,%d]", n, lo, hi)
				if lo < 0 || hi > 49999 {
					c.fail("range", pos, n+" range", "sequence numbers between %d and %d, must be within 0..49999", lo, hi)
				}
			}
		}
	}
}

// valSymsDeep visits every symbol a value depends on.
func valSymsDeep(v Val, f func(Sym)) {
	seen := map[Sym]bool{}
	var walk func(v Val)
	walk = func(v Val) {
		if v.S != 0 && !seen[v.S] {
			seen[v.S] = true
			f(v.S)
			for _, a := range syms[v.S].Args {
				walk(a)
			}
		}
		for _, a := range v.El {
			walk(a)
		}
	}
	walk(v)
}

func shapeOK(s, shape string) bool {
	if shape == "" {
		return len(s) > 0
	}
	if strings.HasSuffix(shape, "*") {
		return strings.HasPrefix(s, shape[:len(shape)-1]) && len(s) > len(shape)-1
	}
	if len(s) != len(shape) {
		return false
	}
	for i := range shape {
		switch shape[i] {
		case 'x':
			if !strings.ContainsRune("xy0123456789abcdef", rune(s[i])) {
				return false
			}
		case 'y':
			if !strings.ContainsRune("y89ab", rune(s[i])) {
				return false
			}
		default:
			if s[i] != shape[i] {
				return false
			}
		}
	}
	return true
}

type ptInfo struct {
	name string
	rate int64
	ch   string
}

var rfc3551 = map[int64]ptInfo{0: {"PCMU", 8000, "1"}, 3: {"GSM", 8000, "1"}, 4: {"G723", 8000, "1"}, 5: {"DVI4", 8000, "1"}, 6: {"DVI4", 16000, "1"},
	7: {"LPC", 8000, "1"}, 8: {"PCMA", 8000, "1"}, 9: {"G722", 8000, "1"}, 10: {"L16", 44100, "2"}, 11: {"L16", 44100, "1"}, 12: {"QCELP", 8000, "1"},
	13: {"CN", 8000, "1"}, 14: {"MPA", 90000, ""}, 15: {"G728", 8000, "1"}, 16: {"DVI4", 11025, "1"}, 17: {"DVI4", 22050, "1"}, 18: {"G729", 8000, "1"},
	25: {"CelB", 90000, ""}, 26: {"JPEG", 90000, ""}, 28: {"nv", 90000, ""}, 31: {"H261", 90000, ""}, 32: {"MPV", 90000, ""}, 33: {"MP2T", 90000, ""}, 34: {"H263", 90000, ""}}

func checkM03(c *Check) {
	c.rules = append(c.rules, "key", "static", "registry", "exported", "frozen")
	g := c.p.global("sdp.StandardCodecs")
	if g == nil {
		c.unsure("no StandardCodecs table")
		return
	}
	e := c.engine()
	st := e.entryState()
	pos := c.p.pos(g.Pos())
	o := e.globalObj(g)
	mt := g.Type().(*types.Pointer).Elem()
	m := st.load(Loc{o, ""}, mt)
	c.analysed(g.Pkg.Func("init"))
	if m.K != KPtr || m.S != 0 || !c.p.constGlobals()[g] {
		// modified outside initialisation?
		for _, f := range c.p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok && f.Name() != "init" {
						if u, ok := mu.Map.(*ssa.UnOp); ok && u.X == g {
							c.fail("frozen", pos2(c, in), fnName(f)+" changes StandardCodecs", "%s changes the table of standard codecs at run time", fnName(f))
						}
					}
					if s, ok := in.(*ssa.Store); ok && s.Addr == g && f.Name() != "init" {
						c.fail("frozen", pos2(c, in), fnName(f)+" changes StandardCodecs", "%s replaces the table of standard codecs at run time", fnName(f))
					}
				}
			}
		}
		if m.K != KPtr || m.S != 0 {
			c.unsure("table not resolved: %s", render(m))
			return
		}
	}
	os := st.ostate(m.L.O)
	if os == nil || os.cells["$dyn"].K != KUndef {
		c.unsure("table contents not resolved")
		return
	}
	str := func(l Loc) (string, bool) {
		v := st.load(l, tString)
		return v.Str, v.isConstStr()
	}
	num := func(l Loc, t types.Type) (int64, bool) {
		v := st.load(l, t)
		return v.N, v.isConstInt()
	}
	codec := func(what string, base Loc) (pt int64, name string, rate int64, param string, ok bool) {
		var k [4]bool
		pt, k[0] = num(Loc{base.O, base.Path + ".PT"}, tByte)
		name, k[1] = str(Loc{base.O, base.Path + ".Name"})
		rate, k[2] = num(Loc{base.O, base.Path + ".Rate"}, tInt)
		param, k[3] = str(Loc{base.O, base.Path + ".Param"})
		ok = k[0] && k[1] && k[2] && k[3]
		if !ok {
			c.unsure("%s not resolved", what)
		}
		return
	}
	n := 0
	for _, k := range sortedKeys(os.cells) {
		if !strings.HasPrefix(k, "$key") {
			continue
		}
		num, err := strconv.Atoi(strings.Trim(k, "$key{}"))
		if err != nil {
			c.unsure("key %s not resolved", k)
			continue
		}
		kn := int64(num)
		n++
		what := fmt.Sprintf("StandardCodecs[%d]", kn)
		pt, name, rate, param, ok := codec(what, Loc{m.L.O, fmt.Sprintf("{%d}", kn)})
		if !ok {
			continue
		}
		c.count("table_entries", 1)
		c.sample("%s = %d %s/%d/%s", what, pt, name, rate, param)
		if pt != kn {
			c.fail("key", pos, what+" payload type", "%s has payload type %d", what, pt)
		}
		if kn >= 96 {
			c.fail("static", pos, what+" is dynamic", "%s is not a static payload type", what)
		}
		if name == "" || rate <= 0 {
			c.fail("static", pos, what+" incomplete", "%s has name %q and rate %d", what, name, rate)
		}
		w, ok := rfc3551[kn]
		if !ok {
			c.fail("registry", pos, what+" unassigned", "payload type %d has no static assignment", kn)
			continue
		}
		if !strings.EqualFold(w.name, name) || w.rate != rate {
			c.fail("registry", pos, what+" registry", "%s is %s/%d, registered as %s/%d", what, name, rate, w.name, w.rate)
		}
		if param == "" {
			param = "1"
		}
		if w.ch != "" && w.ch != param {
			c.fail("registry", pos, what+" channels", "%s has %s channels, registered with %s", what, param, w.ch)
		}
	}
	if n == 0 {
		c.unsure("no entries found in the table: %v", sortedKeys(os.cells))
	}
	for _, x := range []struct {
		g    string
		pt   int64
		name string
		rate int64
	}{{"sdp.ULAWCodec", 0, "PCMU", 8000}, {"sdp.DTMFCodec", 101, "telephone-event", 8000}, {"sdp.Opus", 111, "opus", 48000}} {
		gl := c.p.global(x.g)
		if gl == nil {
			c.unsure("no %s", x.g)
			continue
		}
		pt, name, rate, _, ok := codec(x.g, Loc{e.globalObj(gl), ""})
		if ok && (pt != x.pt || !strings.EqualFold(name, x.name) || rate != x.rate) {
			c.fail("exported", c.p.pos(gl.Pos()), x.g, "%s is %d %s/%d, must be %d %s/%d", x.g, pt, name, rate, x.pt, x.name, x.rate)
		}
		c.count("table_entries", 1)
	}
}
