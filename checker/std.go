package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var tString = types.Typ[types.String]
var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tByte = types.Typ[types.Uint8]

// extType finds a type of an imported package, e.g. "net", "UDPAddr".
func (e *Engine) extType(pkg, name string) types.Type {
	for _, p := range e.p.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// knownPtr makes a non-nil pointer that is a function of its arguments.
func knownPtr(st *State, op string, t types.Type, args ...Val) Val {
	x := term(op, t, args...)
	st.updFact(x, func(f *Fact) { f.Nil = 2 })
	return psym(x)
}

func strTerm(st *State, op string, minLen int64, args ...Val) Val {
	x := term(op, tString, args...)
	if minLen > 0 {
		st.setLo(st.lenSym(x), minLen)
		st.strExclude(x, "")
	}
	return ssym(x)
}

func noEffect(e *Engine, c *callCtx) []callRes { return ret1(c.st, undef) }

func (e *Engine) installStd() {
	in := e.intrinsics
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "(*log.Logger).Printf", "(*log.Logger).Println", "time.Sleep", "runtime.Gosched", "sort.Strings"} {
		in[n] = noEffect
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "os.Exit"} {
		in[n] = func(e *Engine, c *callCtx) []callRes {
			e.oblige(c.st, c.in, "panic", false, "process exit or panic through "+c.name)
			return nil
		}
	}
	newErr := func(e *Engine, c *callCtx) []callRes {
		t := e.extType("errors", "errorString")
		if t == nil {
			return ret1(c.st, e.errVal(c.st, c.name))
		}
		o := e.alloc(c.st, c.site, c.name, t, true)
		return ret1(c.st, ifaceOf(types.NewPointer(t), ploc(Loc{o, ""})))
	}
	in["errors.New"] = newErr
	in["fmt.Errorf"] = newErr
	in["strconv.Itoa"] = func(e *Engine, c *callCtx) []callRes {
		if c.args[0].isConstInt() {
			return ret1(c.st, strc(strconv.FormatInt(c.args[0].N, 10)))
		}
		return ret1(c.st, strTerm(c.st, "itoa", 1, c.args[0]))
	}
	fmtInt := func(e *Engine, c *callCtx) []callRes {
		if c.args[1].isConstInt() && c.args[1].N == 10 {
			if c.args[0].isConstInt() {
				return ret1(c.st, strc(strconv.FormatInt(c.args[0].N, 10)))
			}
			return ret1(c.st, strTerm(c.st, "itoa", 1, c.args[0]))
		}
		return ret1(c.st, strTerm(c.st, "fmtint", 1, c.args...))
	}
	in["strconv.FormatInt"] = fmtInt
	in["strconv.FormatUint"] = fmtInt
	parse := func(signed bool) func(e *Engine, c *callCtx) []callRes {
		return func(e *Engine, c *callCtx) []callRes {
			st := c.st
			bits := int64(64)
			base := int64(10)
			t := c.sig.Results().At(0).Type()
			if len(c.args) == 3 {
				if c.args[2].isConstInt() {
					bits = c.args[2].N
				}
				if c.args[1].isConstInt() {
					base = c.args[1].N
				} else {
					base = -1
				}
			}
			x := term("atoi", t, c.args[0], iconst(bits), iconst(base), bconst(signed))
			ok := st
			f := st.clone()
			if bits > 0 && bits < 64 {
				if signed {
					ok.setLo(x, -(1 << uint(bits-1)))
					ok.setHi(x, 1<<uint(bits-1)-1)
				} else {
					ok.setLo(x, 0)
					ok.setHi(x, 1<<uint(bits)-1)
				}
			} else if !signed {
				ok.setLo(x, 0)
			}
			return []callRes{{ok, tuple(isym(x), nilVal)}, {f, tuple(isym(freshSym("bad", t)), e.errVal(f, c.name))}}
		}
	}
	in["strconv.Atoi"] = parse(true)
	in["strconv.ParseInt"] = parse(true)
	in["strconv.ParseUint"] = parse(false)

	// strings
	hasPrefix := func(e *Engine, c *callCtx) []callRes {
		st, s, p := c.st, c.args[0], c.args[1]
		if s.isConstStr() && p.isConstStr() {
			return ret1(st, bconst(strings.HasPrefix(s.Str, p.Str)))
		}
		x := bsym(term("prefix", tBool, s, p))
		if r, k := st.evalCond(x); k {
			return ret1(st, bconst(r))
		}
		f := st.clone()
		var out []callRes
		if f.assume(x, false) {
			out = append(out, callRes{f, bconst(false)})
		}
		ok := st.assume(x, true) && st.assume(cond(token.GEQ, st.strLen(s), st.strLen(p)), true)
		if ok && p.isConstStr() {
			for i := range p.Str {
				ok = ok && st.assume(cond(token.EQL, st.strAt(s, iconst(int64(i))), iconst(int64(p.Str[i]))), true)
			}
		}
		if ok {
			out = append(out, callRes{st, bconst(true)})
		}
		return out
	}
	in["strings.HasPrefix"] = hasPrefix
	in["strings.HasSuffix"] = func(e *Engine, c *callCtx) []callRes {
		st, s, p := c.st, c.args[0], c.args[1]
		x := bsym(term("suffix", tBool, s, p))
		f := st.clone()
		f.assume(x, false)
		st.assume(x, true)
		if !st.assume(cond(token.GEQ, st.strLen(s), st.strLen(p)), true) {
			return []callRes{{f, bconst(false)}}
		}
		return []callRes{{st, bconst(true)}, {f, bconst(false)}}
	}
	index := func(e *Engine, c *callCtx) []callRes {
		st, s, p := c.st, c.args[0], c.args[1]
		if s.K == KStr && p.K == KStr && s.isConstStr() && p.isConstStr() {
			switch c.name {
			case "strings.LastIndex":
				return ret1(st, iconst(int64(strings.LastIndex(s.Str, p.Str))))
			case "strings.IndexAny":
				return ret1(st, iconst(int64(strings.IndexAny(s.Str, p.Str))))
			}
			return ret1(st, iconst(int64(strings.Index(s.Str, p.Str))))
		}
		if s.isConstStr() && p.isConstInt() && p.N > 0 && p.N < 128 {
			if c.name == "strings.LastIndexByte" {
				return ret1(st, iconst(int64(strings.LastIndexByte(s.Str, byte(p.N)))))
			}
			return ret1(st, iconst(int64(strings.IndexByte(s.Str, byte(p.N)))))
		}
		x := term(c.name, tInt, s, p)
		st.setLo(x, -1)
		if s.K == KStr {
			k := int64(0)
			if p.K == KInt {
				k = 1
			} else if p.K == KStr {
				l, _ := st.rng(st.strLen(p))
				k = l
			}
			if k < 1 {
				st.addDiff(isym(x), st.strLen(s), 0)
			} else {
				// x <= len - k, or x == -1 which also satisfies it once len >= k-1
				if l, _ := st.rng(st.strLen(s)); l >= k-1 {
					st.addDiff(isym(x), st.strLen(s), -k)
				} else {
					f := st.clone()
					var out []callRes
					if f.assume(cond(token.EQL, isym(x), iconst(-1)), true) {
						out = append(out, callRes{f, iconst(-1)})
					}
					if st.setLo(x, 0) && st.addDiff(isym(x), st.strLen(s), -k) {
						out = append(out, callRes{st, isym(x)})
					}
					return out
				}
			}
		}
		return ret1(st, isym(x))
	}
	for _, n := range []string{"strings.Index", "strings.IndexByte", "strings.LastIndex", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny"} {
		in[n] = index
	}
	in["unicode/utf8.RuneCountInString"] = func(e *Engine, c *callCtx) []callRes {
		return ret1(c.st, e.runeCount(c.st, c.args[0]))
	}
	in["unicode/utf8.RuneCount"] = func(e *Engine, c *callCtx) []callRes {
		if b := e.asSlice(c.args[0]); b.K == KSlice {
			return ret1(c.st, e.runeCount(c.st, e.bytesToString(c.st, b)))
		}
		return ret1(c.st, freshVal("runes", tInt))
	}
	in["strings.Contains"] = func(e *Engine, c *callCtx) []callRes {
		return ret1(c.st, bsym(term("contains", tBool, c.args[0], c.args[1])))
	}
	in["strings.EqualFold"] = func(e *Engine, c *callCtx) []callRes {
		a, b := c.args[0], c.args[1]
		if a.isConstStr() && b.isConstStr() {
			return ret1(c.st, bconst(strings.EqualFold(a.Str, b.Str)))
		}
		if valEq(a, b) {
			return ret1(c.st, bconst(true))
		}
		if valKey(a) > valKey(b) {
			a, b = b, a
		}
		return ret1(c.st, bsym(term("fold=", tBool, a, b)))
	}
	for _, n := range []string{"strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Repeat", "strings.Replace", "strings.ReplaceAll", "encoding/hex.EncodeToString", "net.JoinHostPort", "strconv.Quote", "strconv.FormatFloat"} {
		n := n
		in[n] = func(e *Engine, c *callCtx) []callRes {
			for _, a := range c.args {
				if a.K != KStr && a.K != KInt {
					return ret1(c.st, freshVal(n, tString))
				}
			}
			return ret1(c.st, strTerm(c.st, n, 0, c.args...))
		}
	}
	split := func(e *Engine, c *callCtx) []callRes {
		v := e.result(c, c.st, "", c.sig.Results().At(0).Type())
		p := c.args[1]
		if len(c.args) == 2 && p.isConstStr() && p.Str != "" {
			c.st.setLo(v.El[2].S, 1)
			if c.args[0].K == KStr { // at most len(s)+1 pieces
				c.st.addDiff(v.El[2], c.st.strLen(c.args[0]), 1)
			}
		}
		return ret1(c.st, v)
	}
	in["strings.Split"] = split
	in["strings.SplitN"] = split
	in["strings.Fields"] = split
	// halves are the texts before and after the first separator.
	halves := func(e *Engine, c *callCtx, result func(st *State, before, after Val, found bool) Val) ([]callRes, bool) {
		s, p := c.args[0], c.args[1]
		if s.K != KStr || !p.isConstStr() || p.Str == "" {
			return nil, false
		}
		if s.isConstStr() {
			a, b, ok := strings.Cut(s.Str, p.Str)
			return ret1(c.st, result(c.st, strc(a), strc(b), ok)), true
		}
		var out []callRes
		cc := *c
		cc.name, cc.args = "strings.Index", []Val{s, p}
		for _, r := range e.intrinsics["strings.Index"](e, &cc) {
			f := r.st.clone()
			if f.assume(cond(token.LSS, r.v, iconst(0)), true) {
				out = append(out, callRes{f, result(f, s, strc(""), false)})
			}
			z := r.st.clone()
			if z.assume(cond(token.EQL, r.v, iconst(0)), true) {
				out = append(out, callRes{z, result(z, strc(""), z.substr(s, iconst(int64(len(p.Str))), z.strLen(s)), true)})
			}
			if t := r.st; t.assume(cond(token.GEQ, r.v, iconst(1)), true) {
				out = append(out, callRes{t, result(t, t.substr(s, iconst(0), r.v), t.substr(s, t.addv(r.v, iconst(int64(len(p.Str)))), t.strLen(s)), true)})
			}
		}
		return out, true
	}
	in["strings.SplitN"] = func(e *Engine, c *callCtx) []callRes {
		if len(c.args) == 3 && c.args[2].isConstInt() && c.args[2].N == 2 {
			r, ok := halves(e, c, func(st *State, a, b Val, found bool) Val {
				o := e.alloc(st, c.site+"halves", "halves", tString, false)
				st.wstate(o).cells["[0]"] = a
				n := int64(1)
				if found {
					st.wstate(o).cells["[1]"] = b
					n = 2
				}
				return mkSlice(ploc(Loc{o, ""}), iconst(0), iconst(n), iconst(n))
			})
			if ok {
				return r
			}
		}
		return split(e, c)
	}
	in["strings.Cut"] = func(e *Engine, c *callCtx) []callRes {
		if r, ok := halves(e, c, func(st *State, a, b Val, found bool) Val { return tuple(a, b, bconst(found)) }); ok {
			return r
		}
		return e.externalResult(c)
	}
	in["strings.CutPrefix"] = func(e *Engine, c *callCtx) []callRes {
		s, p := c.args[0], c.args[1]
		if s.K != KStr || p.K != KStr {
			return e.externalResult(c)
		}
		var out []callRes
		for _, r := range hasPrefix(e, c) {
			if k, _ := r.st.evalCond(r.v); k {
				out = append(out, callRes{r.st, tuple(r.st.substr(s, r.st.strLen(p), r.st.strLen(s)), bconst(true))})
			} else {
				out = append(out, callRes{r.st, tuple(s, bconst(false))})
			}
		}
		return out
	}
	trim := in["strings.TrimPrefix"]
	in["strings.TrimPrefix"] = func(e *Engine, c *callCtx) []callRes {
		s, p := c.args[0], c.args[1]
		if s.isConstStr() && p.isConstStr() {
			return ret1(c.st, strc(strings.TrimPrefix(s.Str, p.Str)))
		}
		if s.K == KStr && p.K == KStr {
			if k, known := c.st.evalCond(bsym(term("prefix", tBool, s, p))); known {
				if k {
					return ret1(c.st, c.st.substr(s, c.st.strLen(p), c.st.strLen(s)))
				}
				return ret1(c.st, s)
			}
		}
		return trim(e, c)
	}
	in["bytes.Split"] = func(e *Engine, c *callCtx) []callRes {
		v := e.result(c, c.st, "", c.sig.Results().At(0).Type())
		c.st.setLo(v.El[2].S, 1)
		return ret1(c.st, v)
	}
	in["fmt.Sprintf"] = func(e *Engine, c *callCtx) []callRes { return ret1(c.st, freshVal("sprintf", tString)) }
	in["fmt.Sprint"] = in["fmt.Sprintf"]
	in["fmt.Sprintln"] = in["fmt.Sprintf"]

	// bytes.Buffer
	for _, n := range []string{"Write", "WriteString", "WriteByte", "WriteRune"} {
		n := n
		in["(*bytes.Buffer)."+n] = func(e *Engine, c *callCtx) []callRes {
			var out []callRes
			for _, tg := range e.resolve(c.st, c.args[0], c.in, "buffer") {
				for _, s := range e.fireEvent(tg.st, &Event{Kind: "write", In: c.in, Args: c.args, Name: n}) {
					if n == "WriteByte" {
						out = append(out, callRes{s, nilVal})
					} else {
						out = append(out, callRes{s, tuple(isym(freshSym("n", lenType)), nilVal)})
					}
				}
			}
			return out
		}
	}
	in["(*bytes.Buffer).Reset"] = func(e *Engine, c *callCtx) []callRes {
		var out []callRes
		for _, tg := range e.resolve(c.st, c.args[0], c.in, "buffer") {
			for _, s := range e.fireEvent(tg.st, &Event{Kind: "reset", In: c.in, Args: c.args}) {
				out = append(out, callRes{s, undef})
			}
		}
		return out
	}
	in["(*bytes.Buffer).Bytes"] = func(e *Engine, c *callCtx) []callRes {
		var out []callRes
		for _, tg := range e.resolve(c.st, c.args[0], c.in, "buffer") {
			v := e.result(c, tg.st, "", c.sig.Results().At(0).Type())
			tg.st.wstate(v.El[0].L.O).cells["$buf"] = tg.ptr()
			out = append(out, callRes{tg.st, v})
		}
		return out
	}
	in["(*bytes.Buffer).String"] = func(e *Engine, c *callCtx) []callRes {
		if c.st.nilness(c.args[0]) == 1 {
			return ret1(c.st, strc("<nil>"))
		}
		return ret1(c.st, freshVal("buffer", tString))
	}

	// net
	udpConn := e.extType("net", "UDPConn")
	udpAddr := e.extType("net", "UDPAddr")
	if udpConn != nil {
		pc, pa := types.NewPointer(udpConn), types.NewPointer(udpAddr)
		open := func(e *Engine, c *callCtx) []callRes {
			f := c.st.clone()
			fail := callRes{f, tuple(nilVal, e.errVal(f, c.name))}
			if len(c.args) > 0 && c.args[0].isConstStr() && strings.HasPrefix(c.args[0].Str, "udp") {
				o := e.alloc(c.st, c.site, "socket", udpConn, true)
				o.Tag = "socket"
				var out []callRes
				for _, s := range e.fireEvent(c.st, &Event{Kind: "open", In: c.in, Args: append([]Val{ploc(Loc{o, ""})}, c.args...), Name: c.name}) {
					out = append(out, callRes{s, tuple(ifaceOf(pc, ploc(Loc{o, ""})), nilVal)})
				}
				for _, s := range e.fireEvent(f, &Event{Kind: "openfail", In: c.in, Name: c.name}) {
					out = append(out, callRes{s, fail.v})
				}
				return out
			}
			return []callRes{{c.st, tuple(e.result(c, c.st, "", c.sig.Results().At(0).Type()), nilVal)}, fail}
		}
		in["net.Dial"] = open
		in["net.ListenPacket"] = open
		in["net.DialTimeout"] = open
		openTyped := func(e *Engine, c *callCtx) []callRes {
			f := c.st.clone()
			o := e.alloc(c.st, c.site, "socket", udpConn, true)
			o.Tag = "socket"
			var out []callRes
			for _, s := range e.fireEvent(c.st, &Event{Kind: "open", In: c.in, Args: append([]Val{ploc(Loc{o, ""})}, c.args...), Name: c.name}) {
				out = append(out, callRes{s, tuple(ploc(Loc{o, ""}), nilVal)})
			}
			for _, s := range e.fireEvent(f, &Event{Kind: "openfail", In: c.in, Name: c.name}) {
				out = append(out, callRes{s, tuple(nilVal, e.errVal(f, c.name))})
			}
			return out
		}
		in["net.DialUDP"] = openTyped
		in["net.ListenUDP"] = openTyped
		addrOf := func(op string) func(e *Engine, c *callCtx) []callRes {
			return func(e *Engine, c *callCtx) []callRes {
				var out []callRes
				for _, tg := range e.resolve(c.st, c.args[0], c.in, "socket") {
					l := tg.ptr()
					l.L.Path = strings.TrimSuffix(l.L.Path, ".conn")
					out = append(out, callRes{tg.st, ifaceOf(pa, knownPtr(tg.st, op, pa, l))})
				}
				return out
			}
		}
		for _, r := range []string{"(*net.conn).", "(*net.UDPConn)."} {
			in[r+"LocalAddr"] = addrOf("localaddr")
			in[r+"RemoteAddr"] = addrOf("remoteaddr")
			r := r
			sockCall := func(n string, f func(e *Engine, c *callCtx) []callRes) {
				in[r+n] = func(e *Engine, c *callCtx) []callRes {
					var out []callRes
					for _, tg := range e.resolve(c.st, c.args[0], c.in, "socket") {
						cc := *c
						cc.st = tg.st
						p := tg.ptr()
						p.L.Path = strings.TrimSuffix(p.L.Path, ".conn")
						cc.args = append([]Val{p}, c.args[1:]...)
						cc.name = "(*net.UDPConn)." + n
						if i, ok := fillsBuffer[cc.name]; ok {
							e.havocBytes(cc.st, cc.args[i])
						}
						for _, s := range e.fireEvent(cc.st, &Event{Kind: "sock." + n, In: c.in, Args: cc.args, Name: n}) {
							c2 := cc
							c2.st = s
							for _, q := range f(e, &c2) {
								for _, s2 := range e.fireEvent(q.st, &Event{Kind: "sockdone." + n, In: c.in, Args: append([]Val{q.v}, cc.args...), Name: n}) {
									out = append(out, callRes{s2, q.v})
								}
							}
						}
					}
					return out
				}
			}
			std := func(e *Engine, c *callCtx) []callRes { return e.externalResult(c) }
			for _, n := range []string{"Close", "Write", "Read", "WriteTo", "WriteToUDP", "WriteMsgUDP", "ReadFrom", "ReadFromUDP", "ReadMsgUDP", "SetDeadline", "SetReadDeadline", "SetWriteDeadline"} {
				sockCall(n, std)
			}
		}
		in["(*net.UDPAddr).String"] = func(e *Engine, c *callCtx) []callRes {
			if c.st.nilness(c.args[0]) == 1 {
				return ret1(c.st, strc("<nil>"))
			}
			return ret1(c.st, strTerm(c.st, "addrstr", 1, c.args[0]))
		}
		in["(*net.UDPAddr).Network"] = func(e *Engine, c *callCtx) []callRes { return ret1(c.st, strc("udp")) }
		in["net.ResolveUDPAddr"] = func(e *Engine, c *callCtx) []callRes {
			f := c.st.clone()
			o := e.alloc(c.st, c.site, "resolved", udpAddr, true)
			e.ghost(c.st, o, "$of", c.args[1])
			return []callRes{{c.st, tuple(ploc(Loc{o, ""}), nilVal)}, {f, tuple(nilVal, e.errVal(f, c.name))}}
		}
	}
	in["(net.IP).String"] = func(e *Engine, c *callCtx) []callRes {
		a := c.args[0]
		if a.K == KSlice && a.El[0].K == KPtr && len(a.El[0].El) == 0 {
			return ret1(c.st, strTerm(c.st, "ipstr", 1, a.El[0], a.El[2]))
		}
		return ret1(c.st, freshVal("ip", tString))
	}
	in["net.ParseIP"] = func(e *Engine, c *callCtx) []callRes {
		t := c.sig.Results().At(0).Type()
		x := term("parseip", t, c.args[0])
		ln := term("parseip.len", lenType, c.args[0])
		c.st.setHi(ln, 16)
		v := mkSlice(psym(x), iconst(0), isym(ln), isym(ln))
		n := c.st.clone()
		var out []callRes
		if c.st.assumeNil(v.El[0], false) && c.st.setLo(ln, 4) {
			out = append(out, callRes{c.st, v})
		}
		if n.assumeNil(v.El[0], true) {
			out = append(out, callRes{n, nilSlice()})
		}
		return out
	}
	in["time.After"] = func(e *Engine, c *callCtx) []callRes {
		o := e.alloc(c.st, c.site, "timer", c.sig.Results().At(0).Type(), true)
		o.Tag = "timer"
		e.ghost(c.st, o, "$dur", c.args[0])
		return ret1(c.st, ploc(Loc{o, ""}))
	}
	flagVal := func(e *Engine, c *callCtx) []callRes {
		return ret1(c.st, e.resultPtr(c, c.st, "", c.sig.Results().At(0).Type()))
	}
	for _, n := range []string{"flag.Bool", "flag.Int", "flag.String", "flag.Duration", "flag.Uint"} {
		in[n] = flagVal
	}
	in["errors.Is"] = func(e *Engine, c *callCtx) []callRes {
		return ret1(c.st, bsym(freshSym("errors.Is", tBool)))
	}
	in["(error).Error"] = func(e *Engine, c *callCtx) []callRes { return ret1(c.st, freshVal("errtext", tString)) }
	in["crypto/rand.Int"] = func(e *Engine, c *callCtx) []callRes {
		f := c.st.clone()
		v := e.result(c, c.st, "", c.sig.Results().At(0).Type())
		e.ghost(c.st, v.L.O, "$max", c.args[1])
		return []callRes{{c.st, tuple(v, nilVal)}, {f, tuple(nilVal, e.errVal(f, c.name))}}
	}
	in["math/big.NewInt"] = func(e *Engine, c *callCtx) []callRes {
		v := e.result(c, c.st, "", c.sig.Results().At(0).Type())
		e.ghost(c.st, v.L.O, "$val", c.args[0])
		return ret1(c.st, v)
	}
	in["(*math/big.Int).Int64"] = func(e *Engine, c *callCtx) []callRes {
		x := freshSym("int64", types.Typ[types.Int64])
		if p, ok := c.st.ptsOf(c.args[0]); ok && len(p) == 1 && !p[0].O.Summary {
			if os := c.st.ostate(p[0].O); os != nil {
				if m, ok := os.cells["$max"]; ok {
					if q, ok := c.st.ptsOf(m); ok && len(q) == 1 {
						if ms := c.st.ostate(q[0].O); ms != nil {
							if v, ok := ms.cells["$val"]; ok {
								c.st.setLo(x, 0)
								c.st.addDiff(isym(x), v, -1)
							}
						}
					}
				}
			}
		}
		return ret1(c.st, isym(x))
	}
	for _, n := range []string{"Int63", "Int63n", "Int31", "Int31n", "Int", "Intn"} {
		n := n
		in["math/rand."+n] = func(e *Engine, c *callCtx) []callRes {
			x := freshSym("rand", c.sig.Results().At(0).Type())
			c.st.setLo(x, 0)
			if len(c.args) == 1 {
				l, _ := c.st.rng(c.args[0])
				e.oblige(c.st, c.in, "panic", l > 0, "rand."+n+" needs a positive bound")
				c.st.addDiff(isym(x), c.args[0], -1)
			}
			return ret1(c.st, isym(x))
		}
	}
}

func (e *Engine) ghost(st *State, o *Obj, k string, v Val) { st.wstate(o).cells[k] = v }

// ---- package initialisation ----

type baseState struct {
	heap    map[*Obj]*OState
	facts   map[Sym]*Fact
	globals map[*ssa.Global]*Obj
	gaveUp  string
}

// constGlobals finds package variables only written during initialisation.
func (p *Program) constGlobals() map[*ssa.Global]bool {
	r := map[*ssa.Global]bool{}
	for _, q := range p.src {
		sp := p.prog.Package(q.Types)
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				r[g] = true
			}
		}
	}
	var derives func(v ssa.Value) *ssa.Global
	derives = func(v ssa.Value) *ssa.Global {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			return derives(x.X)
		case *ssa.IndexAddr:
			return derives(x.X)
		case *ssa.Slice:
			return derives(x.X)
		case *ssa.UnOp: // through a loaded map / pointer / slice
			if x.Op == token.MUL {
				return derives(x.X)
			}
		}
		return nil
	}
	inits := p.initFuncs()
	paramWrites := map[*ssa.Function]int{} // 1 no, 2 yes
	var writesParam func(f *ssa.Function, i int, depth int) bool
	writesParam = func(f *ssa.Function, i int, depth int) bool {
		if f == nil || f.Blocks == nil || i >= len(f.Params) || depth > 5 {
			return true
		}
		_ = paramWrites
		der := map[ssa.Value]bool{f.Params[i]: true}
		for ch := true; ch; {
			ch = false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					v, ok := in.(ssa.Value)
					if !ok || der[v] {
						continue
					}
					switch x := in.(type) {
					case *ssa.FieldAddr:
						if der[x.X] {
							der[v] = true
							ch = true
						}
					case *ssa.IndexAddr:
						if der[x.X] {
							der[v] = true
							ch = true
						}
					case *ssa.Slice:
						if der[x.X] {
							der[v] = true
							ch = true
						}
					case *ssa.Phi:
						for _, e := range x.Edges {
							if der[e] {
								der[v] = true
								ch = true
							}
						}
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if der[x.Addr] || der[x.Val] {
						return true
					}
				case ssa.CallInstruction:
					for j, a := range x.Common().Args {
						if der[a] {
							g := x.Common().StaticCallee()
							if g == nil || writesParam(g, j, depth+1) {
								return true
							}
						}
					}
				case *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Return, *ssa.Send:
					for _, o := range in.Operands(nil) {
						if der[*o] {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for _, f := range p.funcs {
		if inits[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g := derives(x.Addr); g != nil {
						delete(r, g)
					}
				case *ssa.MapUpdate:
					if g := derives(x.Map); g != nil {
						delete(r, g)
					}
				case ssa.CallInstruction:
					for j, a := range x.Common().Args {
						if isAddr(a) {
							if g := derives(a); g != nil {
								if writesParam(x.Common().StaticCallee(), j, 0) {
									delete(r, g)
								}
							}
						}
					}
				}
			}
		}
	}
	return r
}

func isAddr(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
		return true
	}
	return false
}

// initFuncs are the functions only run while packages initialise.
func (p *Program) initFuncs() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			r[f] = true
		}
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.funcs {
			if r[f] || len(callers[f]) == 0 || f.Object() != nil && f.Object().Exported() {
				continue
			}
			all := true
			for _, c := range callers[f] {
				if !r[c] {
					all = false
				}
			}
			if all {
				r[f] = true
				ch = true
			}
		}
	}
	return r
}

// initBase evaluates the package initialisers once.
func (e *Engine) initBase() {
	if e.p.base == nil {
		b := &baseState{globals: map[*ssa.Global]*Obj{}}
		e.p.base = b
		i := newEngine(e.p)
		i.installStd()
		i.globals = b.globals
		i.initPhase = true
		i.unrollMax = 1
		st := newState()
		st.frames = nil
		for _, name := range []string{"util", "dsp", "sdp", "sip", "rtp", "dialog"} {
			sp := e.p.pkgs[name]
			if sp == nil {
				continue
			}
			f := sp.Func("init")
			rs := i.call(st, f, nil, nil, nil, "init:"+name)
			if i.gaveUp != "" {
				b.gaveUp = i.gaveUp
				break
			}
			if len(rs) == 0 {
				b.gaveUp = "package initialiser of " + name + " does not return"
				break
			}
			st = rs[0].st
			for _, r := range rs[1:] {
				st, _ = join(st, r.st, false)
			}
		}
		cg := e.p.constGlobals()
		b.heap = map[*Obj]*OState{}
		for o, os := range st.heap {
			if b.gaveUp != "" {
				break
			}
			os.owner = nil
			b.heap[o] = os
		}
		for g, o := range b.globals {
			o.Input = !cg[g] || b.gaveUp != ""
			if o.Input {
				delete(b.heap, o)
			}
		}
		b.facts = st.facts
		for o, os := range b.heap {
			baseHeap[o] = os
		}
		for x, f := range b.facts {
			if si := syms[x]; si.Op == "" || si.Op == "init" {
				defFacts[x] = f
			}
		}
	}
	e.globals = e.p.base.globals
}

// entryState is the state at program start: package variables initialised.
func (e *Engine) entryState() *State {
	e.initBase()
	st := newState()
	return st
}

// run analyses fn from a state with arbitrary arguments.
func (e *Engine) run(fn *ssa.Function, setup func(st *State, args []Val) []Val) []callRes {
	st := e.entryState()
	st.frames = nil
	var args []Val
	for _, p := range fn.Params {
		args = append(args, e.genericArg(st, fn.Name()+"."+p.Name(), p.Type()))
	}
	if setup != nil {
		args = setup(st, args)
	}
	for i, a := range args {
		st.setMonVal(fmt.Sprintf("$arg%d", i), a)
	}
	return e.call(st, fn, args, nil, nil, fn.Name())
}
