package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ret1(st *State, v Val) []callRes { return []callRes{{st, v}} }

// resultPtr makes an object for a pointer-like result of an unmodelled call.
func (e *Engine) resultPtr(c *callCtx, st *State, tag string, t types.Type) Val {
	et := elemOf(t)
	input := true
	switch u := t.Underlying().(type) {
	case *types.Chan, *types.Map:
		et = t
		_ = u
	}
	name := c.name
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		name = name[i+1:]
	}
	o := e.alloc(st, c.site+tag, name, et, input)
	return ploc(Loc{o, ""})
}

// result makes an unknown value of a call result; pointers are non-nil.
func (e *Engine) result(c *callCtx, st *State, tag string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Map:
		return e.resultPtr(c, st, tag, t)
	case *types.Slice:
		o := e.alloc(st, c.site+tag, c.name, u.Elem(), true)
		ln := freshSym("len", lenType)
		cp := freshSym("cap", lenType)
		st.addDiff(isym(ln), isym(cp), 0)
		return mkSlice(ploc(Loc{o, ""}), iconst(0), isym(ln), isym(cp))
	case *types.Struct:
		v := Val{K: KStruct, T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.El = append(v.El, e.result(c, st, fmt.Sprintf("%s.%d", tag, i), u.Field(i).Type()))
		}
		return v
	case *types.Interface:
		x := freshSym(c.name, t)
		st.updFact(x, func(f *Fact) { f.Nil = 2 })
		return Val{K: KIface, S: x}
	case *types.Signature:
		x := freshSym(c.name, t)
		st.updFact(x, func(f *Fact) { f.Nil = 2 })
		return Val{K: KFunc, S: x}
	}
	return freshVal(c.name, t)
}

// errVal is a non-nil error of unknown type.
func (e *Engine) errVal(st *State, name string) Val {
	x := freshSym("err:"+name, types.Universe.Lookup("error").Type())
	st.updFact(x, func(f *Fact) { f.Nil = 2 })
	return Val{K: KIface, S: x}
}

// mayReturnNil lists external functions whose single result may be nil.
var mayReturnNil = map[string]bool{
	"net.ParseIP": true, "errors.Unwrap": true, "flag.Lookup": true, "(net.IP).To4": true, "(net.IP).To16": true,
}

// fillsBuffer lists external functions that overwrite a byte slice argument.
var fillsBuffer = map[string]int{
	"(*net.UDPConn).ReadFromUDP": 1, "(*net.UDPConn).ReadFrom": 1, "(*net.conn).Read": 1, "(*net.UDPConn).Read": 1,
	"crypto/rand.Read": 0, "math/rand.Read": 0, "io.ReadFull": 1,
	"(*net.UDPConn).ReadMsgUDP": 1, "(*net.UDPConn).ReadFromUDPAddrPort": 1,
}

// externalCtx is the default model of a function without a body here.
func (e *Engine) externalCtx(c *callCtx) []callRes {
	st := c.st
	if i, ok := fillsBuffer[c.name]; ok && i < len(c.args) {
		e.havocBytes(st, c.args[i])
	}
	if e.onEvent != nil {
		sts := e.fireEvent(st, &Event{Kind: "call:" + c.name, In: c.in, Args: c.args, Name: c.name})
		var out []callRes
		for _, s := range sts {
			cc := *c
			cc.st = s
			out = append(out, e.externalResult(&cc)...)
		}
		return out
	}
	return e.externalResult(c)
}

func (e *Engine) externalResult(c *callCtx) []callRes {
	st := c.st
	res := c.sig.Results()
	switch res.Len() {
	case 0:
		return ret1(st, undef)
	case 1:
		t := res.At(0).Type()
		if isErrorType(t) {
			f := st.clone()
			return []callRes{{st, nilVal}, {f, e.errVal(f, c.name)}}
		}
		if mayReturnNil[c.name] {
			n := st.clone()
			return []callRes{{st, e.result(c, st, "", t)}, {n, zeroVal(t)}}
		}
		v := e.result(c, st, "", t)
		e.readLen(c, st, v, t)
		return ret1(st, v)
	}
	last := res.At(res.Len() - 1).Type()
	build := func(s *State, fail bool) callRes {
		v := Val{K: KTuple}
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			switch {
			case i == res.Len()-1 && isErrorType(t):
				if fail {
					v.El = append(v.El, e.errVal(s, c.name))
				} else {
					v.El = append(v.El, nilVal)
				}
			case fail && isNilable(zeroVal(t)):
				v.El = append(v.El, zeroVal(t))
			default:
				r := e.result(c, s, fmt.Sprintf("#%d", i), t)
				e.readLen(c, s, r, t)
				v.El = append(v.El, r)
			}
		}
		return callRes{s, v}
	}
	if isErrorType(last) {
		f := st.clone()
		return []callRes{build(st, false), build(f, true)}
	}
	return []callRes{build(st, false)}
}

// readLen: counts returned by readers are within the buffer.
func (e *Engine) readLen(c *callCtx, st *State, v Val, t types.Type) {
	i, ok := fillsBuffer[c.name]
	if !ok || !isInt(t) || i >= len(c.args) {
		return
	}
	b := e.asSlice(c.args[i])
	if b.K == KSlice {
		st.assume(cond(token.GEQ, v, iconst(0)), true)
		st.assume(cond(token.LEQ, v, b.El[2]), true)
	}
}

// havocBytes forgets the elements of a slice.
func (e *Engine) havocBytes(st *State, v Val) {
	v = e.asSlice(v)
	if v.K != KSlice {
		return
	}
	pts, ok := st.ptsOf(v.El[0])
	if !ok {
		if v.El[0].K != KPtr || v.El[0].S == 0 {
			return
		}
		pts = []Loc{{objOfSym(v.El[0].S), ""}}
	}
	for _, l := range pts {
		os := st.wstate(l.O)
		for k := range os.cells {
			if strings.HasPrefix(k, l.Path+"[") || k == "$str" {
				delete(os.cells, k)
			}
		}
		if l.O.Input && l.Path == "" {
			os.ver++
		} else {
			et := l.O.Type
			if l.Path != "" {
				et = typeAt(l.O.Type, l.Path)
				if et != nil {
					et = elemOf(et)
				}
			} else if ar, ok := et.Underlying().(*types.Array); ok {
				et = ar.Elem()
			}
			if et == nil {
				et = types.Typ[types.Uint8]
			}
			os.cells[l.Path+"[*]"] = freshVal("read", et)
		}
	}
}

// weakFill records that elements of an array may have been replaced by v.
func (e *Engine) weakFill(st *State, l Loc, v Val, t types.Type) {
	if ss, ok := t.Underlying().(*types.Struct); ok && v.K == KStruct {
		for i := 0; i < ss.NumFields(); i++ {
			e.weakFillT(st, l, "."+ss.Field(i).Name(), v.El[i], ss.Field(i).Type())
		}
		return
	}
	if ar, ok := t.Underlying().(*types.Array); ok && v.K == KStruct {
		for i := int64(0); i < ar.Len(); i++ {
			e.weakFillT(st, l, fmt.Sprintf("[%d]", i), v.El[i], ar.Elem())
		}
		return
	}
	e.weakFillT(st, l, "", v, t)
}

func (e *Engine) weakFillT(st *State, l Loc, trail string, v Val, t types.Type) {
	idx := isym(freshSym("i", lenType))
	if e.fillAt.K == KInt {
		// a range copy: the element written lies in the destination range
		if lo, _ := st.rng(e.fillAt); lo > math.MinInt64 {
			st.setLo(idx.S, lo)
		}
		if _, hi := st.rng(e.fillAt); hi < math.MaxInt64 {
			st.setHi(idx.S, hi)
		}
	}
	st.storeElem(l, idx, trail, v, t)
	k := l.Path + "[@" + valKey(idx) + "]" + trail
	if os := st.ostate(l.O); os != nil {
		if _, ok := os.cells[k]; ok {
			st.foldFocus(l.O, k)
		}
	}
}

// copyElems copies n elements between slices.
func (e *Engine) copyElems(st *State, dst Val, dstOff Val, src Val, n Val, t types.Type) {
	targets := func(b Val) []Loc {
		if b.K != KPtr {
			return nil
		}
		if len(b.El) > 0 {
			return nil
		}
		if pts, ok := st.ptsOf(b); ok {
			return pts
		}
		return []Loc{{objOfSym(b.S), ""}}
	}
	dl := targets(dst)
	get := func(i Val) Val {
		if src.K == KStr {
			return st.strAt(src, i)
		}
		sl := targets(src.El[0])
		if len(sl) == 0 {
			return freshVal("elem", t)
		}
		idx := st.addv(src.El[1], i)
		v := st.loadElem(sl[0], idx, "", t)
		for _, l := range sl[1:] {
			v = st.weakJoin(v, st.loadElem(l, idx, "", t), t)
		}
		return v
	}
	if n.isConstInt() && n.N <= 64 {
		vals := make([]Val, n.N)
		for i := range vals {
			vals[i] = get(iconst(int64(i)))
		}
		for i, v := range vals {
			idx := st.addv(dstOff, iconst(int64(i)))
			if len(dl) == 1 && !dl[0].O.Summary {
				st.storeElem(dl[0], idx, "", v, t)
			} else {
				for _, l := range dl {
					e.weakFill(st, l, v, t)
				}
			}
		}
		return
	}
	k := isym(freshSym("k", lenType))
	st.setLo(k.S, 0)
	if _, hi := st.rng(n); hi < math.MaxInt64 {
		if hi <= 0 {
			return
		}
		st.setHi(k.S, hi-1)
	}
	v := get(k)
	for _, l := range dl {
		e.fillAt = st.addv(dstOff, k)
		e.weakFill(st, l, st.instantiate(v, t), t)
		e.fillAt = Val{}
	}
}

func (e *Engine) builtin(st *State, in ssa.Instruction, name string, args []Val, c *ssa.CallCommon) []callRes {
	switch name {
	case "len", "cap":
		v := args[0]
		t := c.Args[0].Type()
		switch v.K {
		case KStr:
			return ret1(st, st.strLen(v))
		case KSlice:
			if name == "cap" {
				return ret1(st, v.El[3])
			}
			return ret1(st, v.El[2])
		case KNil:
			return ret1(st, iconst(0))
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if ar, ok := t.Underlying().(*types.Array); ok {
			return ret1(st, iconst(ar.Len()))
		}
		return ret1(st, isym(freshSym("len", lenType)))
	case "append":
		return e.appendModel(st, in, args, c)
	case "copy":
		dst, src := e.asSlice(args[0]), args[1]
		if dst.K != KSlice {
			return ret1(st, isym(freshSym("n", lenType)))
		}
		var sl Val
		if src.K == KStr {
			sl = st.strLen(src)
		} else {
			src = e.asSlice(src)
			if src.K != KSlice {
				return ret1(st, isym(freshSym("n", lenType)))
			}
			sl = src.El[2]
		}
		dl := dst.El[2]
		var n Val
		switch {
		case st.leq(sl, dl):
			n = sl
		case st.leq(dl, sl):
			n = dl
		default:
			x := freshSym("n", lenType)
			n = isym(x)
			st.addDiff(n, sl, 0)
			st.addDiff(n, dl, 0)
		}
		if st.nilness(dst) != 1 {
			e.copyElems(st, dst.El[0], dst.El[1], src, n, elemOf(c.Args[0].Type()))
		}
		if e.onCopy != nil {
			e.onCopy(st, in, dst, src, n)
		}
		return ret1(st, n)
	case "close":
		ch := args[0]
		e.oblige(st, in, "close", st.nilness(ch) == 2, "close of possibly nil channel")
		var out []callRes
		for _, s := range e.fireEvent(st, &Event{Kind: "close", In: in, Args: args}) {
			out = append(out, callRes{s, undef})
		}
		return out
	case "min", "max":
		if len(args) == 2 && args[0].K == KInt && args[1].K == KInt {
			a, b := args[0], args[1]
			if name == "max" {
				a, b = b, a
			}
			if st.leq(a, b) {
				return ret1(st, args[0])
			}
			if st.lt(b, a) {
				return ret1(st, args[1])
			}
			s2 := st.clone()
			var out []callRes
			if st.assume(cond(token.LEQ, args[0], args[1]), true) {
				if name == "min" {
					out = append(out, callRes{st, args[0]})
				} else {
					out = append(out, callRes{st, args[1]})
				}
			}
			if s2.assume(cond(token.GTR, args[0], args[1]), true) {
				if name == "min" {
					out = append(out, callRes{s2, args[1]})
				} else {
					out = append(out, callRes{s2, args[0]})
				}
			}
			return out
		}
	case "ssa:wrapnilchk":
		if st.nilness(args[0]) != 2 {
			e.oblige(st, in, "nil", false, "method value through nil pointer")
			st.assumeNil(args[0], false)
		}
		return ret1(st, args[0])
	case "recover":
		return ret1(st, nilVal)
	case "delete":
		for _, tg := range e.resolve(st, args[0], in, "delete") {
			tg.st.wstate(tg.l.O).cells["$dyn"+tg.l.Path] = bconst(true)
		}
		return ret1(st, undef)
	case "print", "println":
		return ret1(st, undef)
	}
	if sig, ok := c.Value.Type().(*types.Signature); ok && sig.Results().Len() == 1 {
		return ret1(st, freshVal(name, sig.Results().At(0).Type()))
	}
	return ret1(st, undef)
}

func (e *Engine) appendModel(st *State, in ssa.Instruction, args []Val, c *ssa.CallCommon) []callRes {
	t := elemOf(c.Args[0].Type())
	a := e.asSlice(args[0])
	if len(args) < 2 {
		return ret1(st, a)
	}
	b := args[1]
	var bl Val
	if b.K == KStr {
		bl = st.strLen(b)
	} else {
		b = e.asSlice(b)
		if b.K != KSlice {
			return ret1(st, freshVal("append", c.Args[0].Type()))
		}
		bl = b.El[2]
	}
	if a.K != KSlice {
		return ret1(st, freshVal("append", c.Args[0].Type()))
	}
	if bl.isConstInt() && bl.N == 0 {
		return ret1(st, a)
	}
	nl := st.addv(a.El[2], bl)
	var out []callRes
	inPlace := st
	fits, known := st.evalCond(cond(token.LEQ, nl, a.El[3]))
	if st.nilness(a) == 1 {
		fits, known = false, true
	}
	if !known {
		inPlace = st.clone()
	}
	if !known || fits {
		s := inPlace
		if s.assume(cond(token.LEQ, nl, a.El[3]), true) && (s.nilness(a) == 2 || s.assumeNil(a.El[0], false)) {
			if e.onAppend != nil {
				e.onAppend(s, in, a, b, true)
			}
			e.copyElems(s, a.El[0], s.addv(a.El[1], a.El[2]), b, bl, t)
			out = append(out, callRes{s, mkSlice(a.El[0], a.El[1], nl, a.El[3])})
		}
	}
	if !known || !fits {
		s := st
		if known || s.assume(cond(token.GTR, nl, a.El[3]), true) {
			if e.onAppend != nil {
				e.onAppend(s, in, a, b, false)
			}
			o := e.alloc(s, e.site(s, in, "append"), "append", t, false)
			o.Pos = in.Pos()
			base := ploc(Loc{o, ""})
			if s.nilness(a) != 1 {
				e.copyElems(s, base, iconst(0), a, a.El[2], t)
			}
			e.copyElems(s, base, a.El[2], b, bl, t)
			cp := freshSym("cap", lenType)
			s.addDiff(nl, isym(cp), 0)
			out = append(out, callRes{s, mkSlice(base, iconst(0), nl, isym(cp))})
		}
	}
	return out
}

// ---- recursion ----

// recCall handles calls of functions that may call themselves: the outermost
// activation is analysed in place, inner ones through a summary computed from
// the most general entry.
func (e *Engine) recCall(c *callCtx) []callRes {
	st := c.st
	on := false
	for _, f := range st.frames {
		if f.fn == c.fn {
			on = true
		}
	}
	if e.concrete && len(st.frames) < 30 {
		on = false
	}
	if !on && !e.genericOnly {
		return e.call(st, c.fn, c.args, c.bound, c.in, c.site)
	}
	var sb strings.Builder
	sb.WriteString(c.name)
	sb.WriteByte('@')
	sb.WriteString(st.mon.Key)
	for i, a := range c.args {
		if isNilable(a) {
			fmt.Fprintf(&sb, "|%d:%d", i, st.nilness(a))
		}
	}
	key := sb.String()
	s := e.rec[key]
	if s == nil {
		s = &recSum{exits: map[string]recExit{}}
		e.rec[key] = s
	}
	if s.busy {
		s.used = true
	} else if !s.done {
		for n := 0; n < 20; n++ {
			before := len(s.exits)
			s.busy, s.used = true, false
			e.recRun(s, c)
			s.busy = false
			if !s.used || len(s.exits) == before {
				break
			}
		}
		s.done = !e.recBusy()
	}
	var out []callRes
	for _, k := range sortedKeys(s.exits) {
		x := s.exits[k]
		n := st.clone()
		n.setMon(x.mon)
		for w := range s.writes {
			e.havocField(n, w)
		}
		var v Val
		res := c.sig.Results()
		mk := func(i int, t types.Type) Val {
			kind := x.ret[i]
			switch kind {
			case 'n':
				return zeroVal(t)
			case 'T':
				return bconst(true)
			case 'F':
				return bconst(false)
			case 'e':
				return e.errVal(n, c.name)
			case '?':
				if _, ok := t.Underlying().(*types.Pointer); ok {
					r := e.result(c, n, fmt.Sprintf("rec%d", i), t)
					x := freshSym(c.name, t)
					n.updFact(x, func(f *Fact) { f.HasPts = true; f.Pts = []Loc{r.L} })
					return psym(x)
				}
			}
			return e.result(c, n, fmt.Sprintf("rec%d", i), t)
		}
		switch res.Len() {
		case 0:
		case 1:
			v = mk(0, res.At(0).Type())
		default:
			v = Val{K: KTuple}
			for i := 0; i < res.Len(); i++ {
				v.El = append(v.El, mk(i, res.At(i).Type()))
			}
		}
		out = append(out, callRes{n, v})
	}
	return out
}

type recSum struct {
	exits  map[string]recExit
	writes map[string]bool
	busy   bool
	used   bool
	done   bool
}

type recExit struct {
	mon string
	ret []byte
}

func (e *Engine) recBusy() bool {
	for _, s := range e.rec {
		if s.busy {
			return true
		}
	}
	return false
}

func (e *Engine) recRun(s *recSum, c *callCtx) {
	g := e.entryState()
	g.mon = &Mon{Key: c.st.mon.Key}
	var args []Val
	for i, p := range c.fn.Params {
		v := e.genericArg(g, fmt.Sprintf("rec:%s#%d", c.fn.Name(), i), p.Type())
		if i < len(c.args) {
			switch {
			case c.args[i].K == KFunc && c.args[i].S == 0:
				v = c.args[i]
			case isNilable(c.args[i]) && c.st.nilness(c.args[i]) == 1:
				v = zeroVal(p.Type())
			case isNilable(c.args[i]) && c.st.nilness(c.args[i]) == 2:
				g.assumeNil(v, false)
			}
		}
		args = append(args, v)
	}
	f := &Frame{fn: c.fn, regs: map[ssa.Value]Val{}, ctx: "rec:" + c.fn.Name(), owner: g}
	for i, p := range c.fn.Params {
		f.regs[p] = args[i]
	}
	g.frames = []*Frame{f}
	old := e.onStore
	e.onStore = func(e *Engine, tg target, v Val, in *ssa.Store) {
		if old != nil {
			old(e, tg, v, in)
		}
		if tg.l.O.Input || tg.l.O.Summary || tg.l.O.Global {
			if s.writes == nil {
				s.writes = map[string]bool{}
			}
			w := "?"
			if tg.l.O.Type != nil {
				w = types.TypeString(tg.l.O.Type, nil)
			}
			s.writes[w+"|"+tg.l.Path+tg.tr] = true
		}
	}
	e.depth++
	exits := e.body(g)
	e.depth--
	e.onStore = old
	res := c.sig.Results()
	for _, x := range exits {
		r := make([]byte, res.Len())
		for i := range r {
			v := x.ret
			if res.Len() > 1 {
				v = undef
				if x.ret.K == KTuple {
					v = x.ret.El[i]
				}
			}
			r[i] = '*'
			t := res.At(i).Type()
			if isNilable(v) {
				switch x.nilness(v) {
				case 1:
					r[i] = 'n'
				case 2:
					r[i] = 'p'
					if isErrorType(t) {
						r[i] = 'e'
					}
				default:
					r[i] = '?'
				}
			} else if k := partKey(x, t, v); k != "" {
				r[i] = k[0]
			}
		}
		k := x.mon.Key + "|" + string(r)
		s.exits[k] = recExit{x.mon.Key, r}
	}
}

// havocField forgets a field of every object of a type.
func (e *Engine) havocField(st *State, w string) {
	i := strings.IndexByte(w, '|')
	tn, path := w[:i], w[i+1:]
	for o := range st.heap {
		if o.Type == nil || tn != "?" && types.TypeString(o.Type, nil) != tn {
			continue
		}
		os := st.wstate(o)
		t := typeAt(o.Type, path)
		if t != nil && !strings.Contains(path, "[") {
			st.store(Loc{o, path}, freshVal("rec", t), t)
		} else {
			for k := range os.cells {
				delete(os.cells, k)
			}
			os.ver++
		}
	}
}

// genericArg is an arbitrary value of a type.
func (e *Engine) genericArg(st *State, name string, t types.Type) Val {
	o := e.sites["arg:"+name]
	if o == nil {
		o = newObj(name, "arg:"+name, t)
		o.Input = true
		e.sites["arg:"+name] = o
	}
	v := symVal(t, func(sub string, t types.Type) Sym { return initSym(Loc{o, sub}, t) }, "")
	return st.sliceInv(v)
}

// sliceInv adds len <= cap for unknown slices.
func (st *State) sliceInv(v Val) Val {
	switch v.K {
	case KSlice:
		if v.El[2].S != 0 && v.El[3].S != 0 {
			st.addDiff(v.El[2], v.El[3], 0)
		}
	case KStruct, KTuple:
		for _, e := range v.El {
			st.sliceInv(e)
		}
	}
	return v
}
