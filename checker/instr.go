package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(st *State) []*State { return []*State{st} }

// checkIndex discharges 0 <= idx < ln and then assumes it.
func (e *Engine) checkIndex(st *State, in ssa.Instruction, idx, ln Val, what string) bool {
	ok := idx.K == KInt && ln.K == KInt
	if ok {
		l, _ := st.rng(idx)
		ok = (l >= 0 || st.leq(iconst(0), idx)) && st.lt(idx, ln)
		if !ok {
			if r, k := st.evalCond(cond(token.LSS, idx, ln)); k && r {
				ok = l >= 0 || st.leq(iconst(0), idx)
			}
		}
	}
	msg := ""
	if !ok {
		msg = fmt.Sprintf("index %s may be outside %s of length %s", render(idx), what, render(ln))
	}
	e.oblige(st, in, "index", ok, msg)
	if !ok && idx.K == KInt && ln.K == KInt {
		return st.assume(cond(token.GEQ, idx, iconst(0)), true) && st.assume(cond(token.LSS, idx, ln), true)
	}
	return true
}

func (e *Engine) checkLeq(st *State, in ssa.Instruction, a, b Val, what string) bool {
	ok := a.K == KInt && b.K == KInt && st.leq(a, b)
	if !ok && a.K == KInt && b.K == KInt {
		if r, k := st.evalCond(cond(token.LEQ, a, b)); k && r {
			ok = true
		}
	}
	msg := ""
	if !ok {
		msg = fmt.Sprintf("slice bound out of range: need %s <= %s (%s)", render(a), render(b), what)
	}
	e.oblige(st, in, "slice", ok, msg)
	if !ok && a.K == KInt && b.K == KInt {
		return st.assume(cond(token.LEQ, a, b), true)
	}
	return true
}

// strAt is the byte of a string at an index.
func (s *State) strAt(v, idx Val) Val {
	t := types.Typ[types.Uint8]
	if v.isConstStr() {
		if idx.isConstInt() {
			if idx.N >= 0 && idx.N < int64(len(v.Str)) {
				return iconst(int64(v.Str[idx.N]))
			}
			return isym(freshSym("sat", t))
		}
		x := term("sat", t, v, idx)
		if _, ok := s.facts[x]; !ok {
			var set [4]uint64
			lo, hi := int64(255), int64(0)
			il, ih := s.rng(idx)
			for i := 0; i < len(v.Str); i++ {
				if int64(i) < il || int64(i) > ih {
					continue
				}
				c := int64(v.Str[i])
				set[c/64] |= 1 << (c % 64)
				if c < lo {
					lo = c
				}
				if c > hi {
					hi = c
				}
			}
			if lo <= hi {
				s.updFact(x, func(f *Fact) { f.Lo, f.Hi, f.Set = lo, hi, &set })
			}
		}
		return isym(x)
	}
	if v.S != 0 {
		si := syms[v.S]
		if si.Op == "substr" {
			return s.strAt(si.Args[0], s.addv(si.Args[1], idx))
		}
		if si.Op == "cat" && si.Args[0].isConstStr() && idx.isConstInt() && idx.N < int64(len(si.Args[0].Str)) && idx.N >= 0 {
			return iconst(int64(si.Args[0].Str[idx.N]))
		}
		if f := s.fact(v.S); f.HasIn && len(f.In) == 1 {
			return s.strAt(strc(f.In[0]), idx)
		}
	}
	return isym(term("sat", t, v, idx))
}

// substr is v[lo:hi] with the bounds already checked.
func (s *State) substr(v, lo, hi Val) Val {
	ln := s.strLen(v)
	if lo.isConstInt() && lo.N == 0 && valEq(hi, ln) {
		return v
	}
	if v.isConstStr() && lo.isConstInt() && hi.isConstInt() && lo.N >= 0 && lo.N <= hi.N && hi.N <= int64(len(v.Str)) {
		return strc(v.Str[lo.N:hi.N])
	}
	if valEq(lo, hi) {
		return strc("")
	}
	if v.S != 0 && syms[v.S].Op == "substr" {
		si := syms[v.S]
		return s.substr(si.Args[0], s.addv(si.Args[1], lo), s.addv(si.Args[1], hi))
	}
	z := term("substr", types.Typ[types.String], v, lo, hi)
	l := s.strLen(ssym(z))
	d := s.subv(hi, lo)
	s.addDiff(l, d, 0)
	s.addDiff(d, l, 0)
	return ssym(z)
}

// elemPtr is the address of an array element.
func elemPtr(base, idx Val) Val {
	if base.K != KPtr {
		return base
	}
	if base.S == 0 && len(base.El) == 0 && idx.isConstInt() {
		return ploc(Loc{base.L.O, fmt.Sprintf("%s[%d]", base.L.Path, idx.N)})
	}
	if len(base.El) > 0 { // array inside an array element
		n := base
		if idx.isConstInt() {
			n.Str += fmt.Sprintf("[%d]", idx.N)
		} else {
			n.Str += "[*]"
		}
		return n
	}
	return Val{K: KPtr, S: base.S, L: base.L, El: []Val{idx}}
}

func fieldPtr(p Val, name string) Val {
	n := p
	if len(p.El) > 0 {
		n.Str += "." + name
	} else {
		n.L = Loc{p.L.O, p.L.Path + "." + name}
	}
	return n
}

func (e *Engine) asSlice(v Val) Val {
	if v.K == KNil {
		return nilSlice()
	}
	return v
}

// instr executes one instruction.
func (e *Engine) instr(st *State, in ssa.Instruction) []*State {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := derefType(x.Type())
		name := x.Comment
		if name == "" || name == "new" {
			name = "new " + types.TypeString(t, func(*types.Package) string { return "" })
		}
		site := e.site(st, in, "")
		if len(in.Parent().Blocks) > 300 {
			// generated state machines repeat the same action many times
			site = st.top().ctx + "/" + in.Parent().String() + "/" + types.TypeString(t, nil)
		}
		o := e.alloc(st, site, name, t, false)
		o.Pos = x.Pos()
		st.setReg(x, ploc(Loc{o, ""}))
		return one(st)
	case *ssa.FieldAddr:
		p := e.val(st, x.X)
		name := structField(derefType(x.X.Type()), x.Field)
		var out []*State
		for _, tg := range e.resolve(st, p, in, x.X.Name()+"."+name) {
			tg.st.setReg(x, fieldPtr(tg.ptr(), name))
			out = append(out, tg.st)
		}
		return out
	case *ssa.Field:
		v := e.val(st, x.X)
		if v.K == KStruct && x.Field < len(v.El) {
			st.setReg(x, v.El[x.Field])
		} else {
			st.setReg(x, freshVal("field", x.Type()))
		}
		return one(st)
	case *ssa.IndexAddr:
		return e.indexAddr(st, x)
	case *ssa.Index:
		v := e.val(st, x.X)
		i := e.val(st, x.Index)
		if v.K == KStr {
			if !e.checkIndex(st, in, i, st.strLen(v), "string") {
				return nil
			}
			r := st.strAt(v, i)
			if e.onByte != nil && r.S != 0 {
				var out []*State
				for _, y := range e.onByte(e, st, r) {
					y.st.setReg(x, y.v)
					out = append(out, y.st)
				}
				return out
			}
			st.setReg(x, r)
			return one(st)
		}
		if v.K == KStruct && i.isConstInt() && i.N >= 0 && i.N < int64(len(v.El)) {
			st.setReg(x, v.El[i.N])
		} else {
			if ar, ok := x.X.Type().Underlying().(*types.Array); ok {
				if !e.checkIndex(st, in, i, iconst(ar.Len()), "array") {
					return nil
				}
			}
			r := freshVal("index", x.Type())
			if v.K == KStruct && len(v.El) > 0 {
				r = v.El[0]
				for _, o := range v.El[1:] {
					r = st.weakJoin(r, o, x.Type())
				}
			}
			st.setReg(x, r)
		}
		return one(st)
	case *ssa.Lookup:
		return e.apart(e.lookup(st, x))
	case *ssa.Slice:
		return e.slice(st, x)
	case *ssa.UnOp:
		return e.unop(st, x)
	case *ssa.BinOp:
		a, b := e.val(st, x.X), e.val(st, x.Y)
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if c, ok := x.X.(*ssa.Const); ok && c.Value == nil && isNilable(zeroVal(c.Type())) {
				a = nilVal
			}
			if c, ok := x.Y.(*ssa.Const); ok && c.Value == nil && isNilable(zeroVal(c.Type())) {
				b = nilVal
			}
			st.setReg(x, cond(x.Op, a, b))
			return one(st)
		}
		st.setReg(x, e.arith(st, in, x.Op, a, b, x.Type(), x.Y.Type()))
		return one(st)
	case *ssa.Convert:
		return e.convert(st, x)
	case *ssa.ChangeType:
		st.setReg(x, e.val(st, x.X))
		return one(st)
	case *ssa.ChangeInterface:
		st.setReg(x, e.val(st, x.X))
		return one(st)
	case *ssa.MultiConvert:
		st.setReg(x, freshVal("conv", x.Type()))
		return one(st)
	case *ssa.SliceToArrayPointer:
		e.oblige(st, in, "assert", false, "slice to array conversion")
		st.setReg(x, freshVal("arr", x.Type()))
		return one(st)
	case *ssa.MakeInterface:
		v := e.val(st, x.X)
		if v.K == KCond {
			v = st.boolSym(v)
		}
		st.setReg(x, ifaceOf(x.X.Type(), v))
		return one(st)
	case *ssa.TypeAssert:
		return e.typeAssert(st, x)
	case *ssa.MakeSlice:
		ln, cp := e.val(st, x.Len), e.val(st, x.Cap)
		l, _ := st.rng(ln)
		e.oblige(st, in, "makeslice", (l >= 0 || st.leq(iconst(0), ln)) && st.leq(ln, cp), "make with length "+render(ln)+" that may be negative or exceed the capacity")
		o := e.alloc(st, e.site(st, in, ""), "make "+types.TypeString(x.Type(), func(*types.Package) string { return "" }), elemOf(x.Type()), false)
		o.Pos = x.Pos()
		st.setReg(x, mkSlice(ploc(Loc{o, ""}), iconst(0), ln, cp))
		return one(st)
	case *ssa.MakeChan:
		o := e.alloc(st, e.site(st, in, ""), "chan", x.Type(), false)
		o.Pos = x.Pos()
		sz := e.val(st, x.Size)
		st.wstate(o).cells["$cap"] = sz
		st.setReg(x, ploc(Loc{o, ""}))
		return one(st)
	case *ssa.MakeMap:
		o := e.alloc(st, e.site(st, in, ""), "map", x.Type(), false)
		o.Pos = x.Pos()
		st.setReg(x, ploc(Loc{o, ""}))
		return one(st)
	case *ssa.MakeClosure:
		v := Val{K: KFunc, Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			v.El = append(v.El, e.val(st, b))
		}
		st.setReg(x, v)
		return one(st)
	case *ssa.Store:
		p, v := e.val(st, x.Addr), e.val(st, x.Val)
		t := x.Val.Type()
		if v.K == KNil {
			if _, ok := t.Underlying().(*types.Slice); ok {
				v = nilSlice()
			}
		}
		var out []*State
		for _, tg := range e.resolve(st, p, in, "store through "+x.Addr.Name()) {
			if e.onStore != nil {
				e.onStore(e, tg, v, x)
			}
			e.storePtr(tg, v, t)
			out = append(out, tg.st)
		}
		return out
	case *ssa.Call:
		var out []*State
		e.callSites[in] = true
		for _, r := range e.invoke(st, in, &x.Call) {
			r.st.setReg(x, r.v)
			out = append(out, r.st)
		}
		return e.apart(out)
	case *ssa.Go:
		fn, args := e.callee(st, &x.Call)
		return e.fireEvent(st, &Event{Kind: "go", In: in, Args: append([]Val{fn}, args...)})
	case *ssa.Defer:
		fn, args := e.callee(st, &x.Call)
		f := st.wtop()
		f.defers = append(append([]Deferred(nil), f.defers...), Deferred{x, fn, args})
		return one(st)
	case *ssa.RunDefers:
		cur := one(st)
		for {
			var next []*State
			any := false
			for _, s := range cur {
				f := s.wtop()
				if len(f.defers) == 0 {
					next = append(next, s)
					continue
				}
				any = true
				d := f.defers[len(f.defers)-1]
				f.defers = append([]Deferred(nil), f.defers[:len(f.defers)-1]...)
				for _, r := range e.invokeVal(s, d.call, &d.call.Call, d.fn, d.args) {
					next = append(next, r.st)
				}
			}
			cur = next
			if !any {
				return cur
			}
		}
	case *ssa.Select:
		return e.sel(st, x)
	case *ssa.Extract:
		v := e.val(st, x.Tuple)
		if v.K == KTuple && x.Index < len(v.El) {
			st.setReg(x, v.El[x.Index])
		} else {
			st.setReg(x, freshVal("extract", x.Type()))
		}
		return one(st)
	case *ssa.Range:
		v := e.val(st, x.X)
		st.setReg(x, tuple(v))
		return one(st)
	case *ssa.Next:
		return e.next(st, x)
	case *ssa.MapUpdate:
		m := e.val(st, x.Map)
		k, v := e.val(st, x.Key), e.val(st, x.Value)
		var out []*State
		for _, tg := range e.resolve(st, m, in, "map update") {
			if k.S == 0 && (k.K == KInt || k.K == KStr) {
				p := mapKey(k)
				tg.st.store(Loc{tg.l.O, tg.l.Path + p}, v, x.Value.Type())
				tg.st.wstate(tg.l.O).cells["$key"+tg.l.Path+p] = bconst(true)
			} else {
				tg.st.wstate(tg.l.O).cells["$dyn"+tg.l.Path] = bconst(true)
			}
			out = append(out, tg.st)
		}
		return out
	case *ssa.Send:
		ch, v := e.val(st, x.Chan), e.val(st, x.X)
		if st.nilness(ch) == 1 {
			e.fireEvent(st, &Event{Kind: "block", In: in, Args: []Val{ch}})
			return nil
		}
		return e.fireEvent(st, &Event{Kind: "send", In: in, Args: []Val{ch, v}})
	}
	if v, ok := in.(ssa.Value); ok {
		st.setReg(v, freshVal("unknown", v.Type()))
	}
	return one(st)
}

func mapKey(k Val) string {
	if k.K == KStr {
		return "{" + strconv.Quote(k.Str) + "}"
	}
	return fmt.Sprintf("{%d}", k.N)
}

func structField(t types.Type, i int) string {
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprintf("f%d", i)
}

func (e *Engine) indexAddr(st *State, x *ssa.IndexAddr) []*State {
	v := e.val(st, x.X)
	i := e.val(st, x.Index)
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok { // *array
		ar := pt.Elem().Underlying().(*types.Array)
		var out []*State
		for _, tg := range e.resolve(st, v, x, "array pointer") {
			if !e.checkIndex(tg.st, x, i, iconst(ar.Len()), "array") {
				continue
			}
			tg.st.setReg(x, elemPtr(tg.ptr(), i))
			out = append(out, tg.st)
		}
		return out
	}
	v = e.asSlice(v)
	if v.K != KSlice {
		e.oblige(st, x, "index", false, "index into unknown value")
		st.setReg(x, freshVal("elem", x.Type()))
		return one(st)
	}
	if !e.checkIndex(st, x, i, v.El[2], "slice "+x.X.Name()) {
		return nil
	}
	if st.nilness(v) == 1 {
		return nil
	}
	st.assumeNil(v.El[0], false)
	idx := st.addv(v.El[1], i)
	st.setReg(x, elemPtr(v.El[0], idx))
	return one(st)
}

func (e *Engine) lookup(st *State, x *ssa.Lookup) []*State {
	v := e.val(st, x.X)
	i := e.val(st, x.Index)
	if v.K == KStr {
		if !e.checkIndex(st, x, i, st.strLen(v), "string") {
			return nil
		}
		r := st.strAt(v, i)
		if e.onByte != nil && r.S != 0 {
			var out []*State
			for _, y := range e.onByte(e, st, r) {
				y.st.setReg(x, y.v)
				out = append(out, y.st)
			}
			return out
		}
		st.setReg(x, r)
		return one(st)
	}
	et := x.Type()
	if x.CommaOk {
		et = et.(*types.Tuple).At(0).Type()
	}
	res := func(s *State, v Val, ok Val) *State {
		if x.CommaOk {
			s.setReg(x, tuple(v, ok))
		} else {
			s.setReg(x, v)
		}
		return s
	}
	if st.nilness(v) == 1 {
		return one(res(st, zeroVal(et), bconst(false)))
	}
	pts, ok := st.ptsOf(v)
	if v.K == KPtr && ok && len(pts) == 1 && !pts[0].O.Input && !pts[0].O.Summary && st.nilness(v) == 2 {
		l := pts[0]
		os := st.ostate(l.O)
		dyn := false
		var keys []string
		if os != nil {
			_, dyn = os.cells["$dyn"+l.Path]
			for _, k := range sortedKeys(os.cells) {
				if strings.HasPrefix(k, "$key"+l.Path+"{") {
					keys = append(keys, strings.TrimPrefix(k, "$key"+l.Path))
				}
			}
		}
		if !dyn && len(keys) <= 128 {
			if i.S == 0 && (i.K == KInt || i.K == KStr) {
				if hasStr(keys, mapKey(i)) {
					return one(res(st, st.load(Loc{l.O, l.Path + mapKey(i)}, et), bconst(true)))
				}
				return one(res(st, zeroVal(et), bconst(false)))
			}
			var out []*State
			miss := st.clone()
			missOK := true
			for _, k := range keys {
				var kv Val
				if k[1] == '"' {
					s, _ := strconv.Unquote(k[1 : len(k)-1])
					kv = strc(s)
				} else {
					n, _ := strconv.ParseInt(k[1:len(k)-1], 10, 64)
					kv = iconst(n)
				}
				s := st.clone()
				if s.assume(cond(token.EQL, i, kv), true) {
					out = append(out, res(s, s.load(Loc{l.O, l.Path + k}, et), bconst(true)))
				}
				if missOK && !miss.assume(cond(token.EQL, i, kv), false) {
					missOK = false
				}
			}
			if missOK {
				out = append(out, res(miss, zeroVal(et), bconst(false)))
			}
			return out
		}
	}
	return one(res(st, freshVal("lookup", et), bsym(freshSym("found", types.Typ[types.Bool]))))
}

func (e *Engine) slice(st *State, x *ssa.Slice) []*State {
	v := e.val(st, x.X)
	get := func(y ssa.Value, def Val) Val {
		if y == nil {
			return def
		}
		return e.val(st, y)
	}
	if isStr(x.X.Type()) {
		ln := st.strLen(v)
		lo, hi := get(x.Low, iconst(0)), get(x.High, ln)
		if !e.checkLeq(st, x, iconst(0), lo, "low bound") || !e.checkLeq(st, x, lo, hi, "low <= high") || !e.checkLeq(st, x, hi, ln, "high <= length") {
			return nil
		}
		st.setReg(x, st.substr(v, lo, hi))
		return one(st)
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		ar := pt.Elem().Underlying().(*types.Array)
		n := iconst(ar.Len())
		var out []*State
		for _, tg := range e.resolve(st, v, x, "slice of array") {
			st = tg.st
			lo, hi, mx := get(x.Low, iconst(0)), get(x.High, n), get(x.Max, n)
			if !e.checkLeq(st, x, iconst(0), lo, "low bound") || !e.checkLeq(st, x, lo, hi, "low <= high") || !e.checkLeq(st, x, hi, mx, "high <= max") || !e.checkLeq(st, x, mx, n, "max <= length") {
				continue
			}
			p := tg.ptr()
			st.setReg(x, mkSlice(p, lo, st.subv(hi, lo), st.subv(mx, lo)))
			out = append(out, st)
		}
		return out
	}
	v = e.asSlice(v)
	if v.K != KSlice {
		st.setReg(x, freshVal("slice", x.Type()))
		return one(st)
	}
	cp := v.El[3]
	lo, hi, mx := get(x.Low, iconst(0)), get(x.High, v.El[2]), get(x.Max, cp)
	if !e.checkLeq(st, x, iconst(0), lo, "low bound") || !e.checkLeq(st, x, lo, hi, "low <= high") || !e.checkLeq(st, x, hi, mx, "high <= capacity") {
		return nil
	}
	if x.Max != nil && !e.checkLeq(st, x, mx, cp, "max <= capacity") {
		return nil
	}
	st.setReg(x, mkSlice(v.El[0], st.addv(v.El[1], lo), st.subv(hi, lo), st.subv(mx, lo)))
	return one(st)
}

func (e *Engine) unop(st *State, x *ssa.UnOp) []*State {
	v := e.val(st, x.X)
	switch x.Op {
	case token.MUL:
		t := x.Type()
		var out []*State
		for _, tg := range e.resolve(st, v, x, "load through "+x.X.Name()) {
			r := e.loadPtr(tg, t)
			if y := e.sameLoad(x); y != nil {
				r = e.val(tg.st, y)
			}
			if e.onLoad != nil {
				e.onLoad(e, tg, r, x)
			}
			if e.onByte != nil && r.K == KInt && r.S != 0 {
				for _, y := range e.onByte(e, tg.st, r) {
					y.st.setReg(x, y.v)
					out = append(out, y.st)
				}
				continue
			}
			tg.st.setReg(x, r)
			out = append(out, tg.st)
		}
		return out
	case token.NOT:
		switch v.K {
		case KCond:
			st.setReg(x, cond(negOp(v.Op), v.El[0], v.El[1]))
		case KBool:
			if v.S == 0 {
				st.setReg(x, bconst(v.N == 0))
			} else if si := syms[v.S]; si.Op == "!" {
				st.setReg(x, si.Args[0])
			} else if r, k := st.evalCond(v); k {
				st.setReg(x, bconst(!r))
			} else {
				st.setReg(x, bsym(term("!", types.Typ[types.Bool], v)))
			}
		default:
			st.setReg(x, freshVal("not", x.Type()))
		}
		return one(st)
	case token.SUB:
		if v.K == KInt {
			st.setReg(x, e.arith(st, x, token.SUB, iconst(0), v, x.Type(), x.Type()))
		} else {
			st.setReg(x, opaque(term("neg", x.Type(), v)))
		}
		return one(st)
	case token.XOR:
		if v.isConstInt() {
			st.setReg(x, iconst(wrapTo(^v.N, x.Type())))
		} else {
			st.setReg(x, e.arith(st, x, token.XOR, v, iconst(wrapTo(-1, x.Type())), x.Type(), x.Type()))
		}
		return one(st)
	case token.ARROW:
		var out []*State
		for _, r := range e.recv(st, v, elemOf(x.X.Type()), x) {
			if x.CommaOk {
				r.st.setReg(x, tuple(r.v, r.ok))
			} else {
				r.st.setReg(x, r.v)
			}
			out = append(out, r.st)
		}
		return out
	}
	st.setReg(x, freshVal("unop", x.Type()))
	return one(st)
}

func (e *Engine) recv(st *State, ch Val, elem types.Type, in ssa.Instruction) []recvRes {
	if st.nilness(ch) == 1 {
		e.fireEvent(st, &Event{Kind: "block", In: in, Args: []Val{ch}})
		return nil
	}
	if e.onRecv != nil {
		return e.onRecv(e, st, ch, elem, in)
	}
	c := st.clone()
	return []recvRes{{st, freshVal("recv", elem), bconst(true)}, {c, zeroVal(elem), bconst(false)}}
}

func (e *Engine) convert(st *State, x *ssa.Convert) []*State {
	v := e.val(st, x.X)
	from, to := x.X.Type(), x.Type()
	switch {
	case isInt(from) && isInt(to):
		if v.K != KInt {
			st.setReg(x, freshVal("conv", to))
			return one(st)
		}
		st.setReg(x, e.convInt(st, x, v, to))
		return one(st)
	case isStr(from) && isStr(to):
		st.setReg(x, v)
		return one(st)
	case isStr(from) && isByteSlice(to):
		ln := st.strLen(v)
		o := e.alloc(st, e.site(st, x, ""), "bytes", elemOf(to), true)
		o.Pos = x.Pos()
		st.wstate(o).cells["$str"] = v
		st.setReg(x, mkSlice(ploc(Loc{o, ""}), iconst(0), ln, ln))
		return one(st)
	case isByteSlice(from) && isStr(to):
		st.setReg(x, e.bytesToString(st, v))
		return one(st)
	case isInt(from) && isStr(to):
		if v.isConstInt() {
			st.setReg(x, strc(string(rune(v.N))))
		} else {
			st.setReg(x, ssym(term("rune", to, v)))
		}
		return one(st)
	case isInt(to): // float to int
		st.setReg(x, isym(term("ftoi", to, v)))
		return one(st)
	}
	if v.K == KInt || v.K == KOpaque {
		st.setReg(x, opaque(term("conv", to, v)))
		return one(st)
	}
	r := freshVal("conv", to)
	if isStr(from) && r.K == KSlice && v.K == KStr { // []rune
		n := e.runeCount(st, v)
		st.addDiff(n, r.El[2], 0)
		st.addDiff(r.El[2], n, 0)
		r.El[2] = n
	}
	st.setReg(x, r)
	return one(st)
}

// runeCount is the number of characters of a text.
func (e *Engine) runeCount(st *State, s Val) Val {
	if s.isConstStr() {
		return iconst(int64(len([]rune(s.Str))))
	}
	n := isym(term("runes", tInt, s))
	ln := st.strLen(s)
	st.addDiff(n, ln, 0)
	lo := int64(0)
	if l, _ := st.rng(ln); l > 0 {
		lo = 1
	}
	st.setLo(n.S, lo)
	return n
}

func (e *Engine) convInt(st *State, in ssa.Instruction, v Val, to types.Type) Val {
	lo, hi := intRange(to)
	if v.S == 0 {
		if v.N < lo || v.N > hi {
			e.overflowed(st, in, to)
		}
		return iconst(wrapTo(v.N, to))
	}
	l, h := st.rng(v)
	if l >= lo && h <= hi {
		return v
	}
	e.overflowed(st, in, to)
	z := term("conv", to, v)
	return isym(z)
}

// bytesToString models string(b).
func (e *Engine) bytesToString(st *State, v Val) Val {
	v = e.asSlice(v)
	if v.K != KSlice {
		return freshVal("str", types.Typ[types.String])
	}
	if v.El[2].isConstInt() && v.El[2].N == 0 {
		return strc("")
	}
	if pts, ok := st.ptsOf(v.El[0]); ok && len(pts) == 1 && len(v.El[0].El) == 0 {
		if s, ok := st.pristine(pts[0]); ok {
			return st.substr(s, v.El[1], st.addv(v.El[1], v.El[2]))
		}
		// constant contents
		if v.El[1].isConstInt() && v.El[2].isConstInt() && v.El[2].N <= 64 && !pts[0].O.Summary {
			b := make([]byte, 0, 64)
			all := true
			for i := int64(0); i < v.El[2].N; i++ {
				c := st.load(Loc{pts[0].O, fmt.Sprintf("%s[%d]", pts[0].Path, v.El[1].N+i)}, types.Typ[types.Uint8])
				if !c.isConstInt() {
					all = false
					break
				}
				b = append(b, byte(c.N))
			}
			if all {
				return strc(string(b))
			}
		}
	}
	z := freshSym("str", types.Typ[types.String])
	l := isym(st.lenSym(z))
	st.addDiff(l, v.El[2], 0)
	st.addDiff(v.El[2], l, 0)
	if e.onBytesToString != nil {
		e.onBytesToString(st, v, ssym(z))
	}
	return ssym(z)
}

// pristine returns the string an unmodified conversion result was made from.
func (s *State) pristine(l Loc) (Val, bool) {
	if l.O.Summary || l.Path != "" {
		return Val{}, false
	}
	os := s.ostate(l.O)
	if os == nil || os.ver > 0 {
		return Val{}, false
	}
	v, ok := os.cells["$str"]
	if !ok {
		return Val{}, false
	}
	for k := range os.cells {
		if strings.HasPrefix(k, "[") {
			return Val{}, false
		}
	}
	return v, true
}

func (e *Engine) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	v := e.val(st, x.X)
	t := x.AssertedType
	_, toIface := t.Underlying().(*types.Interface)
	res := func(s *State, v Val, ok bool) *State {
		if x.CommaOk {
			s.setReg(x, tuple(v, bconst(ok)))
		} else {
			s.setReg(x, v)
		}
		return s
	}
	fail := func(s *State, why string) []*State {
		if x.CommaOk {
			return one(res(s, zeroVal(t), false))
		}
		e.oblige(s, x, "assert", false, why)
		return nil
	}
	if st.nilness(v) == 1 {
		return fail(st, "type assertion on nil interface")
	}
	if v.K == KIface && v.S == 0 {
		match := types.Identical(v.T, t)
		if toIface {
			match = types.Implements(v.T, t.Underlying().(*types.Interface))
		}
		if !match {
			return fail(st, "type assertion to "+t.String()+" fails: value is "+v.T.String())
		}
		if !x.CommaOk {
			e.oblige(st, x, "assert", true, "")
		}
		if toIface {
			return one(res(st, v, true))
		}
		return one(res(st, v.El[0], true))
	}
	if v.K != KIface {
		a := st.clone()
		out := []*State{}
		if x.CommaOk {
			out = append(out, res(a, zeroVal(t), false))
		} else {
			e.oblige(st, x, "assert", false, "type assertion on unknown value")
		}
		return append(out, res(st, freshVal("assert", t), true))
	}
	if f := st.fact(v.S); f.Alts != nil {
		var out []*State
		if f.Nil != 2 {
			c := st.clone()
			if c.assumeNil(v, true) {
				out = append(out, fail(c, "type assertion on possibly nil interface")...)
			}
		}
		seen := false
		for _, a := range f.Alts {
			a := a
			match := types.Identical(a.T, t)
			if toIface {
				match = types.Implements(a.T, t.Underlying().(*types.Interface))
			}
			c := st.clone()
			c.updFact(v.S, func(f *Fact) { f.Nil = 2; f.Alts = []Val{a} })
			if match {
				seen = true
				if toIface {
					out = append(out, res(c, a, true))
				} else {
					out = append(out, res(c, a.El[0], true))
				}
			} else {
				out = append(out, fail(c, "type assertion to "+t.String()+" may fail: value may be "+a.T.String())...)
			}
		}
		if seen && !x.CommaOk {
			e.oblige(st, x, "assert", true, "")
		}
		return out
	}
	is := bsym(term("is", types.Typ[types.Bool], v, strc(types.TypeString(t, nil))))
	var out []*State
	if r, k := st.evalCond(is); !k || !r {
		c := st
		if !k {
			c = st.clone()
		}
		c.assume(is, false)
		out = append(out, fail(c, "type assertion to "+t.String()+" may fail on "+render(v))...)
		if k {
			return out
		}
	}
	st.assume(is, true)
	if !st.assumeNil(v, false) {
		return out
	}
	if toIface {
		return append(out, res(st, v, true))
	}
	r := symVal(t, func(sub string, t types.Type) Sym { return term("assert"+sub, t, v) }, "")
	return append(out, res(st, r, true))
}

func (e *Engine) sel(st *State, x *ssa.Select) []*State {
	var out []*State
	nrecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	ri := 0
	for i, sc := range x.States {
		my := -1
		if sc.Dir == types.RecvOnly {
			my = ri
			ri++
		}
		ch := e.val(st, sc.Chan)
		if st.nilness(ch) == 1 {
			continue
		}
		c := st.clone()
		if !c.assumeNil(ch, false) {
			continue
		}
		build := func(s *State, v, ok Val) {
			t := tuple(iconst(int64(i)), ok)
			k := 0
			for _, o := range x.States {
				if o.Dir != types.RecvOnly {
					continue
				}
				if k == my {
					t.El = append(t.El, v)
				} else {
					t.El = append(t.El, zeroVal(elemOf(o.Chan.Type())))
				}
				k++
			}
			s.setReg(x, t)
			out = append(out, s)
		}
		if sc.Dir == types.RecvOnly {
			for _, r := range e.recv(c, ch, elemOf(sc.Chan.Type()), x) {
				build(r.st, r.v, r.ok)
			}
		} else {
			for _, s := range e.fireEvent(c, &Event{Kind: "send", In: x, Args: []Val{ch, e.val(c, sc.Send)}, Name: "select"}) {
				build(s, Val{}, bconst(false))
			}
		}
	}
	if !x.Blocking {
		c := st.clone()
		t := tuple(iconst(-1), bconst(false))
		for _, o := range x.States {
			if o.Dir == types.RecvOnly {
				t.El = append(t.El, zeroVal(elemOf(o.Chan.Type())))
			}
		}
		c.setReg(x, t)
		out = append(out, c)
	}
	return out
}

func (e *Engine) next(st *State, x *ssa.Next) []*State {
	tt := x.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	done := st.clone()
	kz, vz := Val{}, Val{}
	if b, ok := kt.(*types.Basic); !ok || b.Kind() != types.Invalid {
		kz = zeroVal(kt)
	}
	if b, ok := vt.(*types.Basic); !ok || b.Kind() != types.Invalid {
		vz = zeroVal(vt)
	}
	done.setReg(x, tuple(bconst(false), kz, vz))
	k, v := kz, vz
	if kz.K != KUndef {
		k = freshVal("key", kt)
	}
	if vz.K != KUndef {
		v = freshVal("val", vt)
	}
	if x.IsString && kz.K != KUndef {
		it := e.val(st, x.Iter)
		if it.K == KTuple && it.El[0].K == KStr {
			st.addDiff(iconst(0), k, 0)
			if !st.addDiff(k, st.strLen(it.El[0]), -1) {
				return one(done)
			}
		}
		if vz.K != KUndef {
			st.setLo(v.S, 0)
			st.setHi(v.S, 0x10FFFF)
		}
	}
	st.setReg(x, tuple(bconst(true), k, v))
	return []*State{done, st}
}

// ---- calls ----

// callee evaluates the function value and arguments of a call.
func (e *Engine) callee(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv := e.val(st, c.Value)
		for _, a := range c.Args {
			args = append(args, e.argVal(st, a))
		}
		return recv, args
	}
	for _, a := range c.Args {
		args = append(args, e.argVal(st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return Val{K: KFunc, Str: b.Name()}, args
	}
	return e.val(st, c.Value), args
}

func (e *Engine) argVal(st *State, a ssa.Value) Val {
	v := e.val(st, a)
	if v.K == KCond {
		v = st.boolSym(v)
	}
	if v.K == KNil {
		if _, ok := a.Type().Underlying().(*types.Slice); ok {
			return nilSlice()
		}
	}
	return v
}

func (e *Engine) invoke(st *State, in ssa.Instruction, c *ssa.CallCommon) []callRes {
	fn, args := e.callee(st, c)
	return e.invokeVal(st, in, c, fn, args)
}

func (e *Engine) invokeVal(st *State, in ssa.Instruction, c *ssa.CallCommon, fn Val, args []Val) []callRes {
	if c.IsInvoke() {
		return e.dynInvoke(st, in, c, fn, args)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(st, in, b.Name(), args, c)
	}
	if fn.K == KNil {
		e.oblige(st, in, "nil", false, "call of nil function")
		return nil
	}
	if fn.K == KFunc && fn.S == 0 && fn.Fn != nil {
		return e.callFn(st, in, fn.Fn, args, fn.El)
	}
	if fn.K == KFunc && fn.S != 0 {
		switch st.nilness(fn) {
		case 1:
			e.oblige(st, in, "nil", false, "call of nil function")
			return nil
		}
		if f := st.fact(fn.S); len(f.Alts) > 0 {
			var out []callRes
			for _, a := range f.Alts {
				s := st.clone()
				if a.K == KFunc && a.Fn != nil {
					out = append(out, e.callFn(s, in, a.Fn, args, a.El)...)
				}
			}
			if len(out) > 0 {
				return out
			}
		}
		if st.fact(fn.S).Nil == 0 {
			e.oblige(st, in, "nil", false, "call of possibly nil function "+render(fn))
		}
	}
	return e.external(st, in, "dynamic", c.Signature(), args)
}

func (e *Engine) dynInvoke(st *State, in ssa.Instruction, c *ssa.CallCommon, recv Val, args []Val) []callRes {
	switch st.nilness(recv) {
	case 1:
		e.oblige(st, in, "nil", false, "method call on nil interface")
		return nil
	case 0:
		if recv.K == KIface && recv.S != 0 {
			e.oblige(st, in, "nil", false, "method call on possibly nil interface "+render(recv))
			if !st.assumeNil(recv, false) {
				return nil
			}
		}
	default:
		e.oblige(st, in, "nil", true, "")
	}
	if recv.K == KIface && recv.S == 0 {
		return e.method(st, in, c, recv, args)
	}
	if recv.K == KIface && recv.S != 0 {
		if f := st.fact(recv.S); f.Alts != nil {
			var out []callRes
			for _, a := range f.Alts {
				a := a
				s := st.clone()
				s.updFact(recv.S, func(f *Fact) { f.Nil = 2; f.Alts = []Val{a} })
				out = append(out, e.method(s, in, c, a, args)...)
			}
			return out
		}
	}
	name := "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	return e.external(st, in, name, c.Signature(), append([]Val{recv}, args...))
}

func (e *Engine) method(st *State, in ssa.Instruction, c *ssa.CallCommon, recv Val, args []Val) []callRes {
	fn := e.p.prog.LookupMethod(recv.T, c.Method.Pkg(), c.Method.Name())
	if fn == nil {
		name := "(" + types.TypeString(recv.T, nil) + ")." + c.Method.Name()
		return e.external(st, in, name, c.Signature(), append([]Val{recv.El[0]}, args...))
	}
	return e.callFn(st, in, fn, append([]Val{recv.El[0]}, args...), nil)
}

// callFn calls a known function.
func (e *Engine) callFn(st *State, in ssa.Instruction, fn *ssa.Function, args, bound []Val) []callRes {
	name := fn.String()
	ctx := st.top().ctx + fmt.Sprintf("/%p", in)
	cc := &callCtx{st: st, fn: fn, name: name, args: args, in: in, sig: fn.Signature, site: ctx, bound: bound}
	if e.onCall != nil {
		if r, ok := e.onCall(e, cc); ok {
			return r
		}
	}
	if h, ok := e.intrinsics[name]; ok {
		return h(e, cc)
	}
	inRepo := e.p.inRepo(fn)
	if inRepo && fn.Blocks == nil || e.noInline != nil && e.noInline(fn) {
		return e.externalCtx(cc)
	}
	if inRepo || fn.Synthetic != "" && fn.Blocks != nil && wrapperOK(fn) {
		if len(fn.Blocks) == 0 {
			return e.externalCtx(cc)
		}
		if e.p.scc[fn] {
			return e.recCall(cc)
		}
		return e.call(st, fn, args, bound, in, ctx)
	}
	return e.externalCtx(cc)
}

func wrapperOK(fn *ssa.Function) bool {
	return strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "bound")
}

func (e *Engine) external(st *State, in ssa.Instruction, name string, sig *types.Signature, args []Val) []callRes {
	cc := &callCtx{st: st, name: name, args: args, in: in, sig: sig, site: st.top().ctx + fmt.Sprintf("/%p", in)}
	if e.onCall != nil {
		if r, ok := e.onCall(e, cc); ok {
			return r
		}
	}
	if h, ok := e.intrinsics[name]; ok {
		return h(e, cc)
	}
	return e.externalCtx(cc)
}

// sameLoad finds an earlier load of the same field through the same pointer
// with nothing in between that could store.
func (e *Engine) sameLoad(x *ssa.UnOp) *ssa.UnOp {
	if y, ok := e.loadOf[x]; ok {
		return y
	}
	if e.loadOf == nil {
		e.loadOf = map[*ssa.UnOp]*ssa.UnOp{}
	}
	e.loadOf[x] = nil
	fa, ok := x.X.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	if _, ok := x.Type().Underlying().(*types.Pointer); !ok {
		return nil
	}
	b, i := x.Block(), -1
	for k, in := range b.Instrs {
		if in == ssa.Instruction(x) {
			i = k
		}
	}
	for n := 0; n < 8; n++ {
		for i--; i >= 0; i-- {
			switch y := b.Instrs[i].(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Phi:
				return nil
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
					return nil
				}
			case *ssa.UnOp:
				if f2, ok := y.X.(*ssa.FieldAddr); ok && y.Op == x.Op && f2.X == fa.X && f2.Field == fa.Field {
					e.loadOf[x] = y
					return y
				}
			}
		}
		if len(b.Preds) != 1 {
			return nil
		}
		b = b.Preds[0]
		i = len(b.Instrs)
	}
	return nil
}

// apart makes the outcomes of an instruction paths of their own.
func (e *Engine) apart(out []*State) []*State {
	if e.splitCalls && len(out) > 1 {
		for i, s := range out {
			s.setMon(fmt.Sprintf("%s|%d", s.mon.Key, i))
		}
	}
	return out
}
