package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- scenario objects ----

// input makes a distinct caller-supplied object of the named type.
func (c *Check) input(name, typ string) *Obj {
	if o := c.memo[name]; o != nil {
		return o
	}
	t := c.p.typ(typ)
	if t == nil {
		panic("no type " + typ)
	}
	o := newObj(name, "in:"+name, t)
	o.Input = true
	if c.memo != nil {
		c.memo[name] = o
	}
	return o
}

func ptrTo(o *Obj) Val { return ploc(Loc{o, ""}) }

// set stores a field of a scenario object.
func (c *Check) set(st *State, o *Obj, field string, v Val) {
	st.store(Loc{o, "." + field}, v, structFieldType(o.Type, field))
}

func (c *Check) get(st *State, o *Obj, field string) Val {
	return st.load(Loc{o, "." + field}, structFieldType(o.Type, field))
}

func structFieldType(t types.Type, field string) types.Type {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return s.Field(i).Type()
		}
	}
	panic("no field " + field)
}

// list makes a linked list of n caller-supplied elements.
func (c *Check) list(st *State, name, typ string, n int) (Val, []*Obj) {
	var os []*Obj
	for i := 0; i < n; i++ {
		os = append(os, c.input(fmt.Sprintf("%s%d", name, i), typ))
	}
	for i, o := range os {
		if i+1 < n {
			c.set(st, o, "Next", ptrTo(os[i+1]))
		} else {
			c.set(st, o, "Next", nilVal)
		}
		if typ == "sip.Addr" {
			u := c.input(fmt.Sprintf("%s%d.Uri", name, i), "sip.URI")
			c.set(st, o, "Uri", ptrTo(u))
		}
	}
	if n == 0 {
		return nilVal, nil
	}
	return ptrTo(os[0]), os
}

// ---- contracts of small functions of package sip, each verified on its own ----

// getContract models the parameter look-ups (verified by rule "lookup"):
// the first entry whose name equals the argument regardless of case.
func (c *Check) getContract(e *Engine) {
	for _, tn := range []string{"Param", "URIParam", "URIHeader"} {
		fn := c.p.fn("sip." + tn + ".Get")
		if fn == nil {
			continue
		}

		e.intrinsics[fn.String()] = func(e *Engine, cc *callCtx) []callRes {
			p, name := cc.args[0], cc.args[1]
			st := cc.st
			t := cc.sig.Results().At(0).Type()
			for i := 0; i < 16; i++ {
				if st.nilness(p) == 1 {
					return ret1(st, nilVal)
				}
				pts, ok := st.ptsOf(p)
				if !ok || len(pts) != 1 || pts[0].O.Summary || !name.isConstStr() {
					break
				}
				n := st.load(Loc{pts[0].O, pts[0].Path + ".Name"}, tString)
				if !n.isConstStr() {
					break
				}
				if strings.EqualFold(n.Str, name.Str) {
					return ret1(st, p)
				}
				p = st.load(Loc{pts[0].O, pts[0].Path + ".Next"}, t)
			}
			if p.K != KPtr || !name.isConstStr() || p.S == 0 && p.L.O == nil {
				return e.externalResult(cc)
			}
			x := term("param", t, p, strc(strings.ToLower(name.Str)))
			v := psym(x)
			switch st.nilness(v) {
			case 1:
				return ret1(st, nilVal)
			case 2:
				return ret1(st, v)
			}
			n := st.clone()
			var out []callRes
			if st.assumeNil(v, false) && st.assumeNil(p, false) {
				if e.paths {
					st.setMon(st.mon.Key + "+" + name.Str)
				}
				out = append(out, callRes{st, v})
			}
			if n.assumeNil(v, true) {
				if e.paths {
					n.setMon(n.mon.Key + "-" + name.Str)
				}
				out = append(out, callRes{n, nilVal})
			}
			return out
		}
	}
}

// paramOf is the entry of a list a look-up by that name finds, if the list is
// a symbolic one some look-up was made on.
func paramOf(st *State, list Val, name string, t types.Type) (Val, uint8) {
	for i := 0; i < 16; i++ {
		if st.nilness(list) == 1 {
			return nilVal, 1
		}
		pts, ok := st.ptsOf(list)
		if !ok || len(pts) != 1 || pts[0].O.Summary {
			break
		}
		n := st.load(Loc{pts[0].O, pts[0].Path + ".Name"}, tString)
		if !n.isConstStr() {
			break
		}
		if strings.EqualFold(n.Str, name) {
			return list, 2
		}
		list = st.load(Loc{pts[0].O, pts[0].Path + ".Next"}, t)
	}
	if list.K != KPtr {
		return nilVal, 0
	}
	x := lookupTerm("param", t, list, strc(name))
	if x == 0 {
		return nilVal, 0
	}
	return psym(x), st.nilness(psym(x))
}

// paramFacts: a parameter found by name has that name.
func structFields(t types.Type) []*types.Var {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		r = append(r, s.Field(i))
	}
	return r
}

var copyCount int64

// copyContract models the Copy methods of package sip (verified by S10): a
// fresh object whose fields equal the original's.
func (c *Check) copyContract(e *Engine) {
	for _, tn := range []string{"URI", "Addr", "Via", "Param", "URIParam", "URIHeader"} {
		fn := c.p.fn("sip." + tn + ".Copy")
		if fn == nil {
			continue
		}
		e.intrinsics[fn.String()] = func(e *Engine, cc *callCtx) []callRes {
			st, p := cc.st, cc.args[0]
			t := cc.sig.Results().At(0).Type()
			if st.nilness(p) == 0 {
				n := st.clone()
				var out []callRes
				if n.assumeNil(p, true) {
					out = append(out, callRes{n, nilVal})
				}
				if st.assumeNil(p, false) {
					out = append(out, callRes{st, e.deepCopy(st, p, t, 0)})
				}
				return out
			}
			return ret1(st, e.deepCopy(st, p, t, 0))
		}
	}
}

func (e *Engine) deepCopy(st *State, p Val, t types.Type, d int) Val {
	if st.nilness(p) == 1 {
		return nilVal
	}
	pts, ok := st.ptsOf(p)
	if !ok || len(pts) != 1 || pts[0].O.Summary || pts[0].Path != "" || d > 8 {
		if p.K != KPtr {
			return freshVal("copy", t)
		}
		copyCount++
		x := term("copyof", t, p, iconst(copyCount))
		if st.nilness(p) == 2 {
			st.updFact(x, func(f *Fact) { f.Nil = 2 })
		}
		return psym(x)
	}
	src := pts[0].O
	o := newObj("copy of "+src.Name, "copy", elemOf(t))
	for _, f := range structFields(elemOf(t)) {
		v := st.load(Loc{src, "." + f.Name()}, f.Type())
		if _, isPtr := f.Type().Underlying().(*types.Pointer); isPtr {
			v = e.deepCopy(st, v, f.Type(), d+1)
		}
		st.store(Loc{o, "." + f.Name()}, v, f.Type())
	}
	return ptrTo(o)
}

// genContract models the identifier generators (verified by D12) as fresh
// non-empty texts or numbers.
func (c *Check) genContract(e *Engine) {
	for _, n := range []string{"GenerateTag", "GenerateBranch", "GenerateCallID", "GenerateOriginID", "GenerateCSeq"} {
		fn := c.p.fn("util." + n)
		if fn == nil {
			continue
		}
		n := n
		e.intrinsics[fn.String()] = func(e *Engine, cc *callCtx) []callRes {
			x := leaf(n, cc.sig.Results().At(0).Type())
			if n == "GenerateCSeq" {
				cc.st.setLo(x, 0)
				cc.st.setHi(x, 49999)
				return ret1(cc.st, isym(x))
			}
			cc.st.setLo(cc.st.lenSym(x), 1)
			cc.st.strExclude(x, "")
			return ret1(cc.st, ssym(x))
		}
	}
}

func isGen(v Val, name string) bool {
	return v.S != 0 && syms[v.S].Op == "" && strings.HasPrefix(renderSym(v.S), name)
}

// ---- comparison of results with the caller's values ----

type tri int

const (
	no tri = iota
	yes
	maybe
)

type sameCtx struct {
	st, st0 *State
	seen    map[string]bool
	why     string
}

// same decides whether got (in st) equals want (in st0), following pointers.
func same(st, st0 *State, got, want Val, t types.Type) (tri, string) {
	x := &sameCtx{st: st, st0: st0, seen: map[string]bool{}}
	r := x.same(got, want, t, "", 0)
	return r, x.why
}

func (x *sameCtx) no(path string, got, want Val) tri {
	if path == "" {
		x.why = render(got) + " instead of " + render(want)
	} else {
		x.why = path[1:] + " is " + render(got) + " instead of " + render(want)
	}
	return no
}

func (x *sameCtx) same(got, want Val, t types.Type, path string, d int) tri {
	switch t.Underlying().(type) {
	case *types.Pointer:
		gn, wn := x.st.nilness(got), x.st0.nilness(want)
		if wn == 0 {
			wn = x.st.nilness(want)
		}
		if gn == 1 && wn == 1 {
			return yes
		}
		if gn == 1 && wn == 2 || gn == 2 && wn == 1 {
			return x.no(path, got, want)
		}
		if valEq(got, want) && got.K == KPtr && got.S != 0 {
			if pristineObj(x.st, objOfSym(got.S)) {
				return yes
			}
		}
		gl, gok := loc1(x.st, got)
		wl, wok := loc1(x.st0, want)
		if !gok || !wok {
			if got.S != 0 && syms[got.S].Op == "copyof" {
				return x.same(syms[got.S].Args[0], want, t, path, d)
			}
			if valEq(got, want) {
				return yes
			}
			if gn == 1 && wn == 0 && (want.S != 0 && definiteLeaf(want.S)) {
				return x.no(path, got, want)
			}
			if wn == 1 && gn == 0 && got.S != 0 && definiteLeaf(got.S) {
				return x.no(path, got, want)
			}
			if got.S != 0 && want.S != 0 && got.S != want.S && definiteLeaf(got.S) && definiteLeaf(want.S) {
				return x.no(path, got, want)
			}
			return maybe
		}
		k := gl.String() + "|" + fmt.Sprint(gl.O.ID) + "~" + fmt.Sprint(wl.O.ID) + wl.Path
		if x.seen[k] || d > 12 {
			return yes
		}
		x.seen[k] = true
		if got.S != 0 && syms[got.S].Op == "copyof" {
			if os := x.st.ostate(gl.O); os == nil || len(os.cells) == 0 {
				return x.same(syms[got.S].Args[0], want, t, path, d)
			}
		}
		if gl == wl && gl.O.Summary {
			return yes
		}
		if gl == wl && untouched(x.st, x.st0, gl.O) && d > 0 && gl.O.Parent != 0 {
			return yes
		}
		r := yes
		et := elemOf(t)
		if _, ok := et.Underlying().(*types.Struct); !ok {
			if gl == wl {
				return yes
			}
			return maybe
		}
		for _, f := range structFields(et) {
			gv := x.st.load(Loc{gl.O, gl.Path + "." + f.Name()}, f.Type())
			wv := x.st0.load(Loc{wl.O, wl.Path + "." + f.Name()}, f.Type())
			switch x.same(gv, wv, f.Type(), path+"."+f.Name(), d+1) {
			case no:
				return no
			case maybe:
				r = maybe
				if x.why == "" {
					x.why = path + "." + f.Name() + ": " + render(gv) + " ~ " + render(wv)
				}
			}
		}
		return r
	case *types.Interface, *types.Slice, *types.Map, *types.Signature:
		if valEq(got, want) {
			return yes
		}
		gn, wn := x.st.nilness(got), x.st0.nilness(want)
		if gn == 1 && wn == 1 {
			return yes
		}
		if gn != 0 && wn != 0 && gn != wn {
			return x.no(path, got, want)
		}
		return maybe
	}
	if got.K == KBool && want.K == KBool && got.S == 0 && want.S == 0 {
		if got.N == want.N {
			return yes
		}
		return x.no(path, got, want)
	}
	if valEq(got, want) {
		return yes
	}
	if got.K == KInt && want.K == KInt {
		g, gd, ok1 := affine(got)
		w, wd, ok2 := affine(want)
		if ok1 && ok2 && g == w {
			if gd == wd {
				return yes
			}
			return x.no(path, got, want)
		}
	}
	// initial contents of a copy
	if got.S != 0 && got.N == 0 && syms[got.S].Op == "init" && syms[got.S].L.O != nil && syms[got.S].L.O.Parent != 0 && syms[syms[got.S].L.O.Parent].Op == "copyof" && want.S != 0 && syms[want.S].Op == "init" {
		l, w := syms[got.S].L, syms[want.S].L
		if a := syms[l.O.Parent].Args[0]; l.Path == w.Path && (a.S != 0 && w.O != nil && w.O.Parent == a.S) {
			return yes
		}
	}
	if r, ok := x.st.sameVal(got, want); ok {
		if r {
			return yes
		}
		return x.no(path, got, want)
	}
	if (got.S == 0 || definiteText(got)) && (want.S == 0 || definiteText(want)) && got.K == want.K {
		return x.no(path, got, want)
	}
	return maybe
}

// definiteText: a value built from independent unknowns by operations that
// keep different inputs apart.
func definiteText(v Val) bool {
	if v.S == 0 {
		return v.K == KInt || v.K == KStr || v.K == KBool
	}
	if definiteLeaf(v.S) {
		return true
	}
	switch syms[v.S].Op {
	case "cat", "itoa", "ipstr", "add", "conv", "net.JoinHostPort":
		for _, a := range syms[v.S].Args {
			if !definiteText(a) && a.K != KPtr {
				return false
			}
		}
		return true
	}
	return false
}

func untouched(st, st0 *State, o *Obj) bool { return st.ostate(o) == st0.ostate(o) }

func loc1(st *State, v Val) (Loc, bool) {
	pts, ok := st.ptsOf(v)
	if ok && len(pts) == 1 {
		return pts[0], true
	}
	if !ok && v.K == KPtr && v.S != 0 {
		o := objOfSym(v.S)
		if !o.Summary {
			return Loc{o, ""}, true
		}
	}
	return Loc{}, false
}

// wantSame reports a difference between a result and what it must equal.
func (c *Check) wantSame(rule, pos, what string, st, st0 *State, got, want Val, t types.Type) bool {
	c.count("values_compared", 1)
	r, why := same(st, st0, got, want, t)
	switch r {
	case no:
		c.fail(rule, pos, what, "%s: %s", what, why)
	case maybe:
		c.unsure("%s: %s not resolved: %s against %s (%s)", rule, what, render(got), render(want), why)
	}
	return r == yes
}

// ret2 splits (value, error)-like results.
func elemsOf(v Val) []Val {
	if v.K == KTuple {
		return v.El
	}
	return []Val{v}
}

func (c *Check) gaveUp(e *Engine, what string) bool {
	for f := range e.fnSeen {
		c.analysed(f)
	}
	if e.gaveUp != "" {
		c.unsure("%s: %s", what, e.gaveUp)
		return true
	}
	return false
}

var _ = (*ssa.Function)(nil)

// pristineObj: the object still holds what it held at the start.
func pristineObj(st *State, o *Obj) bool {
	os := st.ostate(o)
	if os == nil {
		return true
	}
	for k, v := range os.cells {
		if k != "" && k[0] == '$' {
			continue
		}
		if v.S == 0 || v.N != 0 || syms[v.S].Op != "init" || syms[v.S].L.O != o || syms[v.S].L.Path != k {
			return false
		}
	}
	return true
}
