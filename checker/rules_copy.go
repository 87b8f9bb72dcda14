package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S10", "Every Copy method of package sip is run on originals with unknown contents and lists of up to three elements at every level. In the result every field of every structure equals the original's, every structure of the address, Via, URI, parameter and header lists is a new one, and nothing in the original has changed.", checkS10)
}

// copied are the structures a copy has for itself.
var copied = map[string]bool{"Msg": true, "Addr": true, "Via": true, "URI": true, "Param": true, "URIParam": true, "URIHeader": true, "XHeader": true}

func copiedName(t types.Type) string {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Name() != "sip" || !copied[n.Obj().Name()] {
		return ""
	}
	return n.Obj().Name()
}

func checkS10(c *Check) {
	c.rules = append(c.rules, "copy is nil", "equal field", "own structure", "original unchanged")
	var fns []*ssa.Function
	for _, fn := range c.p.funcs {
		if fn.Name() == "Copy" && fn.Signature.Recv() != nil && fn.Synthetic == "" && copiedName(fn.Signature.Recv().Type()) != "" {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	have := map[string]bool{}
	for _, fn := range fns {
		have[copiedName(fn.Signature.Recv().Type())] = true
		c.analysed(fn)
		for _, n := range []int{0, 1, 2, 3} {
			c.copyCase(fn, n, true)
			if n > 0 {
				c.copyCase(fn, n, false)
			}
		}
	}
	for _, t := range []string{"Msg", "Addr", "Via", "URI"} {
		if !have[t] {
			c.unsure("sip.%s.Copy not found", t)
		}
	}
}

// tree makes an original of a type: n elements in a list, or inside it lists of n, n-1, ... elements;
// full decides whether everything that can be nil is there.
func (c *Check) tree(st *State, name string, t types.Type, n int, full bool, objs *[]*Obj) Val {
	if n == 0 {
		return nilVal
	}
	pt := t.Underlying().(*types.Pointer).Elem()
	o := c.memo["tree:"+name]
	if o == nil {
		o = newObj(name, "in:"+name, pt)
		o.Input = true
		c.memo["tree:"+name] = o
	}
	*objs = append(*objs, o)
	for _, f := range structFields(pt) {
		fn := name + "." + f.Name()
		switch {
		case f.Name() == "Next":
			c.set(st, o, "Next", c.tree(st, fn, t, n-1, full, objs))
		case copiedName(f.Type()) != "":
			k := 2
			if n == 1 || !full && len(f.Name())%2 == 0 {
				k = 1
			}
			if !full && len(f.Name())%3 == 0 {
				k = 0
			}
			c.set(st, o, f.Name(), c.tree(st, fn, f.Type(), k, full, objs))
		case isSlice(f.Type()):
			ln := int64(2)
			v := c.memo["bytes:"+fn]
			if v == nil {
				v = newObj(fn+"[]", "in:"+fn+"[]", elemOf(f.Type()))
				v.Input = true
				c.memo["bytes:"+fn] = v
			}
			c.set(st, o, f.Name(), mkSlice(ploc(Loc{v, ""}), iconst(0), iconst(ln), iconst(ln)))
		}
	}
	return ploc(Loc{o, ""})
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (c *Check) copyCase(fn *ssa.Function, n int, full bool) {
	if c.memo == nil {
		c.memo = map[string]*Obj{}
	}
	t := fn.Signature.Recv().Type()
	e := c.engine()
	e.concrete, e.paths = true, true
	var st0 *State
	var objs []*Obj
	rs := e.run(fn, func(st *State, args []Val) []Val {
		objs = nil
		v := c.tree(st, fmt.Sprintf("%s%d", copiedName(t), n), t, n, full, &objs)
		st.setMonVal("$in", v)
		for i, o := range objs {
			st.setMonVal(fmt.Sprintf("$o%d", i), ptrTo(o))
		}
		st0 = st.clone()
		return []Val{v}
	})
	what := fnName(fn)
	if c.gaveUp(e, what) {
		return
	}
	pos := c.p.pos(fn.Pos())
	for _, r := range rs {
		c.count("copies", 1)
		in, _ := r.st.monVal("$in")
		cc := &copyCmp{c: c, st: r.st, st0: st0, what: what, pos: pos, objs: map[*Obj]bool{}, used: map[Loc]string{}, made: map[*Obj]bool{}}
		for _, o := range objs {
			cc.objs[o] = true
		}
		cc.eq(r.v, in, t, copiedName(t))
		for _, o := range objs {
			for _, f := range structFields(o.Type) {
				l := Loc{o, "." + f.Name()}
				a, b := r.st.load(l, f.Type()), st0.load(l, f.Type())
				if !valEq(a, b) {
					c.fail("original unchanged", pos, what, "the original's %s.%s is changed by copying", o.Name, f.Name())
				}
			}
		}
	}
	if len(rs) == 0 {
		c.unsure("%s: no result", what)
	}
}

type copyCmp struct {
	c       *Check
	st, st0 *State
	what    string
	pos     string
	objs    map[*Obj]bool
	used    map[Loc]string
	made    map[*Obj]bool
}

// short names a place without saying where in a list it is.
func short(path string) string {
	for strings.Contains(path, ".Next.Next") {
		path = strings.ReplaceAll(path, ".Next.Next", ".Next")
	}
	return path
}

func (x *copyCmp) eq(got, want Val, t types.Type, path string) {
	c := x.c
	if copiedName(t) != "" {
		if x.st0.nilness(want) == 1 {
			c.count("nil", 1)
			switch x.st.nilness(got) {
			case 1:
			case 2:
				c.fail("copy is nil", x.pos, x.what, "%s is not nil although the original's is", short(path))
			default:
				c.unsure("%s: %s not resolved", x.what, path)
			}
			return
		}
		if x.st.nilness(got) == 1 {
			c.fail("equal field", x.pos, x.what, "%s is missing in the copy", short(path))
			return
		}
		g, ok := loc1(x.st, got)
		w, ok2 := loc1(x.st0, want)
		if !ok || !ok2 || g.O.Summary {
			c.unsure("%s: %s not resolved: %s", x.what, path, render(got))
			return
		}
		c.count("structures", 1)
		if x.objs[g.O] {
			c.fail("own structure", x.pos, x.what, "%s of the copy is the original's: a change of one is seen in the other", short(path))
			return
		}
		if old, ok := x.used[g]; ok {
			c.fail("own structure", x.pos, x.what, "%s and %s of the copy are the same structure", short(old), short(path))
			return
		}
		x.used[g] = path
		for _, f := range structFields(elemOf(t)) {
			gv := x.st.load(Loc{g.O, g.Path + "." + f.Name()}, f.Type())
			wv := x.st0.load(Loc{w.O, w.Path + "." + f.Name()}, f.Type())
			x.eq(gv, wv, f.Type(), path+"."+f.Name())
		}
		return
	}
	c.count("fields", 1)
	if isSlice(t) {
		if got.K != KSlice {
			c.unsure("%s: %s not resolved", x.what, path)
			return
		}
		if !valEq(got.El[2], want.El[2]) {
			if got.El[2].isConstInt() {
				c.fail("equal field", x.pos, x.what, "%s has another length in the copy", short(path))
			} else {
				c.unsure("%s: length of %s not resolved", x.what, path)
			}
			return
		}
		g, ok := loc1(x.st, got.El[0])
		w, ok2 := loc1(x.st0, want.El[0])
		if !ok || !ok2 {
			c.unsure("%s: %s not resolved", x.what, path)
			return
		}
		if g.O == w.O {
			c.fail("own structure", x.pos, x.what, "%s of the copy shares its bytes with the original", short(path))
			return
		}
		et := elemOf(t)
		for i := int64(0); i < want.El[2].N; i++ {
			a := x.st.loadElem(g, x.st.addv(got.El[1], iconst(i)), "", et)
			b := x.st0.loadElem(w, x.st0.addv(want.El[1], iconst(i)), "", et)
			if !valEq(a, b) {
				if definiteText(a) && definiteText(b) {
					c.fail("equal field", x.pos, x.what, "%s has other contents in the copy", short(path))
				} else {
					c.unsure("%s: contents of %s not resolved: %s ~ %s", x.what, path, render(a), render(b))
				}
				return
			}
		}
		return
	}
	if valEq(got, want) {
		return
	}
	switch r, why := same(x.st, x.st0, got, want, t); r {
	case no:
		c.fail("equal field", x.pos, x.what, "%s differs in the copy: %s", short(path), why)
	case maybe:
		c.unsure("%s: %s not resolved: %s ~ %s", x.what, path, render(got), render(want))
	}
}
