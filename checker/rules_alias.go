package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D02", "The parser is searched for every place where a slice of its input, or anything holding one, is kept in memory reachable from its result (an interprocedural flow of aliases over its intermediate code). Every function that parses what it reads from a socket is then interpreted with the parser's result sharing its input exactly if that search found a place; at every read the buffer is compared with everything reachable from the messages already delivered.", checkD02)
}

// aliasFlow finds where memory shared with a []byte parameter is kept.
type aliasFlow struct {
	c     *Check
	memo  map[string]*aliasRes
	local map[*ssa.Alloc]bool
}

type aliasRes struct {
	kept   []ssa.Instruction        // stores beyond local variables
	places map[ssa.Instruction]bool // stores of slices into structures
	result bool                     // returned
	busy   bool
}

func hasPointers(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(u.Elem(), depth+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPointers(u.At(i).Type(), depth+1) {
				return true
			}
		}
		return false
	}
	return true
}

func isError(t types.Type) bool {
	return types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

// flow follows the aliases of parameter i of fn.
func (a *aliasFlow) flow(fn *ssa.Function, i int) *aliasRes {
	k := fn.String() + "#" + string(rune('0'+i))
	if r, ok := a.memo[k]; ok {
		return r
	}
	r := &aliasRes{busy: true, places: map[ssa.Instruction]bool{}}
	a.memo[k] = r
	a.c.analysed(fn)
	t := map[ssa.Value]bool{fn.Params[i]: true}
	cells := map[ssa.Value]bool{} // local variables holding an alias
	root := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			default:
				return v
			}
		}
	}
	kept := map[ssa.Instruction]bool{}
	for ch := true; ch; {
		ch = false
		add := func(v ssa.Value) {
			if !t[v] && hasPointers(v.Type(), 0) {
				t[v], ch = true, true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Slice:
					if t[x.X] {
						add(x)
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if t[e] {
							add(x)
						}
					}
				case *ssa.ChangeType:
					if t[x.X] {
						add(x)
					}
				case *ssa.ChangeInterface:
					if t[x.X] {
						add(x)
					}
				case *ssa.MakeInterface:
					if t[x.X] {
						add(x)
					}
				case *ssa.TypeAssert:
					if t[x.X] {
						add(x)
					}
				case *ssa.Extract:
					if t[x.Tuple] && !isError(x.Type()) {
						add(x)
					}
				case *ssa.Field:
					if t[x.X] {
						add(x)
					}
				case *ssa.SliceToArrayPointer:
					if t[x.X] {
						add(x)
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && cells[root(x.X)] {
						add(x)
					}
				case *ssa.Convert:
					// between strings and bytes it copies
				case *ssa.MakeClosure:
					for j, bd := range x.Bindings {
						if t[bd] || cells[bd] {
							_ = j
							kept[in] = true
						}
					}
				case *ssa.Store:
					if !t[x.Val] {
						continue
					}
					if isError(x.Val.Type()) { // an error, not the result
						continue
					}
					rt := root(x.Addr)
					if al, ok := rt.(*ssa.Alloc); ok {
						if !cells[al] {
							cells[al], ch = true, true
						}
						if _, ok := x.Val.Type().Underlying().(*types.Slice); ok && al.Heap {
							r.places[in] = true
						}
						if al.Heap {
							// the structure itself is what may be kept
							if !isError(al.Type()) && !isError(elemOf(al.Type())) {
								add(al)
							}
						}
						continue
					}
					kept[in] = true
				case *ssa.MapUpdate:
					if t[x.Value] || t[x.Key] {
						kept[in] = true
					}
				case *ssa.Send:
					if t[x.X] {
						kept[in] = true
					}
				case *ssa.Return:
					for _, v := range x.Results {
						if t[v] && !isError(v.Type()) {
							r.result = true
						}
					}
				case ssa.CallInstruction:
					cm := x.Common()
					v, isv := in.(ssa.Value)
					if bi, ok := cm.Value.(*ssa.Builtin); ok {
						if bi.Name() == "append" && isv {
							if t[cm.Args[0]] || len(cm.Args) > 1 && t[cm.Args[1]] && hasPointers(elemOf(cm.Args[1].Type()), 0) {
								add(v)
							}
						}
						continue
					}
					cal := cm.StaticCallee()
					for j, g := range cm.Args {
						if !t[g] {
							continue
						}
						switch {
						case cal != nil && len(cal.Blocks) > 0 && a.c.p.inRepo(cal) && j < len(cal.Params):
							s := a.flow(cal, j)
							for _, k := range s.kept {
								kept[k] = true
							}
							for k := range s.places {
								r.places[k] = true
							}
							if s.result && isv {
								add(v)
							}
						case cal != nil && cal.Pkg != nil && (cal.Pkg.Pkg.Path() == "fmt" || cal.Pkg.Pkg.Path() == "log" || cal.Pkg.Pkg.Path() == "errors"):
						case isv:
							add(v)
						}
					}
				}
			}
		}
	}
	// a structure made here that holds an alias counts where it is stored
	for in := range kept {
		r.kept = append(r.kept, in)
	}
	r.busy = false
	return r
}

func checkD02(c *Check) {
	c.rules = append(c.rules, "shared buffer")
	parse := c.fn("sip.ParseMsg")
	if parse == nil {
		return
	}
	a := &aliasFlow{c: c, memo: map[string]*aliasRes{}}
	r := a.flow(parse, 0)
	shares := len(r.kept) > 0 || r.result
	for _, in := range r.kept {
		r.places[in] = true
	}
	var at []string
	for in := range r.places {
		at = append(at, c.p.pos(instrPos(in)))
	}
	sort.Strings(at)
	if !shares {
		at = nil
	}
	c.sample("the parser keeps part of its input at %s", strings.Join(at, ", "))
	c.count("places where the parser keeps its input", len(at))
	n := 0
	for _, fn := range c.p.funcs {
		if fn.Pkg == nil || len(fn.Blocks) == 0 {
			continue
		}
		calls := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(ssa.CallInstruction); ok && x.Common().StaticCallee() == parse {
					calls = true
				}
			}
		}
		if calls && fn.Pkg.Pkg.Name() != "sip" {
			n++
			c.receiveBuffer(a, fn, parse, shares, strings.Join(at, ", "))
		}
	}
	if n == 0 {
		c.unsure("no function parses what it receives")
	}
	c.count("receivers", n)
}

// receiveBuffer interprets a receive loop.
func (c *Check) receiveBuffer(a *aliasFlow, fn, parse *ssa.Function, shares bool, where string) {
	e := c.engine()
	var m, x, body *Obj
	e.intrinsics[parse.String()] = func(e *Engine, cc *callCtx) []callRes {
		b := cc.st.clone()
		v := Val(nilSlice())
		if shares {
			v = cc.args[0]
		}
		st := cc.st
		o := e.alloc(st, cc.site, "message", m.Type, false)
		c.set(st, o, "Via", c.get(st, m, "Via"))
		xo := e.alloc(st, cc.site+"x", "extension header", x.Type, false)
		c.set(st, xo, "Value", v)
		c.set(st, o, "XHeader", ptrTo(xo))
		bo := e.alloc(st, cc.site+"b", "payload", body.Type, false)
		c.set(st, bo, "D", v)
		c.set(st, o, "Payload", ifaceOf(types.NewPointer(body.Type), ptrTo(bo)))
		return []callRes{{st, tuple(ptrTo(o), nilVal)}, {b, tuple(nilVal, e.errVal(b, "ParseMsg"))}}
	}
	for _, n := range []string{"addTimestamp", "addReceived", "fixMessagesFromStrictRouters"} {
		if f := c.p.fn("dialog." + n); f != nil && !takesBytes(f) {
			e.intrinsics[f.String()] = noEffect
		}
	}
	if f := c.p.fn("dialog.trace"); f != nil {
		for i := range f.Params {
			if k := a.flow(f, i); len(k.kept) == 0 && !k.result {
				e.intrinsics[f.String()] = noEffect
			}
		}
	}
	e.onEvent = func(e *Engine, st *State, ev *Event) []*State {
		switch {
		case strings.HasPrefix(ev.Kind, "sock.Read"):
			if v, ok := st.monVal("$sent"); ok {
				buf := e.asSlice(ev.Args[1])
				l, ok := loc1(st, buf.El[0])
				if buf.K != KSlice || !ok {
					c.unsure("%s: the receive buffer is not followed", fnName(fn))
					return nil
				}
				c.count("reads checked", 1)
				s := st.reachFrom(v)
				if s[l.O] {
					c.fail("shared buffer", c.p.pos(instrPos(ev.In)), "receive buffer", "a datagram is read into memory that belongs to a message already delivered (the parser keeps its input, e.g. at %s)", where)
				}
			}
		case ev.Kind == "send":
			if p, ok := ev.Args[1].T.(*types.Pointer); ok || ev.Args[1].K == KPtr {
				_ = p
				st.setMonVal("$sent", ev.Args[1])
				st.setMon("sent")
			}
		}
		return []*State{st}
	}
	e.onCall = nil
	e.run(fn, func(st *State, args []Val) []Val {
		m, x, body = c.input("msg", "sip.Msg"), c.input("xheader", "sip.XHeader"), c.input("body", "sip.MiscPayload")
		for _, o := range []*Obj{m, x, body} {
			st.setMonVal("$"+o.Name, ptrTo(o))
		}
		st.assumeNil(c.get(st, m, "Via"), false)
		for _, v := range args {
			st.assumeNil(v, false)
		}
		return args
	})
	c.analysed(fn)
	c.gaveUp(e, fnName(fn))
}

// takesBytes: a slice of bytes is handed to the function.
func takesBytes(f *ssa.Function) bool {
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			return true
		}
	}
	return false
}

// reachFrom is what can be reached from one value.
func (s *State) reachFrom(v Val) map[*Obj]bool {
	t := *s
	t.frames, t.ret = nil, undef
	t.mon.Vals = nil
	return t.reach(v).objs
}
