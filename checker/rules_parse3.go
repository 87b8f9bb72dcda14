package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S04", "On every edge of both parsing automata that links an element (Via hop, address, parameter, extension header) into a list, the facts proved for the edge show its mandatory parts to be present: protocol, version, transport and host; URI; name; value.", checkS04)
}

// mandatory parts of what the parsers link into lists
var mandatory = map[string][]string{
	"Via":       {"Protocol", "Version", "Transport", "Host"},
	"Addr":      {"Uri"},
	"Param":     {"Name"},
	"XHeader":   {"Name", "Value"},
	"URIParam":  {"Name"},
	"URIHeader": {"Name"},
}

func checkS04(c *Check) {
	c.rules = append(c.rules, "incomplete element", "never linked")
	seen := map[string]bool{}
	for _, s := range []*scan{c.msgScan(), c.uriScan()} {
		if s == nil {
			return
		}
		for _, n := range s.order {
			for _, ed := range n.edges {
				if ed.isRet && s.refused(ed) {
					continue
				}
				for _, a := range ed.tape {
					if a.kind == "store" {
						c.linked(s, ed, a, seen)
					}
				}
			}
		}
	}
	for _, k := range sortedKeys(mandatory) {
		if !seen[k] {
			c.unsure("no place found where the parsers link a %s", k)
		}
	}
}

// refused: the edge returns an error.
func (s *scan) refused(ed *scanEdge) bool {
	return ed.isRet && ed.ret.K == KTuple && len(ed.ret.El) == 2 && ed.st.nilness(ed.ret.El[1]) == 2
}

func (c *Check) linked(s *scan, ed *scanEdge, a scanAct, seen map[string]bool) {
	in, ok := a.in.(*ssa.Store)
	if !ok {
		return
	}
	t := derefType(in.Val.Type())
	if t == nil {
		return
	}
	nt, ok := t.(*types.Named)
	if !ok || mandatory[nt.Obj().Name()] == nil || nt.Obj().Pkg() != s.fn.Pkg.Pkg {
		return
	}
	v := a.vals[2]
	if v.K == KNil || ed.st.nilness(v) == 1 {
		return
	}
	name := nt.Obj().Name()
	where := c.p.pos(in.Pos())
	what := fmt.Sprintf("%s: %s", fnName(s.fn), name)
	l, ok := loc1(ed.st, v)
	if ed.st.nilness(v) != 2 || !ok {
		if v.K == KPtr && v.S != 0 && syms[v.S].Op == "init" {
			c.count("elements linked before", 1) // by another edge
			return
		}
		c.unsure("%s: what is linked at %s is not known", what, where)
		return
	}
	seen[name] = true
	c.count("elements linked", 1)
	for _, f := range mandatory[name] {
		ft := structFieldType(t, f)
		if ft == nil {
			c.unsure("%s has no field %s", name, f)
			continue
		}
		c.count("obligations", 1)
		if !filled(ed.st, ed.st.load(Loc{l.O, l.Path + "." + f}, ft), ft) {
			c.fail("incomplete element", where, what+"."+f, "a %s can be linked into the message with its %s missing", name, f)
		}
	}
}
