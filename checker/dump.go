package main

import (
	"fmt"
	"sort"
	"strings"
)

func (s *State) dump() string {
	var sb strings.Builder
	for i, f := range s.frames {
		fmt.Fprintf(&sb, "frame %d %s\n", i, f.fn)
		for _, k := range sortedRegs(f.regs) {
			fmt.Fprintf(&sb, "  %s = %s\n", k.Name(), render(f.regs[k]))
		}
	}
	fmt.Fprintf(&sb, "monkey %q\n", s.mon.Key)
	for _, k := range sortedKeys(s.mon.Vals) {
		fmt.Fprintf(&sb, "mon %s=%s\n", k, render(s.mon.Vals[k]))
	}
	var ol []*Obj
	for o := range s.heap {
		ol = append(ol, o)
	}
	sort.Slice(ol, func(i, k int) bool { return ol[i].ID < ol[k].ID })
	for _, o := range ol {
		if len(s.heap[o].cells) == 0 {
			continue
		}
		fmt.Fprintf(&sb, "obj %d %s v%d\n", o.ID, o.Name, s.heap[o].ver)
		for _, k := range sortedKeys(s.heap[o].cells) {
			fmt.Fprintf(&sb, "  %q = %s\n", k, render(s.heap[o].cells[k]))
		}
	}
	var xs []int
	for x := range s.facts {
		xs = append(xs, int(x))
	}
	sort.Ints(xs)
	for _, x := range xs {
		f := s.facts[Sym(x)]
		fmt.Fprintf(&sb, "fact %s: nil%d [%d,%d] set%v in%v out%v B%d pts%d alts%d\n", renderSym(Sym(x)), f.Nil, f.Lo, f.Hi, f.Set != nil, f.In, f.Out, f.B, len(f.Pts), len(f.Alts))
	}
	var zs []string
	for k, c := range s.zone {
		zs = append(zs, fmt.Sprintf("zone %s - %s <= %d", renderSym(k[0]), renderSym(k[1]), c))
	}
	sort.Strings(zs)
	sb.WriteString(strings.Join(zs, "\n"))
	return sb.String()
}
