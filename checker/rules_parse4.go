package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S05", "The message automaton is multiplied with the tree of all header names (recognised names in full and short form, letter case free, and everything else). For every name that a colon or blanks can follow, all fields stored before the next header begins are collected: they must be the header's own, or an extension header whose name is the text from the header's start to the end of its name.", checkS05)
}

// recognised headers: RFC 3261 and the extensions the message structure has fields for, with the
// short forms registered with IANA.
var headerNames = map[string]string{
	"Accept": "", "Accept-Contact": "a", "Accept-Encoding": "", "Accept-Language": "", "Allow": "", "Allow-Events": "u",
	"Alert-Info": "", "Authentication-Info": "", "Authorization": "", "Call-ID": "i", "Call-Info": "", "Contact": "m",
	"Content-Disposition": "", "Content-Encoding": "e", "Content-Language": "", "Content-Length": "l", "Content-Type": "c",
	"CSeq": "", "Date": "", "Error-Info": "", "Event": "o", "Expires": "", "From": "f", "In-Reply-To": "", "Max-Forwards": "",
	"Min-Expires": "", "MIME-Version": "", "Organization": "", "P-Asserted-Identity": "", "Priority": "", "Proxy-Authenticate": "",
	"Proxy-Authorization": "", "Proxy-Require": "", "Record-Route": "", "Refer-To": "r", "Referred-By": "b", "Remote-Party-ID": "",
	"Reply-To": "", "Require": "", "Retry-After": "", "Route": "", "Server": "", "Subject": "s", "Supported": "k", "Timestamp": "",
	"To": "t", "Unsupported": "", "User-Agent": "", "Via": "v", "Warning": "", "WWW-Authenticate": "",
}

// headerFields is what each header may fill.
func headerFields(name string) []string {
	switch name {
	case "Content-Type":
		return []string{"#type"}
	case "Content-Length":
		return []string{"#length"}
	case "CSeq":
		return []string{"CSeq", "CSeqMethod"}
	}
	return []string{strings.ReplaceAll(name, "-", "")}
}

type nameTrie struct {
	kids map[string]map[byte]bool // prefix -> next letters
	full map[string]string        // spelling -> header
}

func newTrie() *nameTrie {
	t := &nameTrie{kids: map[string]map[byte]bool{}, full: map[string]string{}}
	add := func(w, h string) {
		w = strings.ToLower(w)
		t.full[w] = h
		for i := range w {
			m := t.kids[w[:i]]
			if m == nil {
				m = map[byte]bool{}
				t.kids[w[:i]] = m
			}
			m[w[i]] = true
		}
	}
	for h, s := range headerNames {
		add(h, h)
		if s != "" {
			add(s, h)
		}
	}
	return t
}

const tokenChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-.!%*_+`'~"

func charSet(s string) (r [4]uint64) {
	for i := 0; i < len(s); i++ {
		r[s[i]/64] |= 1 << (s[i] % 64)
	}
	return
}

func letterSet(b byte) [4]uint64 {
	return charSet(strings.ToLower(string(b)) + strings.ToUpper(string(b)))
}

func meets(a, b *[4]uint64) bool {
	for i := range a {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

// elemSet: the bytes the k-th element of a path stands for. '*' is a token character no recognised
// name continues with, '+' any further ones, ' ' a blank, '_' further ones.
func (t *nameTrie) elemSet(path string, k int) [4]uint64 {
	switch c := path[k]; c {
	case '*':
		return t.others(path[:k])
	case '+':
		return charSet(tokenChars)
	case ' ', '_':
		return charSet(" \t")
	case ':':
		return charSet(":")
	default:
		return letterSet(c)
	}
}

func (t *nameTrie) others(prefix string) [4]uint64 {
	r := charSet(tokenChars)
	for c := range t.kids[prefix] {
		x := letterSet(c)
		for i := range r {
			r[i] &^= x[i]
		}
	}
	return r
}

// next: the elements that can follow a path.
func (t *nameTrie) next(path string) []string {
	if path == "" {
		var r []string
		for c := range t.kids[""] {
			r = append(r, string(c))
		}
		sort.Strings(r)
		return append(r, "*")
	}
	switch path[len(path)-1] {
	case ' ', '_':
		return []string{"_", ":"}
	case '*', '+':
		return []string{"+", " ", ":"}
	}
	var r []string
	for c := range t.kids[path] {
		r = append(r, string(c))
	}
	sort.Strings(r)
	return append(r, "*", " ", ":")
}

func extend(path, el string) string {
	if el == "+" && strings.HasSuffix(path, "+") || el == "_" && strings.HasSuffix(path, "_") {
		return path
	}
	return path + el
}

func exactPath(path string) bool { return !strings.ContainsAny(path, "+_") }

// nameOf: the name a path spells, without what follows it.
func headerName(path string) string { return strings.TrimRight(path, " _:") }

func (t *nameTrie) class(path string) string {
	n := headerName(path)
	if strings.ContainsAny(n, "*+") {
		return "other"
	}
	if h, ok := t.full[n]; ok {
		return h
	}
	return "other"
}

type hdrState struct {
	n     *scanNode
	path  string // "=" + class once the value has begun
	r     int64  // next unread byte, from the cursor
	bind  string
	class string
}

type hdrWalk struct {
	c       *Check
	s       *scan
	t       *nameTrie
	heads   map[*scanNode]bool
	kept    map[*scanNode]map[ssa.Value]bool // registers that live to the end of the parser
	seen    map[hdrState]hdrState
	work    []hdrState
	eff     map[string]map[string]string // class -> effect -> where
	bad     map[string]bool
	names   int
	partial bool
}

// bindings of a state: register name -> what it is
func parseBind(s string) map[string]string {
	m := map[string]string{}
	for _, f := range strings.Split(s, ";") {
		if i := strings.Index(f, "="); i > 0 {
			m[f[:i]] = f[i+1:]
		}
	}
	return m
}

func formatBind(m map[string]string) string {
	var r []string
	for k, v := range m {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return strings.Join(r, ";")
}

func isPP(t types.Type, name string) bool {
	p := derefType(t)
	if p == nil {
		return false
	}
	q := derefType(p)
	if q == nil {
		return false
	}
	n, ok := q.(*types.Named)
	return ok && n.Obj().Name() == name
}

func isPString(t types.Type) bool {
	p := derefType(t)
	return p != nil && isStr(p)
}

// keptRegs finds the registers that decide the payload, copies followed.
func (s *scan) keptRegs() map[*scanNode]map[ssa.Value]bool {
	kept := map[*scanNode]map[ssa.Value]bool{}
	put := func(n *scanNode, v ssa.Value) bool {
		if kept[n] == nil {
			kept[n] = map[ssa.Value]bool{}
		}
		if kept[n][v] {
			return false
		}
		kept[n][v] = true
		return true
	}
	for _, n := range s.order {
		ret := false
		for _, ed := range n.edges {
			for _, a := range ed.tape {
				ret = ret || a.kind == "store" && s.fieldAt(a.vals[0]) == "Payload"
			}
		}
		if !ret {
			continue
		}
		for _, v := range n.live {
			if !s.once[v] && !s.cursor[v] && (isStr(v.Type()) || isInt(v.Type())) && !s.consts[v] {
				put(n, v)
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, n := range s.order {
			if n.entry == nil {
				continue
			}
			for _, ed := range n.edges {
				if ed.to == nil {
					continue
				}
				for w := range kept[ed.to] {
					x, ok := ed.env[w]
					if !ok {
						continue
					}
					for _, v := range n.live {
						if y, ok := n.entry.top().regs[v]; ok && valEq(x, y) && x.S != 0 && put(n, v) {
							ch = true
						}
						// what is appended to
						if y, ok := n.entry.top().regs[v]; ok && x.K == KInt && x.S != 0 && y.S != 0 && y.K == KInt && !s.cursor[v] {
							if f, _, ok := linOf(ed.st, x); ok && f.c[y.S] == 10 && put(n, v) {
								ch = true
							}
						}
					}
				}
			}
		}
	}
	return kept
}

func checkS05(c *Check) {
	c.rules = append(c.rules, "own field", "extension name", "refused name", "extension list", "last of list")
	s := c.msgScan()
	if s == nil {
		return
	}
	c.lastOfList()
	h := &hdrWalk{c: c, s: s, t: newTrie(), heads: map[*scanNode]bool{}, seen: map[hdrState]hdrState{}, eff: map[string]map[string]string{}, bad: map[string]bool{}}
	h.kept = s.keptRegs()
	h.findHeads()
	if len(h.heads) == 0 {
		c.unsure("the place where a header begins was not found")
		return
	}
	blocks := map[*ssa.BasicBlock]bool{}
	for n := range h.heads {
		blocks[n.b] = true
	}
	for _, n := range s.order {
		if blocks[n.b] {
			h.heads[n] = true
		}
	}
	for n := range h.heads {
		h.add(hdrState{n: n, r: 0, bind: h.fresh(n)})
	}
	for len(h.work) > 0 {
		x := h.work[len(h.work)-1]
		h.work = h.work[:len(h.work)-1]
		h.step(x)
		if len(h.seen) > 400000 {
			c.unsure("too many states of header names")
			h.partial = true
			break
		}
	}
	h.judge()
}

// fresh: at a header's beginning the list of Via is the message's, everything else is left over.
func (h *hdrWalk) fresh(n *scanNode) string {
	m := map[string]string{}
	for _, v := range n.live {
		if isPP(v.Type(), "Via") {
			m[v.Name()] = "Via"
		}
	}
	return formatBind(m)
}

func (h *hdrWalk) add(x hdrState) {
	if _, ok := h.seen[x]; !ok {
		h.seen[x] = x
		h.work = append(h.work, x)
	}
}

// findHeads follows one start line.
func (h *hdrWalk) findHeads() {
	for deep := 0; deep < 3 && len(h.heads) == 0; deep++ {
		h.findHeadsBy(deep)
	}
}

func (h *hdrWalk) findHeadsBy(deep int) {
	type pos struct {
		n *scanNode
		i int64
	}
	line := "SIP/2.0 200 OK\r\n"
	seen := map[pos]bool{}
	work := []pos{{h.s.start, 0}}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, ed := range x.n.edges {
			if ed.to == nil {
				continue
			}
			ok := true
			for o, set := range ed.look {
				if i := x.i + o; i >= 0 && i < int64(len(line)) && !setHas(set, int(line[i])) {
					ok = false
				} else if i >= int64(len(line)) && !setHas(set, 'X') {
					ok = false
				}
			}
			d, known := offsetFrom(ed.p, x.n.p)
			if !ok || !known {
				continue
			}
			// the input does not end here
			if ed.st.subUB(h.s.n, ed.p) <= 1 {
				continue
			}
			y := pos{ed.to, x.i + d}
			if y.i >= int64(len(line)) {
				if y.i == int64(len(line)) && h.onward(ed.to, deep) {
					h.heads[ed.to] = true
				}
				continue
			}
			if !seen[y] {
				seen[y] = true
				work = append(work, y)
			}
		}
	}
}

// onward: the node goes on to look at the byte after the cursor.
func (h *hdrWalk) onward(n *scanNode, deep int) bool {
	for _, ed := range n.edges {
		if ed.to == nil {
			continue
		}
		if d, ok := offsetFrom(ed.p, n.p); ok && (d == 1 || d == 0 && deep > 0 && ed.to != n && h.onward(ed.to, deep-1)) {
			return true
		}
	}
	return false
}

func (h *hdrWalk) step(x hdrState) {
	c, s := h.c, h.s
	for _, ed := range x.n.edges {
		if x.class != "" {
			if ed.to == nil || ed.isRet && s.refused(ed) {
				continue
			}
			h.effects(x, ed)
			if b := h.rebind(x, ed); !h.heads[ed.to] {
				h.add(hdrState{n: ed.to, class: x.class, bind: b})
			} else {
				h.ends(x, ed, b)
			}
			continue
		}
		// the input ends
		if s.endsBy(ed, x.n, x.r) {
			continue
		}
		paths := []string{x.path}
		feasible := true
		reads := false
		var offs []int64
		for o := range ed.look {
			offs = append(offs, o)
		}
		if ed.look[0] == nil && x.n.facts != nil && x.n.facts.set != fullSet() {
			offs = append(offs, 0)
		}
		sort.Slice(offs, func(i, j int) bool { return offs[i] < offs[j] })
		valueBegins := false
		for _, o := range offs {
			set := x.n.byteAt(ed, o)
			j := o - x.r
			switch {
			case j < 0:
				k := int64(len(x.path)) + j
				if exactPath(x.path) && k >= 0 {
					e := h.t.elemSet(x.path, int(k))
					if !meets(set, &e) {
						feasible = false
					}
				} else if j == -1 && len(x.path) > 0 {
					e := h.t.elemSet(x.path, len(x.path)-1)
					if !meets(set, &e) {
						feasible = false
					}
				}
			case j == 0:
				reads = true
				if strings.HasSuffix(x.path, ":") {
					valueBegins = true
					break
				}
				paths = nil
				for _, el := range h.t.next(x.path) {
					p := extend(x.path, el)
					e := h.t.elemSet(p, len(p)-1)
					if meets(set, &e) {
						paths = append(paths, p)
					}
				}
				feasible = feasible && len(paths) > 0
			}
		}
		if !feasible {
			continue
		}
		if ed.isRet || ed.to == nil {
			if s.refused(ed) && x.path != "" && !valueBegins {
				h.refuse(x, ed)
			}
			continue
		}
		if valueBegins {
			cl := h.t.class(x.path)
			h.names++
			y := x
			y.class = cl
			h.effects(y, ed)
			if b := h.rebind(x, ed); !h.heads[ed.to] {
				h.add(hdrState{n: ed.to, class: cl, bind: b})
			} else {
				h.ends(y, ed, b)
			}
			continue
		}
		d, known := offsetFrom(ed.p, x.n.p)
		for _, p := range paths {
			y := hdrState{n: ed.to, path: p}
			z := x
			if reads {
				z.r = x.r + 1
			}
			z.path = p
			if ed.p.K == KUndef {
				// no cursor in between: it is set again from a mark
			} else if known {
				y.r = z.r - d
			} else {
				k, ok := h.index(z, ed.p)
				if !ok || !exactPath(p) {
					c.unsure("the cursor is put back to an unknown place within a header name at %s", c.p.pos(s.edgePos(ed)))
					continue
				}
				y.r = int64(len(p)) - k
			}
			y.bind = h.rebind(z, ed)
			if p != "" {
				y2 := z
				y2.class = h.t.class(p)
				if !strings.HasSuffix(p, ":") {
					y2.class = "?" // not decided yet
				}
				h.effects(y2, ed)
			}
			h.add(y)
		}
	}
}

// ends: a header ends; what the next one starts from.
func (h *hdrWalk) ends(x hdrState, ed *scanEdge, bind string) {
	m := parseBind(bind)
	for w := range parseBind(h.fresh(ed.to)) {
		if m[w] != "Via" {
			h.effect(x.class, "!the list of Via hops so that the next hop is not put at its end", h.c.p.pos(h.s.edgePos(ed)))
		}
	}
}

// endsBy: the input is known to end before the byte at the offset.
func (s *scan) endsBy(ed *scanEdge, n *scanNode, r int64) bool {
	return ed.st.subUB(s.n, Val{K: KInt, S: n.p.S, N: n.p.N + r}) <= 0
}

// index: the position of an integer value from the header's start.
func (h *hdrWalk) index(x hdrState, v Val) (int64, bool) {
	if d, ok := offsetFrom(v, x.n.p); ok {
		if !exactPath(x.path) {
			return 0, false
		}
		return int64(len(x.path)) - x.r + d, true
	}
	b := parseBind(x.bind)
	for _, w := range x.n.ints {
		y, ok := x.n.entry.top().regs[w]
		if !ok || y.S == 0 {
			continue
		}
		if d, ok := offsetFrom(v, y); ok {
			var k int64
			if f := b[w.Name()]; strings.HasPrefix(f, "@") {
				fmt.Sscanf(f[1:], "%d", &k)
				return k + d, true
			}
		}
	}
	return 0, false
}

// rebind: what the registers are after an edge.
func (h *hdrWalk) rebind(x hdrState, ed *scanEdge) string {
	old := parseBind(x.bind)
	m := map[string]string{}
	regs := x.n.entry.top().regs
	for _, w := range ed.to.live {
		t := w.Type()
		v, ok := ed.env[w]
		if !ok {
			continue
		}
		switch {
		case isPString(t) || isPP(t, "Addr") || isPP(t, "Via"):
			if b := h.place(x, ed, v, w, old, regs); b != "" {
				m[w.Name()] = b
			}
		case isInt(t) && !h.s.cursor[w] && !h.s.once[w] && !h.s.consts[w]:
			if x.class != "" {
				break
			}
			if k, ok := h.index(x, v); ok && v.S != 0 {
				m[w.Name()] = fmt.Sprintf("@%d", k)
			}
		case isStr(t):
			if v.S == 0 {
				break
			}
			found := false
			for _, u := range x.n.live {
				if y, ok := regs[u]; ok && isStr(u.Type()) && valEq(v, y) {
					found = true
					if b := old[u.Name()]; b != "" {
						m[w.Name()] = b
					}
				}
			}
			if !found && x.class == "" {
				m[w.Name()] = h.text(x, v, ed)
			}
		}
	}
	return formatBind(m)
}

// text: is this the header's name?
func (h *hdrWalk) text(x hdrState, v Val, ed *scanEdge) string {
	b, ok := h.s.texts[v.S]
	if !ok || v.N != 0 {
		return "?"
	}
	if b.El[0].K != KPtr || !valEq(b.El[0], h.s.args[h.s.data].El[0]) {
		return "?"
	}
	end, ok := sumVal(ed.st, b.El[1], b.El[2])
	from, ok2 := h.index(x, b.El[1])
	if !ok || !ok2 {
		return "?"
	}
	d, ok := offsetFrom(end, x.n.p)
	if !ok {
		return "?"
	}
	n := x.path
	if len(n) < 2 || !strings.ContainsAny(n[len(n)-1:], " :") || strings.ContainsAny(n[len(n)-2:len(n)-1], " _") || from != 0 || d != x.r-1 {
		return "badname"
	}
	return "name"
}

// sumVal adds an offset and a length written as a difference.
func sumVal(st *State, a, b Val) (Val, bool) {
	f, _, ok := linOf(st, a)
	g, _, ok2 := linOf(st, b)
	if !ok || !ok2 {
		return undef, false
	}
	for s, n := range g.c {
		f.c[s] += n
		if f.c[s] == 0 {
			delete(f.c, s)
		}
	}
	f.k += g.k
	switch len(f.c) {
	case 0:
		return iconst(f.k), true
	case 1:
		for s, n := range f.c {
			if n == 1 {
				return Val{K: KInt, S: s, N: f.k}, true
			}
		}
	}
	return undef, false
}

// place: which field a pointer leads to.
func (h *hdrWalk) place(x hdrState, ed *scanEdge, v Val, w ssa.Value, old map[string]string, regs map[ssa.Value]Val) string {
	if v.K == KNil || ed.st.nilness(v) == 1 {
		return "nil"
	}
	if v.S != 0 {
		for _, u := range x.n.live {
			if y, ok := regs[u]; ok && y.S == v.S && y.K == v.K {
				f := old[u.Name()]
				if f == "" || strings.HasSuffix(f, "!") || isPString(w.Type()) {
					return f
				}
				for _, a := range ed.tape {
					if a.kind == "store" && a.vals[0].L.O == objOfSym(y.S) && a.vals[0].L.Path == "" {
						return f + "!"
					}
				}
				return f
			}
		}
		// the end of a list
		found := ""
		for _, a := range ed.tape {
			if a.kind == "call" && len(a.vals) == 1 {
				if call, ok := a.in.(*ssa.Call); ok && types.Identical(call.Type(), w.Type()) {
					if f := h.s.fieldAt(a.vals[0]); f != "" && found == "" {
						found = f
					} else {
						found = "?"
					}
				}
			}
		}
		if found != "" {
			return found
		}
		return "?"
	}
	if f := h.s.fieldAt(v); f != "" {
		if !isPString(w.Type()) && ed.st.nilness(ed.st.load(v.L, derefType(w.Type()))) != 1 {
			f += "!" // the front of a list
		}
		return f
	}
	if v.L.O != nil && v.L.Path == ".Next" {
		for _, a := range ed.tape {
			if a.kind == "store" && a.vals[2].K == KPtr && a.vals[2].L.O == v.L.O {
				return strings.TrimSuffix(h.storedAt(x, a.vals[0], old, regs), "!")
			}
		}
	}
	return "?"
}

// fieldAt: a place within the message itself.
func (s *scan) fieldAt(v Val) string {
	if v.K != KPtr || v.S != 0 || v.L.O == nil || !strings.HasPrefix(v.L.Path, ".") {
		return ""
	}
	if n, ok := v.L.O.Type.(*types.Named); !ok || n.Obj().Name() != "Msg" {
		return ""
	}
	f := v.L.Path[1:]
	if i := strings.IndexAny(f, ".["); i >= 0 {
		f = f[:i]
	}
	return f
}

// storedAt: the field a stored-to place belongs to; "" is a pointer left over from before.
func (h *hdrWalk) storedAt(x hdrState, loc Val, old map[string]string, regs map[ssa.Value]Val) string {
	if f := h.s.fieldAt(loc); f != "" {
		return f
	}
	for _, u := range x.n.live {
		y, ok := regs[u]
		if !ok || y.K != KPtr {
			continue
		}
		if y.S != 0 && loc.L.O != nil && loc.L.Path == "" && objOfSym(y.S) == loc.L.O {
			return old[u.Name()]
		}
	}
	return "?"
}

func (h *hdrWalk) lost(class, f, where string) {
	h.effect(class, "!its list where it is not shown to end, so that elements added before are dropped", where)
}

func (h *hdrWalk) effect(class, eff, where string) {
	if h.eff[class] == nil {
		h.eff[class] = map[string]string{}
	}
	if _, ok := h.eff[class][eff]; !ok {
		h.eff[class][eff] = where
	}
}

func (h *hdrWalk) effects(x hdrState, ed *scanEdge) {
	old := parseBind(x.bind)
	regs := x.n.entry.top().regs
	where := h.c.p.pos(h.s.edgePos(ed))
	for _, a := range ed.tape {
		if a.kind != "store" {
			continue
		}
		loc := a.vals[0]
		if loc.L.O == nil {
			continue
		}
		if h.s.fieldAt(loc) == "" {
			// inside something being built, or through a pointer
			through := false
			for _, u := range x.n.live {
				if y, ok := regs[u]; ok && y.K == KPtr && y.S != 0 && (isPString(u.Type()) || isPP(u.Type(), "Addr") || isPP(u.Type(), "Via")) && objOfSym(y.S) == loc.L.O {
					through = true
				}
			}
			if !through {
				continue
			}
		}
		if in, ok := a.in.(*ssa.Store); ok {
			where = h.c.p.pos(in.Pos())
		}
		f := h.storedAt(x, loc, old, regs)
		if f == "XHeader" {
			f = h.xheader(x, ed, a, old, regs)
		}
		if strings.HasSuffix(f, "!") {
			h.lost(x.class, f, where)
			f = strings.TrimSuffix(f, "!")
		}
		if f == "" {
			f = "!a field chosen by an earlier header"
		}
		h.effect(x.class, f, where)
	}
	for w := range h.kept[ed.to] {
		v, ok := ed.env[w]
		if !ok || v.isConstInt() || v.isConstStr() {
			continue
		}
		copied := false
		for u := range h.kept[x.n] {
			if y, ok := regs[u]; ok && valEq(y, v) {
				copied = true
			}
		}
		if copied {
			continue
		}
		if isStr(w.Type()) {
			h.effect(x.class, "#type", where)
		} else {
			h.effect(x.class, "#length", where)
		}
	}
}

func (h *hdrWalk) xheader(x hdrState, ed *scanEdge, a scanAct, old map[string]string, regs map[ssa.Value]Val) string {
	l, ok := loc1(ed.st, a.vals[2])
	if !ok {
		return "?"
	}
	tt := l.O.Type
	v := ed.st.load(Loc{l.O, l.Path + ".Name"}, types.Typ[types.String])
	nx := ed.st.load(Loc{l.O, l.Path + ".Next"}, structFieldType(tt, "Next"))
	if w, ok := n0(x.n.entry, a.vals[0].L); ok && !valEq(nx, w) {
		h.effect(x.class, "!an extension list without the earlier headers", h.c.p.pos(h.s.edgePos(ed)))
	}
	for _, u := range x.n.live {
		if y, ok := regs[u]; ok && isStr(u.Type()) && valEq(y, v) {
			switch old[u.Name()] {
			case "name":
				return "XHeader"
			case "badname":
				return "!an extension header under a name other than the one written"
			case "":
				return "!an extension header under an earlier header's name"
			}
		}
	}
	return "?"
}

// n0: what a place held at the node.
func n0(st *State, l Loc) (Val, bool) {
	n, ok := l.O.Type.(*types.Named)
	if !ok || len(l.Path) < 2 {
		return undef, false
	}
	t := structFieldType(n, l.Path[1:])
	if t == nil {
		return undef, false
	}
	return st.load(l, t), true
}

func (h *hdrWalk) refuse(x hdrState, ed *scanEdge) {
	n := headerName(x.path)
	if h.bad[n] {
		return
	}
	h.bad[n] = true
	k := "an unrecognised header name"
	if cl := h.t.class(x.path); cl != "other" {
		k = "the header name " + cl
	}
	h.c.fail("refused name", h.c.p.pos(h.s.edgePos(ed)), fmt.Sprintf("%s: name %q", fnName(h.s.fn), show(x.path)), "%s written as %q makes the parser refuse the message", k, show(x.path))
}

func show(p string) string {
	p = strings.ReplaceAll(p, "*", "<other>")
	p = strings.ReplaceAll(p, "+", "<more>")
	return strings.ReplaceAll(p, "_", " ")
}

func (h *hdrWalk) judge() {
	c := h.c
	what := func(n string) string { return fmt.Sprintf("%s: header %s", fnName(h.s.fn), n) }
	for n := range headerNames {
		want := map[string]bool{}
		for _, f := range headerFields(n) {
			want[f] = true
		}
		c.count("recognised names", 1)
		h.compare(n, what(n), want)
	}
	h.compare("other", what("other"), map[string]bool{"XHeader": true})
	h.compare("?", what("before the colon"), map[string]bool{})
	c.count("name states", len(h.seen))
	c.count("colons reached", h.names)
}

func (h *hdrWalk) compare(n, what string, want map[string]bool) {
	got := h.eff[n]
	for _, f := range sortedKeys(got) {
		switch {
		case want[f]:
		case f == "?":
			h.c.unsure("%s: stores to a place not understood at %s", what, got[f])
		case n == "?" && strings.HasPrefix(f, "#"):
			h.c.unsure("%s: %s changes at %s", what, f, got[f])
		case strings.HasPrefix(f, "!"):
			h.c.fail("own field", got[f], what, "fills %s", f[1:])
		default:
			h.c.fail("own field", got[f], what, "fills %s, which is not its own", f)
		}
	}
	for f := range want {
		if _, ok := got[f]; !ok && !h.partial {
			if _, un := got["?"]; un {
				continue
			}
			h.c.fail("own field", "", what, "never fills %s", f)
		}
	}
}

// lastOfList: the helper that finds where to append.
func (c *Check) lastOfList() {
	for _, fn := range c.p.funcs {
		sg := fn.Signature
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "sip" || sg.Recv() != nil || sg.Params().Len() != 1 || sg.Results().Len() != 1 || !isPP(sg.Params().At(0).Type(), "Addr") || !types.Identical(sg.Params().At(0).Type(), sg.Results().At(0).Type()) {
			continue
		}
		for n := 0; n <= 3; n++ {
			e := c.engine()
			e.concrete = true
			var want Val
			rs := e.run(fn, func(st *State, args []Val) []Val {
				head, els := c.list(st, "list", "sip.Addr", n)
				o := e.alloc(st, "list head", "list head", derefType(sg.Params().At(0).Type()), true)
				st.store(Loc{o, ""}, head, derefType(sg.Params().At(0).Type()))
				want = ploc(Loc{o, ""})
				if n > 0 {
					want = ploc(Loc{els[n-1], ".Next"})
				}
				st.setMonVal("$want", want)
				st.setMonVal("$h", ploc(Loc{o, ""}))
				return []Val{ploc(Loc{o, ""})}
			})
			for _, r := range rs {
				c.count("list ends", 1)
				w, _ := r.st.monVal("$want")
				if !valEq(r.v, w) {
					c.fail("last of list", c.p.pos(fn.Pos()), fnName(fn), "for a list of %d it does not return the place after the last element", n)
				}
			}
		}
	}
}
