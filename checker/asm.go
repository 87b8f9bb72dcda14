package main

import (
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ---- Plan 9 amd64 assembly: reading ----

type asmArg struct {
	kind string // reg, imm, mem, fp, label
	reg  string
	n    int64
	name string
}

type asmIns struct {
	op   string
	args []asmArg
	line int
}

type asmFn struct {
	name   string
	file   string
	ins    []asmIns
	labels map[string]int
	bad    string
}

// readAsm reads the assembly files of a package directory.
func readAsm(dir string) map[string]*asmFn {
	fns := map[string]*asmFn{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.s"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		defs := map[string]string{}
		var cur *asmFn
		for i, l := range strings.Split(string(b), "\n") {
			if k := strings.Index(l, "//"); k >= 0 {
				l = l[:k]
			}
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "#define") {
				p := strings.Fields(l)
				if len(p) == 3 {
					defs[p[1]] = p[2]
				}
				continue
			}
			if l == "" || l[0] == '#' {
				continue
			}
			for _, part := range strings.Split(l, ";") {
				part = strings.TrimSpace(part)
				for {
					k := strings.Index(part, ":")
					if k <= 0 || strings.ContainsAny(part[:k], " \t(,$") {
						break
					}
					if cur != nil {
						cur.labels[part[:k]] = len(cur.ins)
					}
					part = strings.TrimSpace(part[k+1:])
				}
				if part == "" {
					continue
				}
				op, rest, _ := strings.Cut(strings.ReplaceAll(part, "\t", " "), " ")
				var as []string
				depth := 0
				curA := ""
				for _, ch := range rest {
					switch ch {
					case '(':
						depth++
					case ')':
						depth--
					case ',':
						if depth == 0 {
							as = append(as, strings.TrimSpace(curA))
							curA = ""
							continue
						}
					}
					curA += string(ch)
				}
				if strings.TrimSpace(curA) != "" {
					as = append(as, strings.TrimSpace(curA))
				}
				if op == "TEXT" {
					n := as[0]
					n = strings.TrimSuffix(strings.TrimPrefix(n, "·"), "(SB)")
					n = strings.TrimSuffix(n, "<ABIInternal>")
					cur = &asmFn{name: n, file: f, labels: map[string]int{}}
					fns[n] = cur
					continue
				}
				if cur == nil {
					continue
				}
				in := asmIns{op: op, line: i + 1}
				for _, a := range as {
					if d, ok := defs[a]; ok {
						a = d
					}
					in.args = append(in.args, parseAsmArg(a, cur))
				}
				cur.ins = append(cur.ins, in)
			}
		}
	}
	return fns
}

var asmRegs = map[string]bool{"AX": true, "BX": true, "CX": true, "DX": true, "SI": true, "DI": true, "BP": true}

func isAsmReg(s string) bool {
	if asmRegs[s] {
		return true
	}
	if len(s) > 1 && (s[0] == 'R' || s[0] == 'X') {
		_, err := strconv.Atoi(s[1:])
		return err == nil
	}
	return false
}

func parseAsmArg(a string, f *asmFn) asmArg {
	switch {
	case strings.HasPrefix(a, "$"):
		n, err := strconv.ParseInt(strings.Trim(a[1:], "()"), 0, 64)
		if err != nil {
			f.bad = "operand " + a
		}
		return asmArg{kind: "imm", n: n}
	case strings.HasSuffix(a, "(FP)"):
		nm, off, _ := strings.Cut(strings.TrimSuffix(a, "(FP)"), "+")
		n, _ := strconv.ParseInt(off, 0, 64)
		return asmArg{kind: "fp", name: nm, n: n}
	case strings.HasSuffix(a, ")"):
		k := strings.Index(a, "(")
		r := a[k+1 : len(a)-1]
		n := int64(0)
		if k > 0 {
			var err error
			if n, err = strconv.ParseInt(a[:k], 0, 64); err != nil {
				f.bad = "operand " + a
			}
		}
		if !isAsmReg(r) {
			f.bad = "operand " + a
		}
		return asmArg{kind: "mem", reg: r, n: n}
	case isAsmReg(a):
		return asmArg{kind: "reg", reg: a}
	}
	return asmArg{kind: "label", name: a}
}

// ---- abstract values: a constant plus multiples of atoms ----

// An atom is the input x, or bit i of a base (an affine form of x whose range
// is known not to be negative), or the address of a frame.
type asmVal struct {
	c    int64
	co   map[string]int64
	lane string // 128-bit value
	bad  bool
}

func acst(n int64) asmVal { return asmVal{c: n} }

func (v asmVal) key() string {
	if v.bad {
		return "?"
	}
	if v.lane != "" {
		return v.lane
	}
	s := ""
	for _, k := range sortedKeys(v.co) {
		if v.co[k] != 0 {
			s += fmt.Sprintf("%+d*%s", v.co[k], k)
		}
	}
	return s + fmt.Sprintf("%+d", v.c)
}

func (v asmVal) isConst() bool {
	if v.bad || v.lane != "" {
		return false
	}
	for _, n := range v.co {
		if n != 0 {
			return false
		}
	}
	return true
}

func alin(a asmVal, k int64, b asmVal) asmVal {
	if a.bad || b.bad || a.lane != "" || b.lane != "" {
		return asmVal{bad: true}
	}
	r := asmVal{c: a.c + k*b.c, co: map[string]int64{}}
	for n, x := range a.co {
		r.co[n] += x
	}
	for n, x := range b.co {
		r.co[n] += k * x
		if r.co[n] == 0 {
			delete(r.co, n)
		}
	}
	return r
}

// asmRun interprets one function over one part of its inputs.
type asmRun struct {
	f      *asmFn
	lo, hi int64            // range of x
	known  map[string]int64 // bits decided by splitting
	reg    map[string]asmVal
	mem    map[string]asmVal // frame bytes written, by "dst+16"
	loads  map[string]int
	order  []string
	out    asmVal
	fl     struct {
		a, b asmVal
		kind string
	}
	split func(parts []*asmRun)
	width map[string]int // bits a base has
	vals  map[string]asmVal
	why   string
	line  int
	need  []*asmRun
	bases map[string]asmVal
	align map[int]string // accesses that must be aligned, by line
}

type asmErr string
type asmSplit struct{}

func (r *asmRun) fail(f string, a ...any) { panic(asmErr(fmt.Sprintf(f, a...))) }

func (r *asmRun) part(lo, hi int64, bit string, v int64) *asmRun {
	n := &asmRun{f: r.f, lo: lo, hi: hi, known: map[string]int64{}}
	for k, x := range r.known {
		n.known[k] = x
	}
	if bit != "" {
		n.known[bit] = v
	}
	return n
}

// splitAt divides the inputs below and from t on.
func (r *asmRun) splitAt(t int64) {
	if t <= r.lo || t > r.hi {
		r.fail("cannot divide the inputs at %d", t)
	}
	r.need = []*asmRun{r.part(r.lo, t-1, "", 0), r.part(t, r.hi, "", 0)}
	panic(asmSplit{})
}

func (r *asmRun) splitBit(b string) {
	r.need = []*asmRun{r.part(r.lo, r.hi, b, 0), r.part(r.lo, r.hi, b, 1)}
	panic(asmSplit{})
}

// rng is the range of a value.
func (r *asmRun) rng(v asmVal) (int64, int64) {
	if v.bad || v.lane != "" {
		r.fail("value not followed")
	}
	lo, hi := v.c, v.c
	for n, k := range v.co {
		l, h := int64(0), int64(1)
		if n == "x" {
			l, h = r.lo, r.hi
		} else if strings.HasPrefix(n, "&") {
			r.fail("address used as a number")
		}
		if k < 0 {
			l, h = h, l
		}
		lo += k * l
		hi += k * h
	}
	// the bits of one base together are its value
	return lo, hi
}

type asmBit struct {
	n    int64 // constant, when atom is empty
	atom string
	neg  bool
}

// bitsOf views a value as 64 bits.
func (r *asmRun) bitsOf(v asmVal) []asmBit {
	out := make([]asmBit, 64)
	if v.isConst() {
		for i := range out {
			out[i].n = v.c >> uint(i) & 1
		}
		return out
	}
	if v.bad || v.lane != "" {
		r.fail("value not followed")
	}
	if _, ok := v.co["x"]; ok {
		lo, hi := r.rng(v)
		if lo < 0 {
			r.fail("bits of a value that may be negative")
		}
		k := "(" + v.key() + ")"
		r.bases[k] = v
		for i := range out {
			switch {
			case i >= bits.Len64(uint64(hi)):
			case lo>>uint(i) == hi>>uint(i):
				out[i].n = lo >> uint(i) & 1
			default:
				out[i].atom = fmt.Sprintf("%s.%02d", k, i)
				if n, ok := r.known[out[i].atom]; ok {
					out[i] = asmBit{n: n}
				}
			}
		}
		return out
	}
	// a sum of distinct powers of two times bits; a negative multiple of a
	// bit is that of its complement plus a constant
	c := v.c
	at := map[int]asmBit{}
	for _, n := range sortedKeys(v.co) {
		k := v.co[n]
		neg := k < 0
		if neg {
			c += k
			k = -k
		}
		if k&(k-1) != 0 {
			r.fail("not a field of bits: %s", v.key())
		}
		i := bits.TrailingZeros64(uint64(k))
		if _, dup := at[i]; dup {
			r.fail("overlapping bits: %s", v.key())
		}
		at[i] = asmBit{atom: n, neg: neg}
	}
	for i := range out {
		out[i].n = c >> uint(i) & 1
		if b, ok := at[i]; ok {
			if out[i].n != 0 {
				r.fail("carry into a bit: %s", v.key())
			}
			out[i] = b
		}
	}
	return out
}

func (r *asmRun) fromBits(b []asmBit) asmVal {
	v := asmVal{co: map[string]int64{}}
	for i, x := range b {
		p := int64(1) << uint(i)
		switch {
		case x.atom == "":
			v.c += x.n * p
		case x.neg:
			v.c += p
			v.co[x.atom] -= p
		default:
			v.co[x.atom] += p
		}
	}
	return r.norm(v)
}

// norm puts in what is known of single bits.
func (r *asmRun) norm(v asmVal) asmVal {
	for n := range v.co {
		if x, ok := r.known[n]; ok {
			v.c += x * v.co[n]
			delete(v.co, n)
		}
	}
	return v
}

func (r *asmRun) bitop(op string, a, b asmVal) asmVal {
	x, y := r.bitsOf(a), r.bitsOf(b)
	o := make([]asmBit, 64)
	for i := range o {
		p, q := x[i], y[i]
		if p.atom == "" {
			p, q = q, p
		}
		if q.atom != "" {
			if p.atom == q.atom && p.neg == q.neg && op != "XOR" {
				o[i] = p
				continue
			}
			r.fail("two unknown bits combined")
		}
		if p.atom == "" {
			switch op {
			case "AND":
				o[i].n = p.n & q.n
			case "OR":
				o[i].n = p.n | q.n
			default:
				o[i].n = p.n ^ q.n
			}
			continue
		}
		switch {
		case op == "AND" && q.n == 0:
		case op == "OR" && q.n == 1:
			o[i].n = 1
		case op == "XOR" && q.n == 1:
			o[i] = asmBit{atom: p.atom, neg: !p.neg}
		default:
			o[i] = p
		}
	}
	return r.fromBits(o)
}

// number decides a value, dividing the inputs when it depends on bits.
func (r *asmRun) number(v asmVal) int64 {
	if v.isConst() {
		return v.c
	}
	if v.bad || v.lane != "" {
		r.fail("value not followed")
	}
	for _, n := range sortedKeys(v.co) {
		if n != "x" {
			r.splitBit(n)
		}
	}
	r.fail("a count depends on the input")
	return 0
}

func (r *asmRun) shift(v asmVal, n int64, left, arith bool) asmVal {
	if n < 0 || n > 62 {
		r.fail("shift by %d", n)
	}
	if left {
		w := asmVal{c: v.c << uint(n), co: map[string]int64{}}
		for k, x := range v.co {
			w.co[k] = x << uint(n)
		}
		if v.bad || v.lane != "" {
			r.fail("value not followed")
		}
		return w
	}
	b := r.bitsOf(v)
	o := make([]asmBit, 64)
	for i := range o {
		if i+int(n) < 64 {
			o[i] = b[i+int(n)]
		} else if arith {
			o[i] = b[63]
		}
	}
	return r.fromBits(o)
}

// cmp decides a comparison of a with b, dividing the inputs where needed.
func (r *asmRun) cmp(a, b asmVal) int {
	d := alin(a, -1, b)
	if d.isConst() {
		return sign(d.c)
	}
	lo, hi := r.rng(d)
	if lo > 0 {
		return 1
	}
	if hi < 0 {
		return -1
	}
	if k := d.co["x"]; len(d.co) == 1 && (k == 1 || k == -1) {
		// a zero of k*x + c
		z := -d.c * k
		if r.lo == r.hi {
			return sign(k*r.lo + d.c)
		}
		if z > r.lo {
			r.splitAt(z)
		}
		r.splitAt(z + 1)
	}
	for _, n := range sortedKeys(d.co) {
		if n != "x" {
			r.splitBit(n)
		}
	}
	r.fail("comparison not decided: %s", d.key())
	return 0
}

func sign(n int64) int {
	switch {
	case n > 0:
		return 1
	case n < 0:
		return -1
	}
	return 0
}

func (r *asmRun) get(a asmArg) asmVal {
	switch a.kind {
	case "imm":
		return acst(a.n)
	case "reg":
		v, ok := r.reg[a.reg]
		if !ok {
			r.fail("register %s used before it is set", a.reg)
		}
		return v
	case "fp":
		v, ok := r.vals[fmt.Sprintf("%s+%d", a.name, a.n)]
		if !ok {
			r.fail("argument %s+%d(FP)", a.name, a.n)
		}
		return v
	}
	r.fail("operand not followed")
	return asmVal{}
}

// addr is the frame and offset of a memory operand.
func (r *asmRun) addr(a asmArg) (string, int64) {
	v := alin(r.get(asmArg{kind: "reg", reg: a.reg}), 1, acst(a.n))
	for n, k := range v.co {
		if strings.HasPrefix(n, "&") && k == 1 && len(v.co) == 1 {
			return n[1:], v.c
		}
	}
	r.fail("address not followed: %s", v.key())
	return "", 0
}

func (r *asmRun) load128(a asmArg) string {
	f, o := r.addr(a)
	r.loads[fmt.Sprintf("%s%+d", f, o)] = r.line
	for k := range r.mem {
		i := strings.LastIndexAny(k, "+-")
		n, _ := strconv.ParseInt(k[i:], 10, 64)
		if k[:i] == f && n != o && n < o+16 && o < n+16 {
			r.fail("overlapping accesses to %s", f)
		}
	}
	if v, ok := r.mem[fmt.Sprintf("%s%+d", f, o)]; ok {
		return v.lane
	}
	return fmt.Sprintf("%s[%d]", f, o)
}

func (r *asmRun) run() (err string) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case asmErr:
			err = fmt.Sprintf("line %d: %s", r.line, string(x))
		case asmSplit:
			err = "split"
		default:
			panic(x)
		}
	}()
	r.reg, r.mem, r.loads, r.bases, r.align = map[string]asmVal{}, map[string]asmVal{}, map[string]int{}, map[string]asmVal{}, map[int]string{}
	steps := 0
	for pc := 0; ; {
		if pc >= len(r.f.ins) {
			r.fail("falls off the end")
		}
		in := r.f.ins[pc]
		r.line = in.line
		if steps++; steps > 20000 {
			r.fail("too many steps")
		}
		pc++
		a := in.args
		n := len(a)
		set := func(v asmVal) { r.reg[a[n-1].reg] = r.norm(v) }
		dst := func() asmVal { return r.get(a[n-1]) }
		if in.op == "NOP" || in.op == "PCALIGN" {
			continue
		}
		if in.op != "RET" && in.op[0] != 'J' && (n == 0 || a[n-1].kind != "reg" && in.op != "CMPQ" && in.op != "TESTQ" && a[n-1].kind != "fp" && a[n-1].kind != "mem") {
			r.fail("%s not followed", in.op)
		}
		jump := func(c bool) {
			if !c {
				return
			}
			t, ok := r.f.labels[a[0].name]
			if !ok {
				r.fail("jump to %s", a[0].name)
			}
			pc = t
		}
		flags := func() int {
			if r.fl.kind == "" {
				r.fail("flags not followed")
			}
			return r.cmp(r.fl.a, r.fl.b)
		}
		arith := func(v asmVal) {
			set(v)
			r.fl.a, r.fl.b, r.fl.kind = r.get(a[n-1]), acst(0), "res"
		}
		switch in.op {
		case "RET":
			return ""
		case "MOVQ":
			switch a[1].kind {
			case "reg":
				r.reg[a[1].reg] = r.get(a[0])
			case "fp":
				r.out = r.get(a[0])
				r.vals["out"] = r.out
			default:
				r.fail("store not followed")
			}
		case "MOVO", "MOVOU", "MOVOA", "MOVUPS", "MOVAPS":
			if in.op != "MOVOU" && in.op != "MOVUPS" && (a[0].kind == "mem" || a[1].kind == "mem") {
				r.align[in.line] = in.op
			}
			switch {
			case a[0].kind == "mem":
				r.reg[a[1].reg] = asmVal{lane: r.load128(a[0])}
			case a[1].kind == "mem":
				f, o := r.addr(a[1])
				k := fmt.Sprintf("%s%+d", f, o)
				for q := range r.mem {
					i := strings.LastIndexAny(q, "+-")
					m, _ := strconv.ParseInt(q[i:], 10, 64)
					if q[:i] == f && m != o && m < o+16 && o < m+16 {
						r.fail("overlapping stores to %s", f)
					}
				}
				v := r.get(a[0])
				if v.lane == "" {
					r.fail("store of a value not followed")
				}
				r.mem[k] = v
				r.order = append(r.order, k)
			default:
				r.reg[a[1].reg] = r.get(a[0])
			}
		case "PADDSW", "PADDW", "PADDUSW", "PADDSB", "PADDB", "PADDL", "PADDQ", "PSUBSW":
			var x string
			if a[0].kind == "mem" {
				r.align[in.line] = in.op
				x = r.load128(a[0])
			} else {
				x = r.get(a[0]).lane
			}
			y := r.get(a[1]).lane
			if x == "" || y == "" {
				r.fail("%s of values not followed", in.op)
			}
			if in.op[1] != 'S' && x > y {
				x, y = y, x
			}
			r.reg[a[1].reg] = asmVal{lane: in.op + "(" + x + "," + y + ")"}
		case "ADDQ":
			arith(alin(dst(), 1, r.get(a[0])))
		case "SUBQ":
			x, y := dst(), r.get(a[0])
			set(alin(x, -1, y))
			r.fl.a, r.fl.b, r.fl.kind = x, y, "cmp"
		case "INCQ":
			arith(alin(dst(), 1, acst(1)))
		case "DECQ":
			arith(alin(dst(), -1, acst(1)))
		case "NEGQ":
			arith(alin(acst(0), -1, dst()))
		case "NOTQ":
			set(alin(acst(-1), -1, dst()))
		case "LEAQ":
			if a[0].kind != "mem" {
				r.fail("LEAQ not followed")
			}
			r.reg[a[1].reg] = alin(r.get(asmArg{kind: "reg", reg: a[0].reg}), 1, acst(a[0].n))
		case "ANDQ":
			arith(r.bitop("AND", dst(), r.get(a[0])))
		case "ORQ":
			arith(r.bitop("OR", dst(), r.get(a[0])))
		case "XORQ":
			if a[0].kind == "reg" && a[0].reg == a[1].reg {
				arith(acst(0))
			} else {
				arith(r.bitop("XOR", dst(), r.get(a[0])))
			}
		case "SHLQ", "SARQ", "SHRQ":
			k := r.number(r.get(a[0]))
			arith(r.shift(dst(), k&63, in.op == "SHLQ", in.op == "SARQ"))
		case "BSRQ":
			v := r.get(a[0])
			b := r.bitsOf(v)
			set(acst(r.top(b)))
			r.fl.kind = ""
		case "CMPQ":
			r.fl.a, r.fl.b, r.fl.kind = r.get(a[0]), r.get(a[1]), "cmp"
		case "TESTQ":
			r.fl.a, r.fl.b, r.fl.kind = r.get(a[0]), acst(0), "cmp"
			if a[0] != a[1] {
				r.fl.a = r.bitop("AND", r.get(a[0]), r.get(a[1]))
			}
		case "JMP":
			jump(true)
		case "JS", "JMI", "JLT", "JL":
			jump(flags() < 0)
		case "JNS", "JPL", "JGE":
			jump(flags() >= 0)
		case "JGT", "JG":
			jump(flags() > 0)
		case "JLE":
			jump(flags() <= 0)
		case "JE", "JEQ", "JZ":
			jump(flags() == 0)
		case "JNE", "JNZ":
			jump(flags() != 0)
		default:
			r.fail("instruction %s is not followed", in.op)
		}
	}
}

// top is the position of the highest bit set; the inputs are divided where
// it changes.
func (r *asmRun) top(b []asmBit) int64 {
	for i := 63; i >= 0; i-- {
		if b[i].atom == "" {
			if b[i].n == 1 {
				return int64(i)
			}
			continue
		}
		// unknown: divide at the value where this bit sets in
		k, _, _ := strings.Cut(b[i].atom, ").")
		base, ok := r.bases[k+")"]
		if !ok {
			r.splitBit(b[i].atom)
		}
		p := int64(1) << uint(i)
		// base = c ± x reaches p
		if base.co["x"] == 1 {
			r.splitAt(p - base.c)
		}
		if base.co["x"] == -1 {
			r.splitAt(base.c - p + 1)
		}
		r.splitBit(b[i].atom)
	}
	r.fail("highest bit of zero")
	return 0
}

// asmCover interprets a function over all inputs, divided as needed.
func asmCover(f *asmFn, lo, hi int64, bitsIn int, vals func(r *asmRun) map[string]asmVal) (done []*asmRun, err string) {
	work := []*asmRun{{f: f, lo: lo, hi: hi, known: map[string]int64{}}}
	for len(work) > 0 {
		r := work[len(work)-1]
		work = work[:len(work)-1]
		r.vals = vals(r)
		switch e := r.run(); e {
		case "":
			done = append(done, r)
		case "split":
			work = append(work, r.need...)
		default:
			return done, e
		}
		if len(done)+len(work) > 4000 {
			return done, "too many cases"
		}
	}
	return done, ""
}
