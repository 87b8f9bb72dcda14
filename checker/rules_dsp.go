package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"fmt"
	"golang.org/x/tools/go/ssa"
	"path/filepath"
	"strings"
)

func init() {
	register("A01", "The mixing routine's assembly is interpreted instruction by instruction over symbolic frames: every 16-byte load and store is recorded with its frame and offset, every stored lane with the operation that made it, and compared with pairwise 16-bit saturating addition of the whole destination and source frames.", checkA01)
	register("A02", "The companding routines' assembly is interpreted in a domain of linear forms over the input and its bits, the inputs being divided where a comparison, highest-bit search or shift count depends on them; range and sign of the result follow from the form in each part.", checkA02)
	register("A04", "As A02; the form of the result in each part is compared bit by bit with the G.711 mu-law encoding and decoding rules.", checkA04)
}

func (c *Check) asmDir() map[string]*asmFn {
	return readAsm(filepath.Join(repoRoot(), "dsp"))
}

func (c *Check) asmFn(name string) *asmFn {
	f := c.asmDir()[name]
	if f == nil {
		c.unsure("no assembly for %s", name)
		return nil
	}
	if f.bad != "" {
		c.unsure("%s: %s", name, f.bad)
		return nil
	}
	c.fns[name+" ("+filepath.Base(f.file)+")"] = true
	c.count("instructions", len(f.ins))
	return f
}

func asmPos(f *asmFn, line int) string {
	return fmt.Sprintf("dsp/%s:%d", filepath.Base(f.file), line)
}

func checkA01(c *Check) {
	c.rules = append(c.rules, "bounds", "source", "saturation", "whole frame", "alignment")
	f := c.asmFn("L16MixSat160")
	if f == nil {
		return
	}
	done, err := asmCover(f, 0, 0, 0, func(r *asmRun) map[string]asmVal {
		return map[string]asmVal{"dst+0": {co: map[string]int64{"&dst": 1}}, "src+8": {co: map[string]int64{"&src": 1}}}
	})
	if err != "" || len(done) != 1 {
		c.unsure("L16MixSat160: %s", err)
		return
	}
	r := done[0]
	off := func(k string) (string, int64) {
		i := strings.LastIndexAny(k, "+-")
		var n int64
		fmt.Sscanf(k[i:], "%d", &n)
		return k[:i], n
	}
	for line, op := range r.align {
		// the parameters are *int16: any even address
		c.fail("alignment", asmPos(f, line), op, "%s faults unless the frame starts at a multiple of 16 bytes, which a *int16 need not", op)
	}
	for k, line := range r.loads {
		c.count("loads", 1)
		if fr, n := off(k); n < 0 || n+16 > 320 {
			c.fail("bounds", asmPos(f, line), "load of "+fr, "bytes %d to %d of the %s frame are read, it has 320", n, n+15, fr)
		}
	}
	for _, k := range r.order {
		c.count("stores", 1)
		fr, n := off(k)
		if fr != "dst" {
			c.fail("source", asmPos(f, f.ins[0].line), "store to "+fr, "the %s frame is written at byte %d", fr, n)
			continue
		}
		if n < 0 || n+16 > 320 {
			c.fail("bounds", asmPos(f, f.ins[0].line), "store to "+fr, "bytes %d to %d of the %s frame are written, it has 320", n, n+15, fr)
			continue
		}
		want := fmt.Sprintf("PADDSW(dst[%d],src[%d])", n, n)
		if got := r.mem[k].lane; got != want {
			c.fail("saturation", asmPos(f, f.ins[0].line), "samples written", "samples %d to %d become %s instead of %s", n/2, n/2+7, got, want)
		}
	}
	for n := int64(0); n < 320; n += 16 {
		c.count("lanes", 1)
		if _, ok := r.mem[fmt.Sprintf("dst%+d", n)]; !ok {
			c.fail("whole frame", asmPos(f, f.ins[0].line), "samples not mixed", "samples %d to %d of the frame are not written", n/2, n/2+7)
			return
		}
	}
}

// encoderParts interprets the mu-law encoder over all 16-bit samples.
func (c *Check) encoderParts() (*asmFn, []*asmRun) {
	f := c.asmFn("LinearToUlaw")
	if f == nil {
		return nil, nil
	}
	done, err := asmCover(f, -32768, 32767, 0, func(r *asmRun) map[string]asmVal {
		return map[string]asmVal{"linear+0": {co: map[string]int64{"x": 1}}}
	})
	if err != "" {
		c.unsure("LinearToUlaw: %s", err)
		return f, nil
	}
	c.count("parts of the inputs", len(done))
	return f, done
}

// decoderParts interprets the mu-law decoder over all bytes.
func (c *Check) decoderParts() (*asmFn, []*asmRun) {
	f := c.asmFn("UlawToLinear")
	if f == nil {
		return nil, nil
	}
	done, err := asmCover(f, 0, 0, 8, func(r *asmRun) map[string]asmVal {
		v := asmVal{co: map[string]int64{}}
		for i := 0; i < 8; i++ {
			v.co[fmt.Sprintf("u%d", i)] = 1 << uint(i)
		}
		return map[string]asmVal{"ulaw+0": r.norm(v)}
	})
	if err != "" {
		c.unsure("UlawToLinear: %s", err)
		return f, nil
	}
	c.count("parts of the inputs", len(done))
	return f, done
}

func (r *asmRun) partName() string {
	if len(r.known) == 0 || r.lo != r.hi {
		s := fmt.Sprintf("samples %d to %d", r.lo, r.hi)
		for _, k := range sortedKeys(r.known) {
			s += fmt.Sprintf(", %s=%d", k, r.known[k])
		}
		return s
	}
	s := "bytes with"
	for i := 7; i >= 0; i-- {
		if v, ok := r.known[fmt.Sprintf("u%d", i)]; ok {
			s += fmt.Sprintf(" bit %d = %d", i, v)
		}
	}
	return s
}

// outRange is the range of a result.
func (c *Check) outRange(r *asmRun) (lo, hi int64, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
			c.unsure("%s: result not followed for %s", r.f.name, r.partName())
		}
	}()
	if _, set := r.vals["out"]; !set {
		c.unsure("%s: no result for %s", r.f.name, r.partName())
		return 0, 0, false
	}
	lo, hi = r.rng(r.out)
	return lo, hi, true
}

func checkA02(c *Check) {
	c.rules = append(c.rules, "encoded range", "encoded sign", "decoded range", "decoded sign")
	f, ps := c.encoderParts()
	for _, r := range ps {
		lo, hi, ok := c.outRange(r)
		if !ok {
			continue
		}
		c.count("results checked", 1)
		if lo < 0 || hi > 255 {
			c.fail("encoded range", asmPos(f, r.line), r.partName(), "%s encode to values in %d to %d", r.partName(), lo, hi)
			continue
		}
		b := r.bitsOf(r.out)[7]
		pos := r.lo >= 0
		if r.lo < 0 && r.hi >= 0 {
			// both signs treated alike: wrong for one of them when the bit is fixed
			if b.atom == "" {
				c.fail("encoded sign", asmPos(f, r.line), r.partName(), "%s all encode with top bit %d", r.partName(), b.n)
			}
			continue
		}
		want := int64(0)
		if pos {
			want = 1
		}
		if b.atom != "" || b.n != want {
			c.fail("encoded sign", asmPos(f, r.line), r.partName(), "%s encode with a top bit other than %d", r.partName(), want)
		}
	}
	f, ps = c.decoderParts()
	for _, r := range ps {
		lo, hi, ok := c.outRange(r)
		if !ok {
			continue
		}
		c.count("results checked", 1)
		if lo < -32124 || hi > 32124 {
			c.fail("decoded range", asmPos(f, r.line), r.partName(), "%s decode to values in %d to %d", r.partName(), lo, hi)
		}
		s, known := r.known["u7"]
		switch {
		case !known:
			c.fail("decoded sign", asmPos(f, r.line), r.partName(), "%s decode alike whatever the top bit", r.partName())
		case s == 1 && lo < 0, s == 0 && hi > 0:
			c.fail("decoded sign", asmPos(f, r.line), r.partName(), "%s decode to values in %d to %d", r.partName(), lo, hi)
		}
	}
}

func checkA04(c *Check) {
	c.rules = append(c.rules, "encoding", "decoding")
	f, ps := c.encoderParts()
	for _, r := range ps {
		if _, _, ok := c.outRange(r); !ok {
			continue
		}
		c.count("results checked", 1)
		c.encodeCheck(f, r)
	}
	f, ps = c.decoderParts()
	for _, r := range ps {
		if _, _, ok := c.outRange(r); !ok {
			continue
		}
		c.count("results checked", 1)
		// sign, segment and mantissa
		want := asmVal{c: 0, co: map[string]int64{}}
		seg, miss := int64(0), false
		for i := 4; i < 7; i++ {
			v, ok := r.known[fmt.Sprintf("u%d", i)]
			if !ok {
				miss = true
			}
			seg |= (1 - v) << uint(i-4)
		}
		s, ok := r.known["u7"]
		if miss || !ok {
			c.fail("decoding", asmPos(f, r.line), r.partName(), "%s decode alike whatever segment and sign", r.partName())
			continue
		}
		sg := int64(-1)
		if s == 1 {
			sg = 1
		}
		want.c = sg * ((15*8+132)<<uint(seg) - 132)
		for i := 0; i < 4; i++ {
			k := -sg << uint(i+3) << uint(seg)
			n := fmt.Sprintf("u%d", i)
			if v, ok := r.known[n]; ok {
				want.c += v * k
			} else {
				want.co[n] = k
			}
		}
		if got := r.out; alin(got, -1, want).key() != "+0" {
			c.fail("decoding", asmPos(f, r.line), r.partName(), "%s decode to %s, G.711 has %s", r.partName(), got.key(), want.key())
		}
	}
	c.sample("standard tables checked for round trip: %d codes", c.tableRoundTrip())
}

// tableRoundTrip: in the standard itself, decoding then encoding is the
// identity but for the two zeros.
func (c *Check) tableRoundTrip() int {
	n := 0
	for u := 0; u < 256; u++ {
		seg, man := uint(^u>>4&7), ^u&15
		x := (man<<3+132)<<seg - 132
		b := x + 132
		if b > 32767 {
			b = 32767
		}
		e := uint(0)
		for b>>(e+8) > 0 {
			e++
		}
		v := ^(int(e)<<4 | b>>(e+3)&15) & 0x7f
		if v == u&0x7f {
			n++
		}
	}
	return n
}

func (c *Check) encodeCheck(f *asmFn, r *asmRun) {
	if r.lo < 0 && r.hi >= 0 {
		c.fail("encoding", asmPos(f, r.line), r.partName(), "%s encode alike whatever the sign", r.partName())
		return
	}
	base := asmVal{c: 132, co: map[string]int64{"x": 1}}
	sgn := int64(0x80)
	if r.lo < 0 {
		base.co["x"] = -1
		sgn = 0
	}
	lo, hi := r.rng(base)
	// G.711 clips at 32635
	if hi > 32767 {
		if lo <= 32767 {
			// one part above and below: decide by value
			if !r.out.isConst() {
				c.fail("encoding", asmPos(f, r.line), r.partName(), "%s do not clip", r.partName())
				return
			}
			lo = 32768
		}
		w := acst(sgn)
		if alin(r.out, -1, w).key() != "+0" {
			c.fail("encoding", asmPos(f, r.line), r.partName(), "%s encode to %s, G.711 clips to %d", r.partName(), r.out.key(), sgn)
		}
		return
	}
	e := uint(0)
	for lo>>(e+8) > 0 {
		e++
	}
	if hi>>(e+8) > 0 {
		c.fail("encoding", asmPos(f, r.line), r.partName(), "%s span two segments and encode alike", r.partName())
		return
	}
	r.bases = map[string]asmVal{}
	b := r.bitsOf(base)
	want := make([]asmBit, 64)
	for i := 0; i < 4; i++ {
		x := b[int(e)+3+i]
		if x.atom == "" {
			want[i].n = 1 - x.n
		} else {
			want[i] = asmBit{atom: x.atom, neg: !x.neg}
		}
	}
	for i := 0; i < 3; i++ {
		want[4+i].n = 1 - int64(e>>uint(i)&1)
	}
	want[7].n = sgn >> 7
	if w := r.fromBits(want); alin(r.out, -1, w).key() != "+0" {
		c.fail("encoding", asmPos(f, r.line), r.partName(), "%s encode to %s, G.711 has %s", r.partName(), r.out.key(), w.key())
	}
}

func init() {
	register("A03", "Every constructor and method of the noise generator is interpreted with intervals and symbolic amplitudes, from any seed and from any state within the invariant (each counter below its modulus): index obligations must be discharged, the invariant must hold again afterwards, and each path's sample must be the amplitude converted under guards that keep it in the 16-bit range, or a limit chosen on that side.", checkA03)
}

// floatIval is the range the path's comparisons leave for a float.
func floatIval(st *State, v Val, depth int) (lo, hi *big.Rat) {
	if v.K == KInt {
		l, h := st.rng(v)
		return new(big.Rat).SetInt64(l), new(big.Rat).SetInt64(h)
	}
	if v.K != KOpaque || depth > 6 {
		return nil, nil
	}
	if q := floatConst(v); q != nil {
		return q, q
	}
	si := syms[v.S]
	tighten := func(l, h *big.Rat) {
		if l != nil && (lo == nil || l.Cmp(lo) > 0) {
			lo = l
		}
		if h != nil && (hi == nil || h.Cmp(hi) < 0) {
			hi = h
		}
	}
	pick := func(a, b *big.Rat, max bool) *big.Rat {
		if a == nil || b == nil {
			return nil
		}
		if (a.Cmp(b) > 0) == max {
			return a
		}
		return b
	}
	either := func(a, b *big.Rat, max bool) *big.Rat {
		if a == nil {
			return b
		}
		if b == nil {
			return a
		}
		return pick(a, b, max)
	}
	switch si.Op {
	case "math.Max", "math.Min":
		l1, h1 := floatIval(st, si.Args[0], depth+1)
		l2, h2 := floatIval(st, si.Args[1], depth+1)
		if si.Op == "math.Max" {
			tighten(either(l1, l2, true), pick(h1, h2, true))
		} else {
			tighten(pick(l1, l2, false), either(h1, h2, false))
		}
	case "math.Round", "math.Trunc", "math.RoundToEven", "math.Floor", "math.Ceil":
		l, h := floatIval(st, si.Args[0], depth+1)
		if l != nil && l.IsInt() {
			tighten(l, nil)
		}
		if h != nil && h.IsInt() {
			tighten(nil, h)
		}
	}
	for s, f := range st.facts {
		cs := syms[s]
		if f.B == 0 || cs.Op != "<" && cs.Op != "<=" || len(cs.Args) != 2 {
			continue
		}
		x, y := cs.Args[0], cs.Args[1]
		switch {
		case x.K == KOpaque && x.S == v.S && floatConst(y) != nil:
			if f.B == 2 { // v < y
				tighten(nil, floatConst(y))
			} else {
				tighten(floatConst(y), nil)
			}
		case y.K == KOpaque && y.S == v.S && floatConst(x) != nil:
			if f.B == 2 { // x < v
				tighten(floatConst(x), nil)
			} else {
				tighten(nil, floatConst(x))
			}
		}
	}
	return lo, hi
}

func floatConst(v Val) *big.Rat {
	if v.K != KOpaque || v.S == 0 {
		return nil
	}
	si := syms[v.S]
	switch si.Op {
	case "const":
		q, ok := new(big.Rat).SetString(si.Args[0].Str)
		if ok {
			return q
		}
	case "conv":
		if a := si.Args[0]; a.isConstInt() {
			return new(big.Rat).SetInt64(a.N)
		}
	}
	return nil
}

func checkA03(c *Check) {
	c.rules = append(c.rules, "crash", "counters", "saturation")
	named := c.p.typ("dsp.AWGN")
	if named == nil {
		c.unsure("no type AWGN")
		return
	}
	// the counters are the fields assigned remainders, the moduli the constants m1, m2, m3
	mod := map[string]int64{}
	for i := 1; i <= 3; i++ {
		k, ok := c.p.pkgs["dsp"].Pkg.Scope().Lookup(fmt.Sprintf("m%d", i)).(*types.Const)
		if !ok || !hasField(named, fmt.Sprintf("ix%d", i)) {
			c.unsure("no counter and modulus %d", i)
			return
		}
		n, _ := constant.Int64Val(k.Val())
		mod[fmt.Sprintf("ix%d", i)] = n
	}
	counters := func(st *State, o *Obj, fn *ssa.Function) {
		for _, f := range sortedKeys(mod) {
			lo, hi := st.rng(c.get(st, o, f))
			c.count("counters checked", 1)
			if lo < 0 || hi >= mod[f] {
				c.fail("counters", c.p.pos(fn.Pos()), fnName(fn)+": "+f, "%s can be %s after %s, its modulus is %d", f, fmt.Sprintf("%d to %d", lo, hi), fnName(fn), mod[f])
			}
		}
	}
	for _, fn := range c.p.funcs {
		if fn.Pkg != c.p.pkgs["dsp"] || fn.Blocks == nil {
			continue
		}
		sig := fn.Signature
		takes := false
		for _, p := range fn.Params {
			if d := derefType(p.Type()); d != nil && types.Identical(d, named) {
				takes = true
			}
		}
		makes := sig.Results().Len() == 1 && derefType(sig.Results().At(0).Type()) != nil && types.Identical(derefType(sig.Results().At(0).Type()), named)
		if !takes && !makes {
			continue
		}
		e := c.engine()
		e.wrap64 = true
		e.pathKey = limitsCompared
		c.floatFuncs(e)
		var gen *Obj
		res := e.run(fn, func(st *State, args []Val) []Val {
			for i, p := range fn.Params {
				if d := derefType(p.Type()); d != nil && types.Identical(d, named) {
					gen = c.input("generator", "dsp.AWGN")
					for f, m := range mod {
						v := isym(leaf("generator."+f, types.Typ[types.Int64]))
						st.setLo(v.S, 0)
						st.setHi(v.S, m-1)
						c.set(st, gen, f, v)
					}
					st.setMonVal("$gen", ptrTo(gen))
					args[i] = ptrTo(gen)
				}
			}
			return args
		})
		c.analysed(fn)
		if e.gaveUp != "" {
			c.unsure("%s: %s", fnName(fn), e.gaveUp)
			continue
		}
		c.obligations(e, "crash", nil)
		sample := sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type().Underlying(), types.Typ[types.Int16])
		for _, r := range res {
			if takes {
				counters(r.st, gen, fn)
			}
			if makes {
				l, ok := loc1(r.st, r.v)
				if !ok {
					c.unsure("%s: result not followed", fnName(fn))
					continue
				}
				counters(r.st, l.O, fn)
			}
			if sample {
				c.sampleCheck(r.st, r.v, fn)
			}
		}
	}
}

func (c *Check) sampleCheck(st *State, v Val, fn *ssa.Function) {
	c.count("samples checked", 1)
	if v.K == KTuple && len(v.El) == 1 {
		v = v.El[0]
	}
	where := c.p.pos(fn.Pos())
	lim := func(n int64) *big.Rat { return new(big.Rat).SetInt64(n) }
	switch {
	case v.isConstInt():
		// the amplitude must lie beyond the limit, or there
		for _, k := range strings.Split(st.mon.Key, ";") {
			side, num, _ := strings.Cut(k, " ")
			q, ok := new(big.Rat).SetString(num)
			if ok && (v.N == math.MaxInt16 && side == "above" && q.Cmp(lim(math.MaxInt16-1)) > 0 || v.N == math.MinInt16 && side == "below" && q.Cmp(lim(math.MinInt16+1)) < 0) {
				return
			}
		}
		c.fail("saturation", where, fmt.Sprintf("%s: sample %d", fnName(fn), v.N), "the sample is %d without the amplitude being at that limit", v.N)
	case v.K == KInt && v.N == 0 && syms[v.S].Op == "ftoi":
		lo, hi := floatIval(st, syms[v.S].Args[0], 0)
		if lo == nil || lo.Cmp(lim(math.MinInt16-1)) <= 0 {
			c.fail("saturation", where, fnName(fn)+": low amplitudes", "an amplitude below -32768 is converted without saturation (lower bound %s)", ratText(lo))
		}
		if hi == nil || hi.Cmp(lim(math.MaxInt16+1)) >= 0 {
			c.fail("saturation", where, fnName(fn)+": high amplitudes", "an amplitude above 32767 is converted without saturation (upper bound %s)", ratText(hi))
		}
	default:
		c.unsure("%s: sample %s not followed", fnName(fn), render(v))
	}
}

func ratText(r *big.Rat) string {
	if r == nil {
		return "none"
	}
	return r.RatString()
}

// floatFuncs makes the functions of package math uninterpreted.
func (c *Check) floatFuncs(e *Engine) {
	for _, n := range []string{"Pow", "Log", "Log10", "Log2", "Exp", "Sqrt", "Sin", "Cos", "Abs", "Floor", "Ceil", "Round", "RoundToEven", "Trunc", "Max", "Min", "IsNaN", "IsInf", "Hypot"} {
		name := "math." + n
		e.intrinsics[name] = func(e *Engine, cc *callCtx) []callRes {
			t := cc.fn.Signature.Results().At(0).Type()
			s := term(name, t, cc.args...)
			if isBool(t) {
				return ret1(cc.st, bsym(s))
			}
			return ret1(cc.st, opaque(s))
		}
	}
}

// limitsCompared tells apart states by how amplitudes compared with limits.
func limitsCompared(v Val) (t, f string) {
	if v.K != KCond {
		return "", ""
	}
	side := func(q *big.Rat, up bool) string {
		if up {
			return fmt.Sprintf("above %s;", q.RatString())
		}
		return fmt.Sprintf("below %s;", q.RatString())
	}
	for i, x := range v.El {
		q := floatConst(x)
		if q == nil || floatConst(v.El[1-i]) != nil {
			continue
		}
		up := v.Op == token.GTR || v.Op == token.GEQ // the other is above
		if i == 0 {
			up = !up
		}
		if v.Op == token.EQL || v.Op == token.NEQ || new(big.Rat).Abs(q).Cmp(big.NewRat(1000, 1)) < 0 {
			return "", ""
		}
		return side(q, up), side(q, !up)
	}
	return "", ""
}
