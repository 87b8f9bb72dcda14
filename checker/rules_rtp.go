package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R01", "rtp.Header.Write and Read are interpreted over symbolic headers and buffers; for each combination of flags and each kind of buffer the bit provenance of every output bit is compared with the RFC 3550 layout, and every exit on a short, wrongly versioned or extended packet must be an error that leaves the header alone.", checkR01)
}

type layout struct {
	name string
	w    int
	off  int // first byte
}

var rtpFields = []layout{{"Seq", 16, 2}, {"TS", 32, 4}, {"Ssrc", 32, 8}}

func (c *Check) cmpBits(rule string, fn *ssa.Function, what string, got, want []bit) {
	bad, unk := bitsDiffer(got, want)
	c.count("bit_vectors_compared", 1)
	if bad {
		c.fail(rule, c.p.pos(fn.Pos()), fnName(fn)+": "+what, "%s is [%s], must be [%s]", what, showBits(got), showBits(want))
	} else if unk {
		c.unsure("%s: %s of %s not resolved: %s", rule, what, fnName(fn), showBits(got))
	}
}

// recvObj makes the receiver (argument i) a known non-nil input object.
func recvObj(st *State, args []Val, i int) *Obj {
	st.assumeNil(args[i], false)
	return objOfSym(args[i].S)
}

// inSlice makes an input byte slice of the given length and capacity.
func inSlice(st *State, name string, elem types.Type, ln, cp Val) (Val, *Obj) {
	o := newObj(name, "in:"+name, elem)
	o.Input = true
	return mkSlice(ploc(Loc{o, ""}), iconst(0), ln, cp), o
}

func (c *Check) boolScen(n int, f func(b []bool)) {
	for m := 0; m < 1<<n; m++ {
		b := make([]bool, n)
		for i := range b {
			b[i] = m>>i&1 != 0
		}
		f(b)
	}
}

func bitOfBool(b bool) bit {
	if b {
		return bit{k: '1'}
	}
	return bit{k: '0'}
}

func fieldLoc(o *Obj, f string) Loc { return Loc{o, "." + f} }

func checkR01(c *Check) {
	wr, rd := c.fn("rtp.Header.Write"), c.fn("rtp.Header.Read")
	if wr == nil || rd == nil {
		return
	}
	c.analysed(wr)
	c.analysed(rd)
	c.rules = append(c.rules, "layout-write", "append", "layout-read", "refuse", "no-partial-read")
	type bufKind struct {
		name   string
		ln, cp int64 // cp<0: symbolic large
	}
	for _, bk := range []bufKind{{"nil", 0, 0}, {"spare capacity", 3, 64}, {"full", 3, 3}, {"empty with capacity", 0, 1500}} {
		c.boolScen(2, func(fl []bool) {
			e := c.engine()
			var h, b *Obj
			rs := e.run(wr, func(st *State, args []Val) []Val {
				h = recvObj(st, args, 0)
				st.assume(bsym(initSym(fieldLoc(h, "Pad"), tBool)), fl[0])
				st.assume(bsym(initSym(fieldLoc(h, "Mark"), tBool)), fl[1])
				if bk.name == "nil" {
					args[1] = nilSlice()
				} else {
					args[1], b = inSlice(st, "b", tByte, iconst(bk.ln), iconst(bk.cp))
				}
				return args
			})
			c.obligations(e, "crash", nil)
			if len(rs) == 0 {
				c.unsure("Header.Write has no exit")
			}
			for _, r := range rs {
				c.count("exits", 1)
				v := r.v
				if v.K != KSlice || !v.El[2].isConstInt() {
					c.unsure("Header.Write result not resolved: %s", render(v))
					continue
				}
				if v.El[2].N != bk.ln+12 {
					c.fail("append", c.p.pos(wr.Pos()), "rtp.Header.Write length", "a buffer of %d bytes becomes %d bytes, must be %d", bk.ln, v.El[2].N, bk.ln+12)
					continue
				}
				at := func(i int64) Val {
					return r.st.loadElem(v.El[0].L, r.st.addv(v.El[1], iconst(i)), "", tByte)
				}
				for i := int64(0); i < bk.ln; i++ {
					want := initSym(Loc{b, fmt.Sprintf("[%d]", i)}, tByte)
					if g := at(i); !valEq(g, isym(want)) {
						c.cmpBits("append", wr, fmt.Sprintf("byte %d before the header", i), r.st.bits(g, 8), leafBits(want, 0, 8, 8))
					}
				}
				b0 := constBits(0x80, 8)
				b0[5] = bitOfBool(fl[0])
				c.cmpBits("layout-write", wr, "byte 0", r.st.bits(at(bk.ln), 8), b0)
				b1 := leafBits(initSym(fieldLoc(h, "PT"), tByte), 0, 7, 8)
				b1[7] = bitOfBool(fl[1])
				c.cmpBits("layout-write", wr, "byte 1", r.st.bits(at(bk.ln+1), 8), b1)
				for _, f := range rtpFields {
					s := initSym(fieldLoc(h, f.name), c.fieldType("rtp.Header", f.name))
					for k := 0; k < f.w/8; k++ {
						want := leafBits(s, f.w-8*(k+1), f.w-8*k, 8)
						c.cmpBits("layout-write", wr, fmt.Sprintf("byte %d (%s)", f.off+k, f.name), r.st.bits(at(bk.ln+int64(f.off+k)), 8), want)
					}
				}
				c.unchanged("layout-write", r.st, wr, h)
			}
		})
	}
	// Read
	type scen struct {
		name string
		ln   [2]int64
		b0   func(b int) bool
		ok   bool
	}
	for _, sc := range []scen{
		{"exactly 12 bytes", [2]int64{12, 12}, func(b int) bool { return b>>6 == 2 && b>>4&1 == 0 }, true},
		{"longer packet", [2]int64{13, 65536}, func(b int) bool { return b>>6 == 2 && b>>4&1 == 0 }, true},
		{"short packet", [2]int64{0, 11}, func(b int) bool { return b>>6 == 2 && b>>4&1 == 0 }, false},
		{"wrong version", [2]int64{12, 65536}, func(b int) bool { return b>>6 != 2 }, false},
		{"header extension", [2]int64{12, 65536}, func(b int) bool { return b>>6 == 2 && b>>4&1 == 1 }, false},
	} {
		for m := 0; m < 4; m++ {
			pad, mark := m&1 != 0, m&2 != 0
			if !sc.ok && m > 0 {
				continue
			}
			e := c.engine()
			var h, b *Obj
			rs := e.run(rd, func(st *State, args []Val) []Val {
				h = recvObj(st, args, 0)
				ln := freshSym("len", lenType)
				st.setLo(ln, sc.ln[0])
				st.setHi(ln, sc.ln[1])
				lv := isym(ln)
				if sc.ln[0] == sc.ln[1] {
					lv = iconst(sc.ln[0])
				}
				args[1], b = inSlice(st, "packet", tByte, lv, iconst(65536))
				st.restrict(initSym(Loc{b, "[0]"}, tByte), func(x int) bool { return sc.b0(x) && (!sc.ok || x>>5&1 != 0 == pad) })
				st.restrict(initSym(Loc{b, "[1]"}, tByte), func(x int) bool { return !sc.ok || x>>7 != 0 == mark })
				return args
			})
			c.obligations(e, "crash", nil)
			for _, r := range rs {
				c.count("exits", 1)
				n := r.st.nilness(r.v)
				if !sc.ok {
					if n != 2 {
						if n == 1 {
							c.fail("refuse", c.p.pos(rd.Pos()), "rtp.Header.Read accepts: "+sc.name, "Read can return success on a packet with: %s", sc.name)
						} else {
							c.unsure("Header.Read: outcome on %s not resolved", sc.name)
						}
					}
					c.unchanged("no-partial-read", r.st, rd, h)
					continue
				}
				if n != 1 {
					if n == 2 {
						c.fail("layout-read", c.p.pos(rd.Pos()), "rtp.Header.Read refuses a valid packet", "Read can refuse a valid packet (%s)", sc.name)
					}
					continue
				}
				bt := func(i int) Sym { return initSym(Loc{b, fmt.Sprintf("[%d]", i)}, tByte) }
				for _, fl := range []struct {
					n string
					v bool
				}{{"Pad", pad}, {"Mark", mark}} {
					g := r.st.load(fieldLoc(h, fl.n), tBool)
					if g.isConstBool() {
						if (g.N != 0) != fl.v {
							c.fail("layout-read", c.p.pos(rd.Pos()), "rtp.Header.Read "+fl.n, "%s is %v where the packet says %v", fl.n, g.N != 0, fl.v)
						}
					} else if v, k := r.st.evalCond(g); k {
						if v != fl.v {
							c.fail("layout-read", c.p.pos(rd.Pos()), "rtp.Header.Read "+fl.n, "%s is %v where the packet says %v", fl.n, v, fl.v)
						}
					} else if g.S == initSym(fieldLoc(h, fl.n), tBool) {
						c.fail("layout-read", c.p.pos(rd.Pos()), "rtp.Header.Read "+fl.n, "%s is not set", fl.n)
					} else {
						c.unsure("Header.Read %s not resolved", fl.n)
					}
				}
				c.cmpBits("layout-read", rd, "PT", r.st.bits(r.st.load(fieldLoc(h, "PT"), tByte), 8), leafBits(bt(1), 0, 7, 8))
				for _, f := range rtpFields {
					want := make([]bit, f.w)
					for i := range want {
						want[i] = bit{'b', bt(f.off + f.w/8 - 1 - i/8), i % 8}
					}
					c.cmpBits("layout-read", rd, f.name, r.st.bits(r.st.load(fieldLoc(h, f.name), c.fieldType("rtp.Header", f.name)), f.w), want)
				}
			}
		}
	}
}

// restrict keeps only the byte values satisfying ok.
func (s *State) restrict(x Sym, ok func(b int) bool) {
	var set [4]uint64
	lo, hi := int64(-1), int64(-1)
	for i := 0; i < 256; i++ {
		if ok(i) {
			set[i/64] |= 1 << (i % 64)
			if lo < 0 {
				lo = int64(i)
			}
			hi = int64(i)
		}
	}
	s.setLo(x, lo)
	s.setHi(x, hi)
	s.updFact(x, func(f *Fact) { f.Set = &set })
}

func (c *Check) fieldType(typ, field string) types.Type {
	t := c.p.typ(typ)
	if t == nil {
		panic("no type " + typ)
	}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i).Type()
		}
	}
	panic("no field " + typ + "." + field)
}

// unchanged reports fields of an input object that no longer hold their initial value.
func (c *Check) unchanged(rule string, st *State, fn *ssa.Function, o *Obj) {
	os := st.ostate(o)
	if os == nil {
		return
	}
	for _, k := range sortedKeys(os.cells) {
		v := os.cells[k]
		if v.S != 0 && v.N == 0 && syms[v.S].Op == "init" && syms[v.S].L.O == o && syms[v.S].L.Path == k {
			continue
		}
		if v.K == KIface || len(k) > 0 && k[0] == '$' {
			continue
		}
		c.fail(rule, c.p.pos(fn.Pos()), fnName(fn)+" changes "+k, "%s changes %s of its header although it must leave it alone", fnName(fn), k)
	}
}
