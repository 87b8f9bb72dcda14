package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sym names an unknown runtime value.  A symbol never changes its value within
// one abstract state; facts about it are kept per state.
type Sym int32

// Kind classifies abstract values.
type Kind uint8

const (
	KUndef  Kind = iota
	KInt         // S + N   (S==0: constant N)
	KBool        // constant N (S==0) or symbol S
	KCond        // comparison Op of El[0], El[1]
	KStr         // constant Str (S==0) or symbol S
	KNil         // nil pointer / map / chan / func / interface
	KPtr         // L (S==0) or symbol S; also channels, maps
	KSlice       // El = base, off, len, cap
	KStruct      // El = fields (or elements of a small array)
	KTuple       // El
	KIface       // dynamic type T with value El[0]  (S==0), or symbol S
	KFunc        // Fn with bindings El, or symbol S
	KOpaque      // symbol S (floats, arrays, ...)
)

// Loc is a memory location: a path inside an object.
type Loc struct {
	O    *Obj
	Path string
}

func (l Loc) String() string {
	if l.O == nil {
		return "?"
	}
	return l.O.Name + l.Path
}

// Val is an abstract value.  Values are immutable.
type Val struct {
	K   Kind
	Op  token.Token
	S   Sym
	N   int64
	Str string
	L   Loc
	Fn  *ssa.Function
	T   types.Type
	El  []Val
}

// Obj is an abstract memory object.
type Obj struct {
	ID      int
	Name    string
	Site    string
	Type    types.Type // type of the contents (element type for arrays made by make)
	Input   bool       // contents unknown initially (otherwise zero)
	Parent  Sym        // lazily created target of this pointer symbol
	Summary bool       // stands for any number of concrete objects
	Global  bool
	Depth   int
	Pos     token.Pos
	Tag     string
	parent  *Obj // summary this child summary belongs to
	sawFold bool
}

var objCount int

func newObj(name, site string, t types.Type) *Obj {
	objCount++
	return &Obj{ID: objCount, Name: name, Site: site, Type: t}
}

type symInfo struct {
	Op    string // "" fresh, "init" initial contents of L, otherwise a term operator
	Args  []Val
	L     Loc
	T     types.Type
	Name  string
	Range [2]int64
	key   string
	low   Sym // lowest symbol this one depends on (itself for leaves)
}

var syms = []*symInfo{{}}
var termTab = map[string]Sym{}

func intRange(t types.Type) (int64, int64) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return math.MinInt64, math.MaxInt64
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127
	case types.Uint8:
		return 0, 255
	case types.Int16:
		return -32768, 32767
	case types.Uint16:
		return 0, 65535
	case types.Int32:
		return math.MinInt32, math.MaxInt32
	case types.Uint32:
		return 0, math.MaxUint32
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, math.MaxInt64 // approximation: values above 2^63-1 are treated as wrapping
	}
	return math.MinInt64, math.MaxInt64
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func freshSym(name string, t types.Type) Sym {
	si := &symInfo{T: t, Name: name}
	if t != nil && isInt(t) {
		si.Range[0], si.Range[1] = intRange(t)
	} else {
		si.Range = [2]int64{math.MinInt64, math.MaxInt64}
	}
	syms = append(syms, si)
	return Sym(len(syms) - 1)
}

// term interns a symbol for op(args), a pure function of its arguments.
func term(op string, t types.Type, args ...Val) Sym {
	var sb strings.Builder
	sb.WriteString(op)
	for _, a := range args {
		sb.WriteByte('|')
		argKey(&sb, a)
	}
	if t != nil {
		sb.WriteByte('#')
		sb.WriteString(types.TypeString(t, nil))
	}
	k := sb.String()
	if s, ok := termTab[k]; ok {
		return s
	}
	s := freshSym("", t)
	syms[s].Op = op
	syms[s].Args = args
	syms[s].key = k
	termTab[k] = s
	if op == "rem" || op == "and" {
		for i, a := range args {
			if o := args[1-i]; a.S != 0 && o.isConstInt() && (op == "rem" && i == 0 && o.N == 2 || op == "and" && o.N == 1) {
				parTests[a.S] = append(parTests[a.S], parTest{a.N, s})
			}
		}
	}
	return s
}

type parTest struct {
	n int64
	s Sym
}

// parTests lists the terms testing whether a symbol plus a constant is odd.
var parTests = map[Sym][]parTest{}

// initSym is the symbol for the initial contents of a location.
func initSym(l Loc, t types.Type) Sym {
	k := fmt.Sprintf("init|%d|%s", l.O.ID, l.Path)
	if s, ok := termTab[k]; ok {
		return s
	}
	s := freshSym("", t)
	syms[s].Op = "init"
	syms[s].L = l
	syms[s].key = k
	termTab[k] = s
	return s
}

func argKey(sb *strings.Builder, v Val) {
	switch v.K {
	case KInt:
		fmt.Fprintf(sb, "i%d+%d", v.S, v.N)
	case KBool:
		fmt.Fprintf(sb, "b%d:%d", v.S, v.N)
	case KStr:
		if v.S == 0 {
			fmt.Fprintf(sb, "s%q", v.Str)
		} else {
			fmt.Fprintf(sb, "s%d", v.S)
		}
	case KNil:
		sb.WriteString("nil")
	case KPtr:
		if v.S == 0 {
			fmt.Fprintf(sb, "p@%d%s", v.L.O.ID, v.L.Path)
		} else {
			fmt.Fprintf(sb, "p%d", v.S)
		}
	case KCond:
		fmt.Fprintf(sb, "c%d(", v.Op)
		for _, e := range v.El {
			argKey(sb, e)
			sb.WriteByte(',')
		}
		sb.WriteByte(')')
	case KIface:
		if v.S == 0 {
			fmt.Fprintf(sb, "f<%s>", types.TypeString(v.T, nil))
			argKey(sb, v.El[0])
		} else {
			fmt.Fprintf(sb, "f%d", v.S)
		}
	case KFunc:
		if v.S == 0 {
			fmt.Fprintf(sb, "fn%s(", v.Fn.String())
			for _, e := range v.El {
				argKey(sb, e)
				sb.WriteByte(',')
			}
			sb.WriteByte(')')
		} else {
			fmt.Fprintf(sb, "fn%d", v.S)
		}
	default:
		fmt.Fprintf(sb, "k%d:%d(", v.K, v.S)
		for _, e := range v.El {
			argKey(sb, e)
			sb.WriteByte(',')
		}
		sb.WriteByte(')')
	}
}

func valKey(v Val) string {
	var sb strings.Builder
	argKey(&sb, v)
	return sb.String()
}

func valEq(a, b Val) bool {
	if a.K != b.K || a.S != b.S || a.N != b.N || a.Op != b.Op || a.Str != b.Str || a.L != b.L || a.Fn != b.Fn || len(a.El) != len(b.El) {
		return false
	}
	if a.K == KIface && a.S == 0 && !types.Identical(a.T, b.T) {
		return false
	}
	for i := range a.El {
		if !valEq(a.El[i], b.El[i]) {
			return false
		}
	}
	return true
}

// Constructors.
func iconst(n int64) Val { return Val{K: KInt, N: n} }
func isym(s Sym) Val     { return Val{K: KInt, S: s} }
func bconst(b bool) Val {
	if b {
		return Val{K: KBool, N: 1}
	}
	return Val{K: KBool}
}
func bsym(s Sym) Val      { return Val{K: KBool, S: s} }
func strc(s string) Val   { return Val{K: KStr, Str: s} }
func ssym(s Sym) Val      { return Val{K: KStr, S: s} }
func psym(s Sym) Val      { return Val{K: KPtr, S: s} }
func ploc(l Loc) Val      { return Val{K: KPtr, L: l} }
func opaque(s Sym) Val    { return Val{K: KOpaque, S: s} }
func tuple(vs ...Val) Val { return Val{K: KTuple, El: vs} }
func ifaceOf(t types.Type, v Val) Val {
	return Val{K: KIface, T: t, El: []Val{v}}
}
func cond(op token.Token, x, y Val) Val { return Val{K: KCond, Op: op, El: []Val{x, y}} }

var nilVal = Val{K: KNil}

func (v Val) isConstInt() bool  { return v.K == KInt && v.S == 0 }
func (v Val) isConstBool() bool { return v.K == KBool && v.S == 0 }
func (v Val) isConstStr() bool  { return v.K == KStr && v.S == 0 }

func mkSlice(base, off, ln, cp Val) Val {
	return Val{K: KSlice, El: []Val{base, off, ln, cp}}
}

func nilSlice() Val { return mkSlice(nilVal, iconst(0), iconst(0), iconst(0)) }

// zeroVal returns the zero value of a type.
func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return iconst(0)
		case u.Info()&types.IsBoolean != 0:
			return bconst(false)
		case u.Info()&types.IsString != 0:
			return strc("")
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return nilVal
		}
		return opaque(term("zero", t))
	case *types.Struct:
		v := Val{K: KStruct, T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.El = append(v.El, zeroVal(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		if u.Len() <= 16 {
			v := Val{K: KStruct, T: t}
			for i := int64(0); i < u.Len(); i++ {
				v.El = append(v.El, zeroVal(u.Elem()))
			}
			return v
		}
		return opaque(term("zero", t))
	case *types.Slice:
		return nilSlice()
	case *types.Tuple:
		v := Val{K: KTuple}
		for i := 0; i < u.Len(); i++ {
			v.El = append(v.El, zeroVal(u.At(i).Type()))
		}
		return v
	}
	return nilVal
}

// freshVal returns an unknown value of a type.
func freshVal(name string, t types.Type) Val {
	return symVal(t, func(sub string, t types.Type) Sym { return freshSym(name+sub, t) }, "")
}

// symVal builds a value of type t from leaf symbols produced by mk.
func symVal(t types.Type, mk func(sub string, t types.Type) Sym, sub string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return isym(mk(sub, t))
		case u.Info()&types.IsBoolean != 0:
			return bsym(mk(sub, t))
		case u.Info()&types.IsString != 0:
			return ssym(mk(sub, t))
		}
		return opaque(mk(sub, t))
	case *types.Struct:
		v := Val{K: KStruct, T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.El = append(v.El, symVal(u.Field(i).Type(), mk, sub+"."+u.Field(i).Name()))
		}
		return v
	case *types.Array:
		if u.Len() <= 16 {
			v := Val{K: KStruct, T: t}
			for i := int64(0); i < u.Len(); i++ {
				v.El = append(v.El, symVal(u.Elem(), mk, fmt.Sprintf("%s[%d]", sub, i)))
			}
			return v
		}
		return opaque(mk(sub, t))
	case *types.Slice:
		ln := mk(sub+".$len", lenType)
		cp := mk(sub+".$cap", lenType)
		return mkSlice(psym(mk(sub+".$base", t)), iconst(0), isym(ln), isym(cp))
	case *types.Pointer, *types.Chan, *types.Map:
		return psym(mk(sub, t))
	case *types.Interface:
		return Val{K: KIface, S: mk(sub, t)}
	case *types.Signature:
		return Val{K: KFunc, S: mk(sub, t)}
	case *types.Tuple:
		v := Val{K: KTuple}
		for i := 0; i < u.Len(); i++ {
			v.El = append(v.El, symVal(u.At(i).Type(), mk, fmt.Sprintf("%s#%d", sub, i)))
		}
		return v
	}
	return opaque(mk(sub, t))
}

// lenType is a pseudo type for lengths: int restricted to [0, 2^40].
var lenType = types.NewNamed(types.NewTypeName(0, nil, "length", nil), types.Typ[types.Int], nil)

const maxLen = int64(1) << 40

func init() {}

func symRange(s Sym) (int64, int64) {
	si := syms[s]
	if si.T == lenType {
		lo, hi := si.Range[0], si.Range[1]
		if lo < 0 {
			lo = 0
		}
		if hi > maxLen {
			hi = maxLen
		}
		return lo, hi
	}
	return si.Range[0], si.Range[1]
}

// render prints a value for diagnostics and provenance tests.
func render(v Val) string {
	switch v.K {
	case KInt:
		if v.S == 0 {
			return fmt.Sprint(v.N)
		}
		if v.N == 0 {
			return renderSym(v.S)
		}
		return fmt.Sprintf("(%s%+d)", renderSym(v.S), v.N)
	case KBool:
		if v.S == 0 {
			return fmt.Sprint(v.N != 0)
		}
		return renderSym(v.S)
	case KStr:
		if v.S == 0 {
			return fmt.Sprintf("%q", v.Str)
		}
		return renderSym(v.S)
	case KNil:
		return "nil"
	case KPtr:
		if v.S == 0 {
			return "&" + v.L.String()
		}
		return renderSym(v.S)
	case KCond:
		return "(" + render(v.El[0]) + v.Op.String() + render(v.El[1]) + ")"
	case KIface:
		if v.S == 0 {
			return "iface<" + types.TypeString(v.T, func(*types.Package) string { return "" }) + ">" + render(v.El[0])
		}
		return renderSym(v.S)
	case KFunc:
		if v.S == 0 {
			return v.Fn.Name()
		}
		return renderSym(v.S)
	case KSlice, KStruct, KTuple:
		var p []string
		for _, e := range v.El {
			p = append(p, render(e))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	if v.S != 0 {
		return renderSym(v.S)
	}
	return "?"
}

func renderSym(s Sym) string {
	si := syms[s]
	switch si.Op {
	case "":
		if si.Name != "" {
			return fmt.Sprintf("%s'%d", si.Name, s)
		}
		return fmt.Sprintf("$%d", s)
	case "init":
		return si.L.String()
	}
	var p []string
	for _, a := range si.Args {
		p = append(p, render(a))
	}
	return si.Op + "(" + strings.Join(p, ",") + ")"
}

// symDeps calls f for every symbol s depends on, including itself.
func symDeps(s Sym, f func(Sym)) {
	if s == 0 {
		return
	}
	f(s)
	si := syms[s]
	for _, a := range si.Args {
		valSyms(a, f)
	}
}

func valSyms(v Val, f func(Sym)) {
	if v.S != 0 {
		symDeps(v.S, f)
	}
	for _, e := range v.El {
		valSyms(e, f)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// elemType of arrays, slices, pointers.
func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

// typeAt resolves a path like ".Uri" or "[3].Name" within a type.
func typeAt(t types.Type, path string) types.Type {
	for path != "" && t != nil {
		if path[0] == '.' {
			i := 1
			for i < len(path) && path[i] != '.' && path[i] != '[' {
				i++
			}
			name := path[1:i]
			path = path[i:]
			if strings.HasPrefix(name, "$") {
				return nil
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			t = nil
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == name {
					t = st.Field(j).Type()
				}
			}
		} else {
			i := strings.IndexByte(path, ']') + 1
			path = path[i:]
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return nil
			}
		}
	}
	return t
}
