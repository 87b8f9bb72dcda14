package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded, type-checked and SSA-built code under analysis.
type Program struct {
	root  string
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by last path element
	src   map[string]*packages.Package
	scc   map[*ssa.Function]bool // functions that may call themselves
	base  *baseState
	funcs []*ssa.Function // all functions of the repository, sorted
}

func repoRoot() string {
	if r := os.Getenv("GOSIP_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func loadProgram(dirs ...string) (*Program, error) {
	if len(dirs) == 0 {
		dirs = []string{"./sip", "./sdp", "./rtp", "./dialog", "./util", "./dsp"}
	}
	root := repoRoot()
	env := append(os.Environ(), "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: root, Env: env}
	ps, err := packages.Load(cfg, dirs...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{root: root, fset: ps[0].Fset, prog: prog, pkgs: map[string]*ssa.Package{}, src: map[string]*packages.Package{}}
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		p.pkgs[sp.Pkg.Name()] = sp
		p.src[sp.Pkg.Name()] = ps[i]
		p.pkgs[sp.Pkg.Path()] = sp
	}
	// every package of the module reached through imports
	var visit func(q *packages.Package)
	seen := map[*packages.Package]bool{}
	visit = func(q *packages.Package) {
		if seen[q] {
			return
		}
		seen[q] = true
		if isRepoPath(q.PkgPath) {
			if sp := prog.Package(q.Types); sp != nil {
				if _, ok := p.src[q.Name]; !ok {
					p.pkgs[q.Name] = sp
					p.src[q.Name] = q
					p.pkgs[q.PkgPath] = sp
				}
			}
			for _, i := range q.Imports {
				visit(i)
			}
		}
	}
	for _, q := range ps {
		visit(q)
	}
	for _, q := range p.src {
		prog.Package(q.Types).Build()
	}
	p.collect()
	return p, nil
}

const modPath = "github.com/jart/gosip"

func isRepoPath(s string) bool { return s == modPath || strings.HasPrefix(s, modPath+"/") }

func (p *Program) inRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return isRepoPath(f.Pkg.Pkg.Path())
		}
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return isRepoPath(o.Pkg().Path())
	}
	return false
}

func (p *Program) collect() {
	set := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || set[f] {
			return
		}
		set[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, q := range p.src {
		sp := p.prog.Package(q.Types)
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	for f := range set {
		p.funcs = append(p.funcs, f)
	}
	sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].String() < p.funcs[j].String() })
	// recursion: Tarjan over static calls inside the repository
	p.scc = map[*ssa.Function]bool{}
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var st []*ssa.Function
	n := 0
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		st = append(st, f)
		on[f] = true
		self := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					g, ok := (*o).(*ssa.Function)
					if mc, isMC := (*o).(*ssa.MakeClosure); isMC {
						g, ok = mc.Fn.(*ssa.Function)
					}
					if !ok || !p.inRepo(g) {
						continue
					}
					if g == f {
						self = true
					}
					if idx[g] == 0 {
						dfs(g)
						if low[g] < low[f] {
							low[f] = low[g]
						}
					} else if on[g] && idx[g] < low[f] {
						low[f] = idx[g]
					}
				}
			}
		}
		if low[f] == idx[f] {
			var comp []*ssa.Function
			for {
				g := st[len(st)-1]
				st = st[:len(st)-1]
				on[g] = false
				comp = append(comp, g)
				if g == f {
					break
				}
			}
			if len(comp) > 1 || self {
				for _, g := range comp {
					p.scc[g] = true
				}
			}
		}
	}
	for _, f := range p.funcs {
		if idx[f] == 0 {
			dfs(f)
		}
	}
}

// pos renders a source position relative to the repository.
func (p *Program) pos(x token.Pos) string {
	if !x.IsValid() {
		return "?"
	}
	q := p.fset.Position(x)
	if r, err := filepath.Rel(p.root, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// fn finds a function: "sip.ParseMsg", "sip.Msg.Append" (value or pointer receiver).
func (p *Program) fn(name string) *ssa.Function {
	parts := strings.Split(name, ".")
	sp := p.pkgs[parts[0]]
	if sp == nil {
		return nil
	}
	if len(parts) == 2 {
		return sp.Func(parts[1])
	}
	t := p.typ(parts[0] + "." + parts[1])
	if t == nil {
		return nil
	}
	for _, r := range []types.Type{types.NewPointer(t), t} {
		ms := p.prog.MethodSets.MethodSet(r)
		if sel := ms.Lookup(sp.Pkg, parts[2]); sel != nil {
			f := p.prog.MethodValue(sel)
			if f != nil && f.Synthetic != "" {
				if fo, ok := sel.Obj().(*types.Func); ok {
					if g := p.prog.FuncValue(fo); g != nil {
						return g
					}
				}
			}
			return f
		}
	}
	return nil
}

func (p *Program) typ(name string) types.Type {
	parts := strings.Split(name, ".")
	sp := p.pkgs[parts[0]]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(parts[1])
	if o == nil {
		return nil
	}
	return o.Type()
}

func (p *Program) global(name string) *ssa.Global {
	parts := strings.Split(name, ".")
	sp := p.pkgs[parts[0]]
	if sp == nil {
		return nil
	}
	return sp.Var(parts[1])
}
