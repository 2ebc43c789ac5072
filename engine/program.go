package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded code under test with the harness overlay.
type Program struct {
	prog    *ssa.Program
	main    *ssa.Package // package of the harness
	repoPfx string
	dir     string
	z3      string

	mu      sync.RWMutex
	fns     sync.Map
	raw     map[*ssa.Function]*fnInfo
	globals map[*ssa.Global]int
	methods sync.Map
	bmu     sync.Mutex
	built   map[*ssa.Package]bool
	pkgs    map[string]*ssa.Package
	initOrd []*ssa.Package
	tInt    types.Type
}

func loadProgram(dir string, pattern string, overlay map[string][]byte, env []string, repoPfx string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: dir, Overlay: overlay,
		Env: append(os.Environ(), env...),
	}
	pkgs, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, repoPfx) || len(pkgs) == 1 && p == pkgs[0] {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("the code under test does not load: %s", strings.Join(errs, "; "))
	}
	prog, ssas := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	if len(ssas) != 1 || ssas[0] == nil {
		return nil, fmt.Errorf("no SSA package for %s", pattern)
	}
	P := &Program{prog: prog, main: ssas[0], repoPfx: repoPfx, dir: dir,
		raw: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]int{}, built: map[*ssa.Package]bool{}, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	// repository packages in initialisation order
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if sp := P.pkgs[p.Path()]; sp != nil && P.isRepo(sp) {
			P.initOrd = append(P.initOrd, sp)
		}
	}
	visit(P.main.Pkg)
	P.runtimeErrType()
	return P, nil
}

func (P *Program) isRepo(p *ssa.Package) bool {
	return p == P.main || strings.HasPrefix(p.Pkg.Path(), P.repoPfx)
}

func (P *Program) build(p *ssa.Package) {
	P.bmu.Lock()
	defer P.bmu.Unlock()
	if !P.built[p] {
		P.built[p] = true
		p.Build()
	}
}

func (P *Program) typeOf(pkg, name string) types.Type {
	p := P.pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (P *Program) globalIndex(g *ssa.Global) int {
	P.mu.RLock()
	i, ok := P.globals[g]
	P.mu.RUnlock()
	if ok {
		return i
	}
	P.mu.Lock()
	defer P.mu.Unlock()
	if i, ok := P.globals[g]; ok {
		return i
	}
	i = len(P.globals)
	P.globals[g] = i
	return i
}

type methodKey struct {
	t types.Type
	m *types.Func
}

func (P *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m}
	if f, ok := P.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	P.bmu.Lock()
	f := P.prog.LookupMethod(t, m.Pkg(), m.Name())
	P.bmu.Unlock()
	P.methods.Store(k, f)
	return f
}
