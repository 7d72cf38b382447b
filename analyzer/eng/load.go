// Package eng is the analysis engine: it loads the repository, builds SSA for
// all packages of the module and offers flattening (virtual inlining), value
// numbering, memory resolution, facts and loop recognition on top of it.
package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Module is the path prefix of the analysed module.
const Module = "trypo"

// Prog is the loaded program.
type Prog struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	ByPkg map[string]*ssa.Package
	// Funcs has every function of the module with a body, anonymous ones included.
	Funcs []*ssa.Function

	mods    map[*ssa.Function]*ModSet
	mutable map[string]bool
}

// Load type-checks the module at dir and builds its SSA form.
func Load(dir string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
			packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule,
		Dir: dir, Env: env, Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("package errors: %s", strings.Join(errs, "; "))
	}
	sp, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	sp.Build()
	p := &Prog{Dir: dir, Pkgs: pkgs, SSA: sp, ByPkg: map[string]*ssa.Package{}, mods: map[*ssa.Function]*ModSet{}}
	if len(pkgs) > 0 {
		p.Fset = pkgs[0].Fset
	}
	for i, s := range spkgs {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.ByPkg[s.Pkg.Path()] = s
	}
	all := ssautil.AllFunctions(sp)
	for f := range all {
		if p.InModule(f) && len(f.Blocks) > 0 {
			p.Funcs = append(p.Funcs, f)
		}
	}
	// AllFunctions only finds what is reachable; add every declared function and method.
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		seen[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, s := range p.ByPkg {
		for _, m := range s.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := sp.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := sp.MethodValue(ms.At(i))
						if f != nil && p.InModule(f) {
							add(f)
						}
					}
				}
			}
		}
	}
	p.dropUnused()
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

// dropUnused leaves out unexported functions that nothing refers to.
func (p *Prog) dropUnused() {
	used := map[*ssa.Function]bool{}
	invoked := map[string]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !used[f] {
			used[f] = true
			work = append(work, f)
		}
	}
	private := func(f *ssa.Function) bool {
		return f.Parent() == nil && f.Synthetic == "" && f.Object() != nil && !f.Object().Exported() && f.Name() != "main" && f.Name() != "init"
	}
	for _, f := range p.Funcs {
		if f.Parent() == nil && !private(f) {
			add(f)
		}
	}
	for _, s := range p.ByPkg {
		add(s.Func("init"))
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if o := f.Origin(); o != nil {
			add(o)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && !invoked[ci.Common().Method.Name()] {
					n := ci.Common().Method.Name()
					invoked[n] = true
					for _, g := range p.Funcs {
						if g.Name() == n {
							add(g)
						}
					}
				}
			}
		}
	}
	var keep []*ssa.Function
	for _, f := range p.Funcs {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		if used[f] || used[top] || !private(top) {
			keep = append(keep, f)
		}
	}
	p.Funcs = keep
}

// FuncPkgPath is the path of the package a function belongs to.
func FuncPkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if o := f.Origin(); o != nil && o != f {
		return FuncPkgPath(o)
	}
	return ""
}

// InModule tells whether a function is part of the analysed module.
func (p *Prog) InModule(f *ssa.Function) bool { return InModulePath(FuncPkgPath(f)) }

// InModulePath tells whether a package path is part of the analysed module.
func InModulePath(s string) bool { return s == Module || strings.HasPrefix(s, Module+"/") }

// IsTestSupport tells whether a function only exists for tests.
func IsTestSupport(f *ssa.Function) bool {
	return strings.HasPrefix(FuncPkgPath(f), Module+"/core/testutils")
}

// Func finds a package-level function.
func (p *Prog) Func(pkg, name string) *ssa.Function {
	s := p.ByPkg[pkg]
	if s == nil {
		return nil
	}
	return s.Func(name)
}

// Named finds a named type.
func (p *Prog) Named(pkg, name string) *types.Named {
	s := p.ByPkg[pkg]
	if s == nil {
		return nil
	}
	o := s.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Method finds a method (of the pointer type's method set) that is declared in the module.
func (p *Prog) Method(pkg, typ, name string) *ssa.Function {
	n := p.Named(pkg, typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

// Methods lists the declared methods of a named type.
func (p *Prog) Methods(pkg, typ string) []*ssa.Function {
	n := p.Named(pkg, typ)
	if n == nil {
		return nil
	}
	var r []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if f := p.SSA.FuncValue(n.Method(i)); f != nil {
			r = append(r, f)
		}
	}
	return r
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(strings.TrimPrefix(q.Filename, p.Dir), "/"), q.Line)
}

// TypeName gives "pkg.Name" of a (pointer to a) named type, or "".
func TypeName(t types.Type) string {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}
