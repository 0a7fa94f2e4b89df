// Package load type-checks the repository under analysis and builds its SSA.
package load

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Module is the import path prefix of the analysed module.
const Module = "github.com/hpinc/go3mf"

// Program is the analysed program.
type Program struct {
	Root   string
	Pkgs   []*packages.Package
	SSA    *ssa.Program
	ByPath map[string]*ssa.Package
	Fset   *token.FileSet
}

// Load loads every package of the repository from source.
func Load(root string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  root,
		Env:  append(os.Environ(), "GOWORK=off", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, Module) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{Root: root, SSA: prog, ByPath: map[string]*ssa.Package{}, Fset: prog.Fset}
	for _, pk := range pkgs {
		p.Pkgs = append(p.Pkgs, pk)
		sp := prog.Package(pk.Types)
		sp.Build()
		p.ByPath[pk.PkgPath] = sp
	}
	if sp := prog.ImportedPackage("sort"); sp != nil { // its searches are interpreted
		sp.Build()
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	if len(p.Pkgs) < 9 {
		return nil, fmt.Errorf("only %d packages loaded", len(p.Pkgs))
	}
	return p, nil
}

// InRepo tells whether fn is declared in the analysed module.
func InRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return false
	}
	pp := fn.Pkg.Pkg.Path()
	return pp == Module || strings.HasPrefix(pp, Module+"/")
}

// Pos renders a position relative to the repository.
func (p *Program) Pos(pos token.Position) string {
	f := pos.Filename
	if r, err := filepath.Rel(p.Root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, pos.Line)
}

// Pkg returns a package of the module ("" is the root package).
func (p *Program) Pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.ByPath[Module]
	}
	return p.ByPath[Module+"/"+rel]
}

// Funcs lists the functions with bodies of a package of the module: package
// functions, methods and the closures inside them.
func (p *Program) Funcs(rel string) []*ssa.Function {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	var out []*ssa.Function
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || len(fn.Blocks) == 0 || fn.Synthetic != "" && fn.Name() != "init" {
			return
		}
		out = append(out, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, m := range pk.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.SSA.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					fn := p.SSA.MethodValue(ms.At(i))
					if fn != nil && fn.Pkg == pk && !seen[fn] {
						seen[fn] = true
						add(fn)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// AllFuncs lists the functions of every package of the module.
func (p *Program) AllFuncs() []*ssa.Function {
	var out []*ssa.Function
	var paths []string
	for pp := range p.ByPath {
		paths = append(paths, pp)
	}
	sort.Strings(paths)
	for _, pp := range paths {
		out = append(out, p.Funcs(strings.TrimPrefix(strings.TrimPrefix(pp, Module), "/"))...)
	}
	return out
}
