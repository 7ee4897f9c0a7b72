package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/sira-serverless-ir-arch/goirlib"

// Program is the loaded repository: SSA built from the current working tree.
type Program struct {
	Prog    *ssa.Program
	Pkgs    []*ssa.Package
	TPkgs   map[string]*types.Package // by path (repo packages and their dependencies)
	byName  map[string][]*types.Package
	Funcs   map[string]*ssa.Function // by key
	RepoDir string
}

func shortPath(p string) string {
	if p == modPath {
		return "main"
	}
	return strings.TrimPrefix(p, modPath+"/")
}

func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// LoadProgram loads the given package patterns of the repository.
func LoadProgram(dir string, patterns []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pk {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading %s: %s", dir, strings.Join(errs, "; "))
	}
	prog, sp := ssautil.AllPackages(pk, 0)
	P := &Program{Prog: prog, TPkgs: map[string]*types.Package{}, byName: map[string][]*types.Package{}, Funcs: map[string]*ssa.Function{}, RepoDir: dir}
	for _, p := range prog.AllPackages() {
		P.TPkgs[p.Pkg.Path()] = p.Pkg
		P.byName[p.Pkg.Name()] = append(P.byName[p.Pkg.Name()], p.Pkg)
	}
	for _, l := range P.byName {
		sort.Slice(l, func(i, j int) bool {
			ri, rj := isRepoPkg(l[i]), isRepoPkg(l[j])
			if ri != rj {
				return ri
			}
			return l[i].Path() < l[j].Path()
		})
	}
	for _, p := range prog.AllPackages() {
		if isRepoPkg(p.Pkg) {
			p.Build()
			P.Pkgs = append(P.Pkgs, p)
		}
	}
	_ = sp
	for _, p := range P.Pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				P.addFunc(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					if named, ok := m.Type().(*types.Named); ok {
						for i := 0; i < named.NumMethods(); i++ {
							if f := prog.FuncValue(named.Method(i)); f != nil {
								P.addFunc(f)
							}
						}
						_ = t
					}
				}
			}
		}
	}
	return P, nil
}

func (p *Program) addFunc(f *ssa.Function) {
	k := funcKey(f)
	if _, ok := p.Funcs[k]; ok {
		return
	}
	p.Funcs[k] = f
	for _, a := range f.AnonFuncs {
		p.addFunc(a)
	}
}

// funcKey is the name contracts use: pkg.F, (pkg.T).M, (*pkg.T).M, pkg.F$1.
func funcKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Parent() != nil {
		n := f.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			return funcKey(f.Parent()) + n[i:]
		}
		return funcKey(f.Parent()) + "$" + n
	}
	if recv := f.Signature.Recv(); recv != nil {
		return methodKey(recv.Type(), f.Name())
	}
	if f.Pkg != nil {
		return shortPath(f.Pkg.Pkg.Path()) + "." + f.Name()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return shortPath(f.Object().Pkg().Path()) + "." + f.Name()
	}
	return f.String()
}

func methodKey(t types.Type, name string) string {
	star := ""
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		star = "*"
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		pp := ""
		if o.Pkg() != nil {
			pp = shortPath(o.Pkg().Path()) + "."
		}
		return "(" + star + pp + o.Name() + ")." + name
	}
	return "(" + star + t.String() + ")." + name
}
