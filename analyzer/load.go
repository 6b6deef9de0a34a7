package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/analyzer/sx"
)

const modPath = "github.com/steve-care-software/steve"

// Program is the analysed repository.
type Program struct {
	Dir   string
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	ByRel map[string]*ssa.Package // path relative to the module
	Funcs []*ssa.Function         // source functions of the module

	callers map[*ssa.Function][]*ssa.CallCommon
	btypes  map[*types.Named]bool
	defs    *definitions
	backs   map[string]string

	never      map[*ssa.Function]bool
	neverCalls map[string]int
}

var overlays map[string][]byte

func load(dir string) (*Program, error) {
	env := []string{}
	for _, kv := range os.Environ() {
		k := kv[:strings.IndexByte(kv, '=')]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GOENV", "CGO_ENABLED", "GO111MODULE", "GOSUMDB":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=-mod=vendor", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOENV=off", "CGO_ENABLED=0", "GOSUMDB=off")
	cfg := &packages.Config{
		Dir:     dir,
		Env:     env,
		Overlay: overlays,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedSyntax | packages.NeedTypesSizes | packages.NeedModule,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no package found in %s", dir)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("package %s does not type-check: %s", p.PkgPath, e.Error())
		}
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	pr := &Program{Dir: dir, Pkgs: pkgs, SSA: prog, ByRel: map[string]*ssa.Package{}}
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.Build()
		rel := strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, modPath), "/")
		pr.ByRel[rel] = p
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || fn.Synthetic != "" || len(fn.Blocks) == 0 {
			continue
		}
		if strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			pr.Funcs = append(pr.Funcs, fn)
		}
	}
	sort.Slice(pr.Funcs, func(i, j int) bool { return pr.Funcs[i].String() < pr.Funcs[j].String() })
	sx.Alternatives = pr.alternatives()
	return pr, nil
}

func (p *Program) inRepo(pkg *types.Package) bool {
	return pkg != nil && strings.HasPrefix(pkg.Path(), modPath)
}

func (p *Program) engine() *sx.Engine {
	sx.Repo = p.inRepo
	sx.NeverNil = p.neverNilCall
	return &sx.Engine{
		Prog:     p.SSA,
		InRepo:   p.inRepo,
		MaxPaths: 20000,
		MaxDepth: 14,
		Inline: func(root, caller, callee *ssa.Function) bool {
			if callee.Pkg == nil {
				return false
			}
			return callee.Pkg == root.Pkg
		},
	}
}

// findFunc finds a function or method by "rel/pkg:Name" or "rel/pkg:Type.Name".
func (p *Program) findFunc(spec string) *ssa.Function {
	i := strings.LastIndexByte(spec, ':')
	pkg := p.ByRel[spec[:i]]
	if pkg == nil {
		return nil
	}
	name := spec[i+1:]
	if j := strings.IndexByte(name, '.'); j >= 0 {
		t, ok := pkg.Members[name[:j]].(*ssa.Type)
		if !ok {
			return nil
		}
		for _, ty := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
			if f := p.SSA.LookupMethod(ty, pkg.Pkg, name[j+1:]); f != nil && f.Synthetic == "" {
				return f
			}
		}
		return nil
	}
	return pkg.Func(name)
}
