package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	Prog    *ssa.Program
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	names   map[string]*types.Package
	ModPath string
	funcs   map[string]*ssa.Function
	gids    map[string]int
	unspec  map[string]bool
	all     []*ssa.Function
}

func loadProgram(repo string, patterns []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{Prog: prog, Fset: prog.Fset, Pkgs: pkgs, names: map[string]*types.Package{}, funcs: map[string]*ssa.Function{}, gids: map[string]int{}, unspec: map[string]bool{}}
	pr.ModPath = "github.com/hsiaosiyuan0/mole"
	for _, p := range pkgs {
		if old := pr.names[p.Types.Name()]; old != nil && len(old.Scope().Names()) >= len(p.Types.Scope().Names()) {
			continue // directories of tests share the name of the package they test
		}
		pr.names[p.Types.Name()] = p.Types
	}
	// dependencies visible by package name as well (repo packages win)
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types != nil {
			if _, ok := pr.names[p.Types.Name()]; !ok {
				pr.names[p.Types.Name()] = p.Types
			}
		}
	})
	for fn := range ssautil.AllFunctions(prog) {
		pr.all = append(pr.all, fn)
		if fn.Origin() != nil && fn.Origin() != fn {
			k := pr.fnKey(fn) + fmt.Sprint(fn.TypeArgs())
			pr.funcs[k] = fn
			continue
		}
		if fn.Synthetic != "" && len(fn.Blocks) > 0 && !strings.HasPrefix(fn.Synthetic, "package init") {
			continue
		}
		k := pr.fnKey(fn)
		if old, ok := pr.funcs[k]; !ok || len(old.Blocks) == 0 {
			pr.funcs[k] = fn
		}
	}
	// methods of generic types, in their uninstantiated form
	for _, p := range pkgs {
		sc := p.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			n, ok := types.Unalias(tn.Type()).(*types.Named)
			if !ok || n.TypeParams().Len() == 0 {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				if fn := prog.FuncValue(n.Method(i)); fn != nil && len(fn.Blocks) > 0 {
					pr.funcs[pr.fnKey(fn)] = fn
				}
			}
		}
	}
	return pr, nil
}

func (pr *Program) globalID(k string) int {
	if n, ok := pr.gids[k]; ok {
		return n
	}
	n := len(pr.gids) + 1
	pr.gids[k] = n
	return n
}

func (pr *Program) noteUnspecLoop(a, b string, i int) {}

func (pr *Program) byName(n string) *types.Package { return pr.names[n] }

func (pr *Program) resolveType(set *SpecSet, t *TypeExpr, pkg string) types.Type {
	switch t.Kind {
	case "ptr":
		return types.NewPointer(pr.resolveType(set, t.Elem, pkg))
	case "slice":
		return types.NewSlice(pr.resolveType(set, t.Elem, pkg))
	case "array":
		return types.NewArray(pr.resolveType(set, t.Elem, pkg), int64(t.N))
	case "map":
		return types.NewMap(pr.resolveType(set, t.Key, pkg), pr.resolveType(set, t.Elem, pkg))
	}
	if len(t.Args) > 0 {
		o := *t
		o.Args = nil
		g := pr.resolveType(set, &o, pkg)
		var as []types.Type
		for _, a := range t.Args {
			as = append(as, pr.resolveType(set, a, pkg))
		}
		r, err := types.Instantiate(nil, g, as, false)
		if err != nil {
			unsupported("type %s: %v", t.Name, err)
		}
		return r
	}
	if set.Sorts[t.Name] {
		return &ghostType{name: t.Name}
	}
	if t.Name == "TPar" {
		return &ghostType{name: "TPar"}
	}
	if t.Name == "Ref" {
		return types.Typ[types.UnsafePointer]
	}
	if i := strings.Index(t.Name, "."); i > 0 {
		p := pr.names[t.Name[:i]]
		if p == nil {
			unsupported("unknown package in type %s", t.Name)
		}
		if o := p.Scope().Lookup(t.Name[i+1:]); o != nil {
			return o.Type()
		}
		unsupported("unknown type %s", t.Name)
	}
	if p := pr.names[pkg]; p != nil {
		if o := p.Scope().Lookup(t.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	}
	if o := types.Universe.Lookup(t.Name); o != nil {
		return o.Type()
	}
	unsupported("unknown type %s (package %s)", t.Name, pkg)
	return nil
}

func (pr *Program) find(key string) *ssa.Function {
	if fn := pr.funcs[key]; fn != nil && len(fn.Blocks) > 0 {
		return fn
	}
	// generic: any instance, chosen deterministically
	var ks []string
	for k := range pr.funcs {
		if strings.HasPrefix(k, key+"[") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if len(pr.funcs[k].Blocks) > 0 {
			concrete := true
			for _, a := range pr.funcs[k].TypeArgs() {
				if _, ok := types.Unalias(a).(*types.TypeParam); ok {
					concrete = false
				}
			}
			if concrete {
				return pr.funcs[k]
			}
		}
	}
	return nil
}
