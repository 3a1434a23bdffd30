package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/Ptt-official-app/go-bbs"

// Program is the type-checked and SSA-built form of the repository.
type Program struct {
	Dir     string
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	SSA     *ssa.Program
	ByPkg   map[string]*ssa.Package // import path relative to the module ("" is the root)
	written map[*ssa.Global]bool
	Funcs   []*ssa.Function // every source function and closure of the repository
}

func relPkg(path string) string {
	if path == modPath {
		return ""
	}
	return strings.TrimPrefix(path, modPath+"/")
}

func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Fset: pkgs[0].Fset, Pkgs: pkgs, SSA: prog, ByPkg: map[string]*ssa.Package{}}
	mine := map[*ssa.Package]bool{}
	for i, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.ByPkg[relPkg(pkgs[i].PkgPath)] = s
		mine[s] = true
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil || fn.Synthetic != "" && fn.Syntax() == nil && fn.Name() != "init" {
			continue
		}
		pk := fn.Pkg
		for q := fn; pk == nil && q.Parent() != nil; q = q.Parent() {
			pk = q.Parent().Pkg
		}
		if pk != nil && mine[pk] {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if a, b := p.Funcs[i].String(), p.Funcs[j].String(); a != b {
			return a < b
		}
		return p.Funcs[i].Pos() < p.Funcs[j].Pos()
	})
	return p, nil
}

// isMine tells whether a package belongs to the repository.
func isMinePath(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (p *Program) Func(pkg, name string) *ssa.Function {
	s := p.ByPkg[pkg]
	if s == nil {
		return nil
	}
	return s.Func(name)
}

func (p *Program) Type(pkg, name string) types.Type {
	s := p.ByPkg[pkg]
	if s == nil {
		return nil
	}
	t := s.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

// Method finds method name of *T (promoted methods included).
func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	t := p.Type(pkg, typ)
	if t == nil {
		return nil
	}
	sp := p.ByPkg[pkg]
	ms := p.SSA.MethodSets.MethodSet(types.NewPointer(t))
	sel := ms.Lookup(sp.Pkg, name)
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

func fnKey(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return strings.ReplaceAll(fn.String(), modPath, "bbs")
}
