package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog      *ssa.Program
	pkgs      []*ssa.Package
	contracts map[string]*Contract // by function full name
	byShort   map[string]*Contract // by contract name
	specs     map[string]*SpecFunc
	mutable   map[string]string // global -> why
	byName    map[string]*ssa.Function
	fset      *token.FileSet
	pkgNames  map[string]*types.Package
	errStrT   types.Type
	tier      string
	initOrder []*ssa.Package
	cons      []*Contract
}

func (w *World) obTO() int {
	if w.tier == "thorough" {
		return 60000
	}
	return 10000
}
func (w *World) secondSolver() string { return "z3-new" }

func loadWorld(repo string) (*World, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: fset, Env: os.Environ()}
	ps, err := packages.Load(cfg, "./core/...", "./dbs/...", "./api/...", "./testexec/...")
	if err != nil {
		return nil, err
	}
	var bad []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				bad = append(bad, e.Error())
			}
		}
	})
	if len(bad) > 0 {
		return nil, fmt.Errorf("the repository does not compile: %s", strings.Join(bad, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, fset: fset, contracts: map[string]*Contract{}, byShort: map[string]*Contract{}, byName: map[string]*ssa.Function{}, pkgNames: map[string]*types.Package{}, mutable: map[string]string{}}
	seen := map[*types.Package]bool{}
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		if strings.HasPrefix(path, modPath) {
			w.pkgs = append(w.pkgs, p)
		}
	}
	sort.Slice(w.pkgs, func(i, j int) bool { return w.pkgs[i].Pkg.Path() < w.pkgs[j].Pkg.Path() })
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		if path == "errors" {
			w.errStrT = types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type())
		}
		if !strings.HasPrefix(path, modPath) {
			if _, ok := w.pkgNames[p.Pkg.Name()]; !ok && !strings.Contains(path, "internal") && !strings.Contains(path, "vendor") {
				w.pkgNames[p.Pkg.Name()] = p.Pkg
			}
		}
	}
	// repository packages by the last two path elements joined with _ and by name (unique ones)
	cnt := map[string]int{}
	for _, p := range w.pkgs {
		cnt[p.Pkg.Name()]++
	}
	for _, p := range w.pkgs {
		el := strings.Split(p.Pkg.Path(), "/")
		if len(el) >= 2 {
			w.pkgNames[el[len(el)-2]+"_"+el[len(el)-1]] = p.Pkg
		}
		if p.Pkg.Path() == modPath+"/"+el[len(el)-1] {
			w.pkgNames["root_"+el[len(el)-1]] = p.Pkg
		}
		if cnt[p.Pkg.Name()] == 1 {
			w.pkgNames[p.Pkg.Name()] = p.Pkg
		}
	}
	for n, pth := range map[string]string{"fdoshared": "/core/shared"} {
		for _, p := range w.pkgs {
			if p.Pkg.Path() == modPath+pth {
				w.pkgNames[n] = p.Pkg
			}
		}
	}
	// standard names win over vendored look-alikes
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == p.Pkg.Name() {
			w.pkgNames[p.Pkg.Name()] = p.Pkg
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		w.byName[f.String()] = f
	}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] || !strings.HasPrefix(p.Path(), modPath) {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		w.initOrder = append(w.initOrder, prog.Package(p))
	}
	for _, p := range w.pkgs {
		visit(p.Pkg)
	}
	w.scanMutable()
	return w, nil
}

func globalOf(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
}

// scanMutable finds package variables written outside package initialisation; they stay arbitrary.
func (w *World) scanMutable() {
	for _, f := range w.byName {
		if !isRepo(f) || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				var g *ssa.Global
				switch x := in.(type) {
				case *ssa.Store:
					g = globalOf(x.Addr)
					if g2, ok := x.Val.(*ssa.Global); ok {
						w.mutable[g2.String()] = "address stored in " + f.String()
					}
				case *ssa.MapUpdate:
					g = globalOf(x.Map)
				case ssa.CallInstruction:
					for i, a := range x.Common().Args {
						if g2, ok := a.(*ssa.Global); ok && isRepoPkg(g2.Pkg) {
							if c := x.Common().StaticCallee(); c != nil && len(c.Blocks) > 0 && i < len(c.Params) && onlyRead(c.Params[i], map[ssa.Value]bool{}) {
								continue
							}
							w.mutable[g2.String()] = "address passed in " + f.String()
						}
					}
					if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "clear") {
						g = globalOf(x.Common().Args[0])
					}
				}
				if g != nil {
					w.mutable[g.String()] = "written in " + f.String()
				}
			}
		}
	}
}

// onlyRead: nothing is written through v, and it is not kept.
func onlyRead(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() != types.UnsafePointer {
		return true
	}
	if v.Referrers() == nil {
		return false
	}
	for _, in := range *v.Referrers() {
		switch x := in.(type) {
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Slice, *ssa.ChangeType, *ssa.Phi, *ssa.Extract, *ssa.Range, *ssa.Next, *ssa.Lookup:
			if !onlyRead(x.(ssa.Value), seen) {
				return false
			}
		case *ssa.BinOp, *ssa.DebugRef, *ssa.If:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "len" || b.Name() == "cap" {
					continue
				}
				return false
			}
			c := x.Call.StaticCallee()
			if c == nil || len(c.Blocks) == 0 {
				return false
			}
			for i, a := range x.Call.Args {
				if a == v && (i >= len(c.Params) || !onlyRead(c.Params[i], seen)) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func isRepoPkg(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}

// bindContracts resolves contract names to functions.
func (w *World) bindContracts(cons []*Contract) []string {
	var bad []string
	for _, c := range cons {
		i := strings.Index(c.Name, ".")
		pk, fn := c.Name[:i], c.Name[i+1:]
		p := w.pkgNames[pk]
		if p == nil {
			bad = append(bad, "unknown package "+pk)
			continue
		}
		full := p.Path() + "." + fn
		if j := strings.Index(fn, "."); j >= 0 {
			// Type.Method
			full = "(*" + p.Path() + "." + fn[:j] + ")." + fn[j+1:]
			f := w.byName[full]
			if f == nil || f.Synthetic != "" {
				full = "(" + p.Path() + "." + fn[:j] + ")." + fn[j+1:]
			}
		}
		if w.byName[full] == nil {
			// generic functions: find by origin
			found := false
			for n, f := range w.byName {
				if f.Origin() != nil && f.Origin().String() == full {
					full = n
					found = true
					break
				}
			}
			if !found {
				bad = append(bad, c.Name)
				continue
			}
		}
		c.FullName = full
		w.contracts[full] = c
		w.byShort[c.Name] = c
	}
	w.cons = cons
	return bad
}

// api lists external functions called from the repository.
func (w *World) api(filter string) {
	cnt := map[string]int{}
	for _, f := range w.byName {
		if !isRepo(f) || !strings.Contains(pkgPath(f), filter) {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if s := c.Common().StaticCallee(); s != nil {
					if !isRepo(s) {
						cnt[fnName(s)]++
					}
				} else if c.Common().IsInvoke() {
					cnt["invoke "+c.Common().Value.Type().String()+"."+c.Common().Method.Name()]++
				}
			}
		}
	}
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("%4d %s\n", cnt[k], k)
	}
}
