package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog   *ssa.Program
	fset   *token.FileSet
	pkgs   []*ssa.Package
	specs  *Specs
	byName map[string]*ssa.Function
	repo   string
	dir    string
	probs  []string // contracts without a usable target
}

var theWorld *World

func repoDir() string {
	if d := os.Getenv("GOVC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadWorld(dir string) (*World, error) {
	repo := repoDir()
	w := &World{repo: repo, dir: dir, byName: map[string]*ssa.Function{}}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile,
		Dir:  repo,
		Env:  os.Environ(),
	}
	ps, err := packages.Load(cfg, "./lib/...", "./cmd/...", "./simulations/...")
	if err != nil {
		return nil, err
	}
	var ok []*packages.Package
	for _, p := range ps {
		bad := false
		for _, e := range p.Errors {
			bad = true
			w.probs = append(w.probs, fmt.Sprintf("%s: %v", p.PkgPath, e))
		}
		if !bad {
			ok = append(ok, p)
		}
	}
	if len(ok) == 0 {
		return nil, fmt.Errorf("no package loads: %v", w.probs)
	}
	prog, sp := ssautil.Packages(ok, ssa.InstantiateGenerics|ssa.GlobalDebug*0)
	prog.Build()
	w.prog = prog
	w.fset = prog.Fset
	for _, p := range sp {
		if p != nil {
			w.pkgs = append(w.pkgs, p)
		}
	}
	w.loadC("lib/matrix")
	sort.Slice(w.pkgs, func(i, j int) bool { return w.pkgs[i].Pkg.Path() < w.pkgs[j].Pkg.Path() })
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				w.byName[shortName(x)] = x
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Pkg == p {
							w.byName[shortName(f)] = f
						}
					}
				}
			}
		}
	}
	w.specs, err = loadSpecs(filepath.Join(dir, "contracts"))
	if err != nil {
		return nil, err
	}
	drop := map[string]bool{}
	for _, n := range strings.Split(os.Getenv("GOVC_DROP"), ",") {
		drop[n] = true
	}
	for _, c := range w.specs.contracts {
		if drop[c.name] {
			continue
		}
		if c.theorem || c.lemma {
			continue
		}
		f := w.byName[c.name]
		if f == nil {
			if c.assumed && w.specs.iface[c.name] == nil {
				w.specs.ext[c.name] = c
			}
			continue
		}
		if len(c.params) != len(f.Params) {
			continue
		}
		c.fn = f
		w.specs.byFn[f] = c
	}
	theWorld = w
	return w, nil
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	x := w.fset.Position(p)
	f := x.Filename
	if r, err := filepath.Rel(w.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, x.Line)
}

// typeOf resolves a type written in a theorem header.
func (w *World) typeOf(s string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(w.typeOf(s[2:]))
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(w.typeOf(s[1:]))
	case strings.HasPrefix(s, "chan "):
		return types.NewChan(types.SendRecv, w.typeOf(s[5:]))
	case strings.HasPrefix(s, "map["):
		i := strings.Index(s, "]")
		return types.NewMap(w.typeOf(s[4:i]), w.typeOf(s[i+1:]))
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	if i := strings.LastIndex(s, "."); i >= 0 {
		for _, p := range w.pkgs {
			if shortPkg(p.Pkg.Path()) == s[:i] {
				if t, ok := p.Pkg.Scope().Lookup(s[i+1:]).(*types.TypeName); ok {
					return t.Type()
				}
			}
		}
		for _, p := range w.prog.AllPackages() {
			if p.Pkg.Path() == s[:i] || p.Pkg.Name() == s[:i] {
				if t, ok := p.Pkg.Scope().Lookup(s[i+1:]).(*types.TypeName); ok {
					return t.Type()
				}
			}
		}
	}
	bail("unknown type %q", s)
	return nil
}
