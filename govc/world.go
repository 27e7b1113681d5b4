package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog      *ssa.Program
	spkgs     []*ssa.Package
	pkgByName map[string]*types.Package
	modPath   string
	fnByKey   map[string]*ssa.Function
	contracts map[string]*Contract
	fns       map[string]*SpecFn
	lemmas    map[string]*Lemma
	lemmaList []*Lemma
	ghosts    map[string]*GhostField
	fnFiles   map[string]string
	declPos   map[string]int
	initFacts map[*ssa.Global]*ssa.MakeMap
	usesMap   map[string]map[string]bool
	recDefs   map[string]*recInfo
	baseLoops map[string][]loopBase
	curLoops  map[string][]loopBase
}

type loopBase struct {
	Phis  []string
	Names []string
}

func pkgShort(p *types.Package) string {
	if p.Name() == "main" {
		return filepath.Base(p.Path())
	}
	return p.Name()
}

func loadWorld(repo string, specs []string) *World {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fatal("load: %v", err)
	}
	nerr := 0
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load error:", e)
			nerr++
		}
	}
	if nerr > 0 {
		fatal("package errors")
	}
	prog, sp := ssautil.Packages(pkgs, ssa.GlobalDebug)
	prog.Build()
	w := &World{prog: prog, pkgByName: map[string]*types.Package{}, fnByKey: map[string]*ssa.Function{},
		contracts: map[string]*Contract{}, fns: map[string]*SpecFn{}, lemmas: map[string]*Lemma{},
		ghosts: map[string]*GhostField{}, declPos: map[string]int{}, recDefs: map[string]*recInfo{},
		baseLoops: map[string][]loopBase{}, curLoops: map[string][]loopBase{}}
	for i, p := range pkgs {
		if sp[i] == nil {
			continue
		}
		w.spkgs = append(w.spkgs, sp[i])
		if p.Module != nil {
			w.modPath = p.Module.Path
		}
		w.pkgByName[pkgShort(sp[i].Pkg)] = sp[i].Pkg
	}
	// imported packages, reachable by name unless shadowed by a repo package
	var addImports func(p *types.Package)
	seen := map[*types.Package]bool{}
	addImports = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			if _, ok := w.pkgByName[q.Name()]; !ok {
				w.pkgByName[q.Name()] = q
			}
			addImports(q)
		}
	}
	for _, p := range w.spkgs {
		addImports(p.Pkg)
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || f.Blocks == nil {
			continue
		}
		if !strings.HasPrefix(f.Pkg.Pkg.Path(), w.modPath) {
			continue
		}
		w.fnByKey[fnKey(f)] = f
	}
	for i, s := range specs {
		sf := parseSpecFile(s)
		_ = i
		for _, c := range sf.Contracts {
			k := c.Pkg + "." + c.Key
			if c.Extern {
				k = c.Key
			}
			if w.contracts[k] != nil {
				fatal("%s:%d: duplicate contract %s", c.File, c.Line, k)
			}
			w.contracts[k] = c
		}
		for _, f := range sf.Fns {
			if w.fns[f.Name] != nil {
				fatal("%s:%d: duplicate spec func %s", f.File, f.Line, f.Name)
			}
			w.fns[f.Name] = f
		}
		for _, l := range sf.Lemmas {
			if w.lemmas[l.Name] != nil {
				fatal("%s:%d: duplicate lemma %s", l.File, l.Line, l.Name)
			}
			w.lemmas[l.Name] = l
			w.declPos["lemma "+l.Name] = len(w.lemmaList)
			w.lemmaList = append(w.lemmaList, l)
		}
		for _, g := range sf.Ghosts {
			w.ghosts[g.Type+"."+g.Field] = g
		}
	}
	w.findInitMaps()
	return w
}

func fnKey(f *ssa.Function) string {
	if f.Parent() != nil {
		// anonymous functions: parent$N
		return fnKey(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	p := pkgShort(f.Pkg.Pkg)
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			return p + ".(*" + pt.Elem().(*types.Named).Obj().Name() + ")." + f.Name()
		}
		if n, ok := t.(*types.Named); ok {
			return p + ".(" + n.Obj().Name() + ")." + f.Name()
		}
	}
	return p + "." + f.Name()
}

func (w *World) inRepo(f *ssa.Function) bool {
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), w.modPath) && f.Blocks != nil
}

// findInitMaps records package-level map variables initialised by a literal and
// never written elsewhere.
func (w *World) findInitMaps() {
	w.initFacts = map[*ssa.Global]*ssa.MakeMap{}
	bad := map[*ssa.Global]bool{}
	for _, p := range w.spkgs {
		for _, m := range p.Members {
			f, ok := m.(*ssa.Function)
			if !ok || f.Name() != "init" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							if mm, ok := s.Val.(*ssa.MakeMap); ok {
								w.initFacts[g] = mm
							}
						}
					}
				}
			}
		}
	}
	for _, f := range w.fnByKey {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch s := in.(type) {
				case *ssa.Store:
					if g, ok := s.Addr.(*ssa.Global); ok && f.Name() != "init" {
						bad[g] = true
					}
				case *ssa.MapUpdate:
					if u, ok := s.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok {
							bad[g] = true
						}
					}
				}
			}
		}
	}
	for g := range bad {
		delete(w.initFacts, g)
	}
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "govc: "+f+"\n", a...)
	os.Exit(3)
}

func (w *World) resolveType(t *SType, pkg string) *Ty {
	switch t.K {
	case "ptr":
		e := w.resolveType(t.Elem, pkg)
		if e.Go == nil {
			return &Ty{K: "ref"}
		}
		return tyOf(types.NewPointer(e.Go))
	case "slice":
		e := w.resolveType(t.Elem, pkg)
		return tyOf(types.NewSlice(e.Go))
	case "array":
		e := w.resolveType(t.Elem, pkg)
		return tyOf(types.NewArray(e.Go, int64(t.N)))
	case "seq":
		return &Ty{K: "seq", Elem: w.resolveType(t.Elem, pkg)}
	case "map":
		k := w.resolveType(t.Key, pkg)
		e := w.resolveType(t.Elem, pkg)
		return tyOf(types.NewMap(k.Go, e.Go))
	}
	switch t.Name {
	case "ref":
		return &Ty{K: "ref"}
	case "amap": // mathematical array Int -> Int
		return &Ty{K: "array", Elem: tyInt}
	}
	if o := types.Universe.Lookup(t.Name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tyOf(tn.Type())
		}
	}
	n := t.Name
	p := pkg
	if i := strings.Index(n, "."); i >= 0 {
		p, n = n[:i], n[i+1:]
	}
	tp := w.pkgByName[p]
	if tp == nil {
		fatal("unknown package %s in type %s", p, t.Name)
	}
	o := tp.Scope().Lookup(n)
	if o == nil {
		panic(unsupported("unknown type " + t.Name + " in package " + p))
	}
	return tyOf(o.Type())
}

type unsup struct{ msg string }

func unsupported(m string) unsup { return unsup{m} }

func sortedFnKeys(m map[string]*ssa.Function) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ ast.Node
