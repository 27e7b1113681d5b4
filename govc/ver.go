package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation.
type Obl struct {
	Unit   string
	Name   string
	Kind   string
	Facts  *FactNode
	Goal   string
	Pos    string
	Cover  bool // must NOT be provable (vacuity guard)
	V      *Ver
	Status string
	Solver string
	Secs   float64
	Fuel   int
	Out    string
	Timeout int
	Query   string // a complete query of its own (bit-vector lemmas)
}

type recInfo struct {
	f     *SpecFn
	comps []*Comp
	pars  []string // smt parameter declarations (heap then args)
	names []string
	body  string // with @ for the lower level name
	ret   string
	text  string
}

type Ver struct {
	w        *World
	reg      *Registry
	unit     string
	pkg      string
	n        int
	declSort map[string]string
	declAx   map[string][]string
	decls    []string
	obls     []*Obl
	initHeap map[string]string
	recs     map[string]*recInfo
	recBusy  map[string]bool
	usedFns  map[string]bool
	boxesU   map[string]string
	globals  map[string]string
	c        *Contract
	fn       *ssa.Function
	entry    *Ctx
	mods     []modTerm
	modAll   bool
	noFrame  bool
	trivial  int
	assumes  map[string]bool
	callees  map[string]bool // contracts relied on
	lemmasU  map[string]bool
	inlined  map[string]bool
	ordinal  map[string]int
	lemma    *Lemma
	paths    int
	localN   int
	notes    []string
	fuel     int
	loopKeys map[string]*LoopSpec
	loopNum  map[string]int
	loopSeen map[string]int
	coverN   int
	dropped  []string
	specComps map[string]bool
	localT   map[int]*Ty
}

func newVer(w *World, unit, pkg string) *Ver {
	return &Ver{w: w, reg: newRegistry(), unit: unit, pkg: pkg, declSort: map[string]string{}, declAx: map[string][]string{},
		initHeap: map[string]string{}, recs: map[string]*recInfo{}, recBusy: map[string]bool{}, usedFns: map[string]bool{},
		boxesU: map[string]string{}, globals: map[string]string{}, assumes: map[string]bool{}, callees: map[string]bool{},
		lemmasU: map[string]bool{}, inlined: map[string]bool{}, ordinal: map[string]int{}, fuel: 2,
		loopKeys: map[string]*LoopSpec{}, loopNum: map[string]int{}, loopSeen: map[string]int{}, localT: map[int]*Ty{}}
}

func (v *Ver) newName(p string) string {
	v.n++
	return fmt.Sprintf("%s!%d", mangle(p), v.n)
}

func (v *Ver) declare(name, srt string) {
	v.declSort[name] = srt
	v.decls = append(v.decls, name)
}

func (v *Ver) fresh(p, srt string) string {
	n := v.newName(p)
	v.declare(n, srt)
	return n
}

func (v *Ver) bound(p string) string {
	v.n++
	return fmt.Sprintf("%s?%d", mangle(p), v.n)
}

func (v *Ver) box(t *Ty) string {
	s := sortOf(t)
	n := mangle(s)
	v.boxesU[n] = s
	return n
}

func (v *Ver) globalRef(path, name string) string {
	n := "gref_" + mangle(path) + "_" + name
	if _, ok := v.declSort[n]; !ok {
		v.declare(n, "Ref")
		v.declAx[n] = []string{"(= (birth " + n + ") 0)", fmt.Sprintf("(= (rkind %s) %d)", n, -100-len(v.globals))}
		v.globals[n] = n
	}
	return n
}

func (v *Ver) useFn(f *SpecFn) { v.usedFns[f.Name] = true }

// typeFacts for a value of type t at allocation time now
func valFacts(s string, t *Ty, now string) []string {
	var fs []string
	if f := rangeFact(s, t); f != "" {
		fs = append(fs, f)
	}
	switch t.K {
	case "ref", "map", "struct":
		fs = append(fs, "(< (birth "+s+") "+now+")")
	case "slice":
		fs = append(fs, "(and (< (birth (sbase "+s+")) "+now+") (<= 0 (soff "+s+")) (<= 0 (slen "+s+")) (<= (slen "+s+") (scap "+s+")) (=> (= (sbase "+s+") nilref) (and (= (soff "+s+") 0) (= (scap "+s+") 0))))")
	case "iface":
		fs = append(fs, "(and (< (birth (ival "+s+")) "+now+") (<= 0 (itag "+s+")))")
	}
	return fs
}

func (v *Ver) compAxioms(h string, c *Comp, now string) []string {
	switch c.Kind {
	case "global":
		return valFacts(h, c.Val, now)
	case "field", "cell", "ghost":
		s := "(select " + h + " r)"
		fs := valFacts(s, c.Val, now)
		if len(fs) == 0 {
			return nil
		}
		g := and(fs...)
		if c.Val.K != "int" {
			g = imp("(< (birth r) "+now+")", g)
		}
		return []string{"(forall ((r Ref)) (! " + g + " :pattern (" + s + ")))"}
	case "elem":
		s := "(select (select " + h + " r) i)"
		fs := valFacts(s, c.Val, now)
		if len(fs) == 0 {
			return nil
		}
		g := and(fs...)
		if c.Val.K != "int" {
			g = imp("(< (birth r) "+now+")", g)
		}
		return []string{"(forall ((r Ref) (i Int)) (! " + g + " :pattern (" + s + ")))"}
	case "mapval":
		m := c.Go.Underlying().(*types.Map)
		k := tyOf(m.Key())
		s := "(select (select " + h + " r) i)"
		fs := valFacts(s, c.Val, now)
		if len(fs) == 0 {
			return nil
		}
		return []string{"(forall ((r Ref) (i " + sortOf(k) + ")) (! " + imp("(< (birth r) "+now+")", and(fs...)) + " :pattern (" + s + ")))"}
	}
	return nil
}

func (v *Ver) heap0(c *Comp) string {
	if n, ok := v.initHeap[c.Name]; ok {
		return n
	}
	n := c.Name + "!0"
	v.initHeap[c.Name] = n
	v.declare(n, c.Sort)
	v.declAx[n] = v.compAxioms(n, c, "now!0")
	if c.Kind == "global" && c.Val.K == "iface" && !strings.HasPrefix(c.Name, "G_"+mangle(v.w.modPath)) && c.Go != nil && c.Go.String() == "error" {
		// error values of the standard library: not nil, pairwise different, never reassigned
		k := "global " + c.Name
		if _, ok := v.reg.tags[k]; !ok {
			v.reg.tags[k] = 100000 + len(v.reg.tags)
		}
		v.declAx[n] = append(v.declAx[n], fmt.Sprintf("(= (itag %s) %d)", n, v.reg.tags[k]))
	}
	return n
}

func (v *Ver) heapFn(st *State) func(*Comp) string {
	return func(c *Comp) string {
		if h, ok := st.heap[c.Name]; ok {
			return h
		}
		return v.heap0(c)
	}
}

func (v *Ver) hp(st *State, c *Comp) string {
	if h, ok := st.heap[c.Name]; ok {
		return h
	}
	return v.heap0(c)
}

func (v *Ver) setHeap(st *State, c *Comp, term string) {
	n := v.fresh(c.Name, c.Sort)
	st.assume("(= " + n + " " + term + ")")
	st.heap[c.Name] = n
}

// havocComp gives component c a fresh version constrained only by typing.
func (v *Ver) havocComp(st *State, c *Comp) string {
	n := v.fresh(c.Name, c.Sort)
	v.declAx[n] = v.compAxioms(n, c, st.now)
	st.heap[c.Name] = n
	return n
}

func (v *Ver) ctx(st *State) *Ctx {
	c := &Ctx{w: v.w, v: v, pkg: v.pkg, heap: v.heapFn(st), now: st.now, names: st.names, st: st, old: v.entry, fuel: v.fuel, snaps: st.snaps}
	return c
}

func (v *Ver) frozenCtx(st *State) *Ctx {
	s := st.clone()
	c := v.ctx(s)
	c.names = cloneMap(st.names)
	return c
}

func (v *Ver) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := v.w.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (v *Ver) check(st *State, kind, label, goal string, pos token.Pos) {
	name := v.unit + "/" + kind
	if label != "" {
		name += "[" + label + "]"
	}
	if goal == "true" {
		v.trivial++
		return
	}
	gs := splitGoal(goal)
	for i, g := range gs {
		if g == "true" {
			v.trivial++
			continue
		}
		nm := name
		if len(gs) > 1 {
			nm = fmt.Sprintf("%s.%d", name, i+1)
		}
		o := &Obl{Unit: v.unit, Name: nm, Kind: kind, Facts: st.facts, Goal: g, Pos: v.pos(pos), V: v, Fuel: v.fuel}
		if v.c != nil {
			o.Timeout = v.c.Timeout
		}
		v.obls = append(v.obls, o)
		st.assume(g)
	}
}

// splitGoal cuts a conjunction into its parts, also below implications.
func splitGoal(g string) []string {
	if len(g) > 200000 {
		return []string{g}
	}
	if strings.HasPrefix(g, "(and ") {
		var out []string
		for _, p := range splitSexp(g[5 : len(g)-1]) {
			out = append(out, splitGoal(p)...)
		}
		return out
	}
	if strings.HasPrefix(g, "(=> ") {
		ps := splitSexp(g[4 : len(g)-1])
		if len(ps) == 2 && strings.HasPrefix(ps[1], "(and ") || len(ps) == 2 && strings.HasPrefix(ps[1], "(=> ") {
			var out []string
			for _, p := range splitGoal(ps[1]) {
				out = append(out, imp(ps[0], p))
			}
			return out
		}
	}
	return []string{g}
}

// constArr is the array that is z everywhere.
func (v *Ver) constArr(elem, z string) string {
	if _, ok := isLit(z); ok || z == "true" || z == "false" {
		return "((as const (Array Int " + elem + ")) " + z + ")"
	}
	n := "zarr_" + mangle(elem)
	if v.declAx[n] == nil {
		v.declare(n, "(Array Int "+elem+")")
		v.declAx[n] = []string{"(forall ((i Int)) (! (= (select " + n + " i) " + z + ") :pattern ((select " + n + " i))))"}
	}
	return n
}

func (v *Ver) cover(st *State, label string) {
	v.coverN++
	v.obls = append(v.obls, &Obl{Unit: v.unit, Name: v.unit + "/reachable[" + label + "]", Kind: "cover", Facts: st.facts, Goal: "false", Cover: true, V: v, Fuel: v.fuel})
}

// ---------------------------------------------------------------- recursive spec functions

func (v *Ver) recInfoOf(f *SpecFn) *recInfo {
	if r, ok := v.recs[f.Name]; ok {
		return r
	}
	if v.recBusy[f.Name] {
		return nil
	}
	v.recBusy[f.Name] = true
	used := map[string]*Comp{}
	r := &recInfo{f: f}
	nb := map[string]Val{}
	var argNames, argDecl []string
	for _, p := range f.Params {
		t := v.w.resolveType(p.T, f.Pkg)
		n := "a_" + mangle(p.Name)
		nb[p.Name] = mkv(t, n)
		argNames = append(argNames, n)
		argDecl = append(argDecl, "("+n+" "+sortOf(t)+")")
	}
	c := &Ctx{w: v.w, v: v, pkg: f.Pkg, names: map[string]Val{}, bound: nb, now: "now!0", fuel: 1, recFn: f}
	c.heap = func(cp *Comp) string {
		used[cp.Name] = cp
		return "hp_" + cp.Name
	}
	// first pass: collect components; second pass: text
	r.text = "?"
	v.recs[f.Name+"#busy"] = r
	body := c.ev(f.Body)
	for _, k := range sortedKeys(used) {
		r.comps = append(r.comps, used[k])
	}
	rt := v.w.resolveType(f.Ret, f.Pkg)
	r.ret = sortOf(rt)
	for _, cp := range r.comps {
		r.pars = append(r.pars, "(hp_"+cp.Name+" "+cp.Sort+")")
		r.names = append(r.names, "hp_"+cp.Name)
	}
	r.pars = append(r.pars, argDecl...)
	r.names = append(r.names, argNames...)
	body = c.ev(f.Body) // self calls now know the components
	r.body = body.S
	if body.T.K == "nil" {
		r.body = zeroTerm(rt)
	}
	delete(v.recs, f.Name+"#busy")
	v.recs[f.Name] = r
	return r
}

func (v *Ver) recCall(c *Ctx, f *SpecFn, args []Val) string {
	r := v.recs[f.Name]
	self := false
	if r == nil {
		if b := v.recs[f.Name+"#busy"]; b != nil {
			r = b
			self = true
		} else {
			r = v.recInfoOf(f)
		}
	}
	name := "rf_" + f.Name + "__TOP"
	if self {
		name = "rf_" + f.Name + "__LOW"
	} else {
		v.usedFns[f.Name] = true
	}
	var ss []string
	for _, cp := range r.comps {
		ss = append(ss, c.heap(cp))
	}
	for _, a := range args {
		ss = append(ss, a.S)
	}
	if len(ss) == 0 {
		return name
	}
	return "(" + name + " " + strings.Join(ss, " ") + ")"
}

func (r *recInfo) smt(fuel int) string {
	var b strings.Builder
	n := func(k int) string {
		if k == fuel {
			return "rf_" + r.f.Name + "__TOP"
		}
		return fmt.Sprintf("rf_%s__%d", r.f.Name, k)
	}
	var sorts []string
	for _, p := range r.pars {
		sp := splitSexp(p[1 : len(p)-1])
		sorts = append(sorts, sp[1])
	}
	for k := 0; k <= fuel; k++ {
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", n(k), strings.Join(sorts, " "), r.ret)
	}
	for k := 1; k <= fuel; k++ {
		app := "(" + n(k) + " " + strings.Join(r.names, " ") + ")"
		low := "(" + n(k-1) + " " + strings.Join(r.names, " ") + ")"
		body := strings.ReplaceAll(r.body, "rf_"+r.f.Name+"__LOW", n(k-1))
		fmt.Fprintf(&b, "(assert (forall (%s) (! (= %s %s) :pattern (%s))))\n", strings.Join(r.pars, " "), app, body, app)
		fmt.Fprintf(&b, "(assert (forall (%s) (! (= %s %s) :pattern (%s))))\n", strings.Join(r.pars, " "), app, low, app)
	}
	return b.String()
}

// ---------------------------------------------------------------- modifies clauses

type modTerm struct {
	comps map[string]bool
	all   bool   // every ref of these comps
	ref   string // exact ref
	elem  string // base whose elemrefs are modified
	vars  []string
	cond  string
	comp  map[string]*Comp
}

func (v *Ver) structComps(t types.Type, ref string, out *[]modTerm) {
	st := t.Underlying().(*types.Struct)
	m := modTerm{comps: map[string]bool{}, comp: map[string]*Comp{}, ref: ref}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if _, ok := ft.Underlying().(*types.Struct); ok {
			v.structComps(ft, "("+v.reg.subFn(t, i)+" "+ref+")", out)
			continue
		}
		if a, ok := ft.Underlying().(*types.Array); ok {
			cp := v.reg.elemComp(a.Elem())
			*out = append(*out, modTerm{comps: map[string]bool{cp.Name: true}, comp: map[string]*Comp{cp.Name: cp}, ref: "(" + v.reg.subFn(t, i) + " " + ref + ")"})
			continue
		}
		cp := v.reg.fieldComp(t, i)
		m.comps[cp.Name] = true
		m.comp[cp.Name] = cp
	}
	for _, g := range v.w.ghosts {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			if g.Type == n.Obj().Name() && g.Pkg == n.Obj().Pkg().Name() || g.Type == n.Obj().Pkg().Name()+"."+n.Obj().Name() {
				gt := v.w.resolveType(g.T, g.Pkg)
				cp := v.reg.comp("GH_"+mangle(g.Type)+"_"+g.Field, "(Array Ref "+sortOf(gt)+")", "ghost", gt, nil)
				m.comps[cp.Name] = true
				m.comp[cp.Name] = cp
			}
		}
	}
	*out = append(*out, m)
}

func oneComp(cp *Comp, ref string) modTerm {
	return modTerm{comps: map[string]bool{cp.Name: true}, comp: map[string]*Comp{cp.Name: cp}, ref: ref}
}

// modTerms evaluates modifies entries in ctx (pre-state).
func (v *Ver) modTerms(c *Ctx, es []ModEntry) (out []modTerm, every bool) {
	for _, m := range es {
		if m.Every {
			every = true
			continue
		}
		if m.All {
			for _, cp := range v.compsByName(c, m.Comp) {
				t := oneComp(cp, "")
				t.all = true
				out = append(out, t)
			}
			continue
		}
		n := c
		var vars []string
		cond := ""
		if m.Vars != nil {
			nb := map[string]Val{}
			var gs []string
			for _, sv := range m.Vars {
				t := v.w.resolveType(sv.T, c.pkg)
				b := v.bound(sv.Name)
				nb[sv.Name] = mkv(t, b)
				vars = append(vars, "("+b+" "+sortOf(t)+")")
				if f := rangeFact(b, t); f != "" {
					gs = append(gs, f)
				}
				if t.K == "ref" {
					gs = append(gs, "(< (birth "+b+") "+c.now+")")
				}
			}
			n = c.with(nb)
			cond = and(append(gs, n.formula(m.Cond))...)
		}
		k := len(out)
		e := m.E
		switch {
		case e.Op == "field" && e.S == "*":
			b := n.ev(e.A[0])
			if b.T.K == "iface" {
				// ghost state of an interface value
				for _, g := range v.w.ghosts {
					if nm, ok := b.T.Go.(*types.Named); ok && nm.Obj().Pkg() != nil && g.Type == nm.Obj().Pkg().Name()+"."+nm.Obj().Name() {
						gt := v.w.resolveType(g.T, g.Pkg)
						cp := v.reg.comp("GH_"+mangle(g.Type)+"_"+g.Field, "(Array Ref "+sortOf(gt)+")", "ghost", gt, nil)
						out = append(out, oneComp(cp, "(ival "+b.S+")"))
					}
				}
				break
			}
			t, ref, ok := structRef(b)
			if !ok {
				c.fail(e, "modifies x.* of non struct")
			}
			v.structComps(t, ref, &out)
		case e.Op == "field":
			b := n.ev(e.A[0])
			if n.ghostFor(b, e.S) != nil {
				g := n.ghostFor(b, e.S)
				gt := v.w.resolveType(g.T, g.Pkg)
				cp := v.reg.comp("GH_"+mangle(g.Type)+"_"+g.Field, "(Array Ref "+sortOf(gt)+")", "ghost", gt, nil)
				ref := b.S
				if b.T.K == "iface" {
					ref = "(ival " + ref + ")"
				}
				out = append(out, oneComp(cp, ref))
				break
			}
			t, ref, ok := structRef(b)
			if !ok {
				c.fail(e, "modifies field of non struct")
			}
			i := fieldIndex(t, e.S)
			if i < 0 {
				c.fail(e, "no field %s", e.S)
			}
			ft := t.Underlying().(*types.Struct).Field(i).Type()
			switch u := ft.Underlying().(type) {
			case *types.Struct:
				v.structComps(ft, "("+v.reg.subFn(t, i)+" "+ref+")", &out)
			case *types.Array:
				out = append(out, oneComp(v.reg.elemComp(u.Elem()), "("+v.reg.subFn(t, i)+" "+ref+")"))
			default:
				out = append(out, oneComp(v.reg.fieldComp(t, i), ref))
			}
		case e.Op == "call" && e.S == "elems":
			s := n.ev(e.A[0])
			var et types.Type
			base := s.S
			if s.T.K == "slice" {
				et = s.T.Go.Underlying().(*types.Slice).Elem()
				base = sbase(s.S)
			} else if s.T.K == "array" {
				et = s.T.Go.Underlying().(*types.Array).Elem()
			} else if s.T.K == "ref" {
				et = s.T.Go.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()
			} else {
				c.fail(e, "elems of %s", s.T.K)
			}
			if _, ok := et.Underlying().(*types.Struct); ok {
				var tmp []modTerm
				v.structComps(et, "?", &tmp)
				for _, t := range tmp {
					t.ref, t.elem = "", base
					out = append(out, t)
				}
			} else {
				out = append(out, oneComp(v.reg.elemComp(et), base))
			}
		case e.Op == "call" && e.S == "map":
			s := n.ev(e.A[0])
			d, mv := v.reg.mapComps(s.T.Go)
			out = append(out, oneComp(d, s.S), oneComp(mv, s.S))
		case e.Op == "deref":
			s := n.ev(e.A[0])
			pt, ok := s.T.Go.Underlying().(*types.Pointer)
			if !ok {
				continue // a local variable's address passed to an external function: the call site havocs it
			}
			el := pt.Elem()
			if isStructLike(el) {
				v.structComps(el, s.S, &out)
			} else {
				out = append(out, oneComp(v.reg.cellComp(el), s.S))
			}
		case e.Op == "id":
			// a package level variable
			tp := v.w.pkgByName[c.pkg]
			o := tp.Scope().Lookup(e.S)
			if o == nil {
				c.fail(e, "cannot modify %s", e.S)
			}
			cp := v.reg.globalComp(tp.Path(), e.S, o.Type())
			t := oneComp(cp, "")
			t.all = true
			out = append(out, t)
		default:
			c.fail(e, "bad modifies entry")
		}
		for i := k; i < len(out); i++ {
			out[i].vars = vars
			out[i].cond = cond
		}
	}
	return
}

// compsByName resolves "T.f", "T" (all fields), or "elems T".
func (v *Ver) compsByName(c *Ctx, name string) []*Comp {
	parts := strings.Split(name, ".")
	if parts[0] == "elems" {
		t := c.typeArg(mkTypeExpr(parts[1:]))
		if _, ok := t.Underlying().(*types.Struct); ok {
			var tmp []modTerm
			v.structComps(t, "?", &tmp)
			var out []*Comp
			for _, m := range tmp {
				for _, k := range sortedKeys(m.comp) {
					out = append(out, m.comp[k])
				}
			}
			return out
		}
		return []*Comp{v.reg.elemComp(t)}
	}
	if parts[0] == "elemsp" { // elements of []*T
		t := c.typeArg(mkTypeExpr(parts[1:]))
		return []*Comp{v.reg.elemComp(types.NewPointer(t))}
	}
	var t types.Type
	if x := c.namedType(name); x != nil {
		t = x
	}
	if t != nil {
		var tmp []modTerm
		v.structComps(t, "?", &tmp)
		var out []*Comp
		for _, m := range tmp {
			for _, k := range sortedKeys(m.comp) {
				out = append(out, m.comp[k])
			}
		}
		return out
	}
	tn := strings.Join(parts[:len(parts)-1], ".")
	f := parts[len(parts)-1]
	if g := v.w.ghosts[tn+"."+f]; g != nil {
		gt := v.w.resolveType(g.T, g.Pkg)
		return []*Comp{v.reg.comp("GH_"+mangle(g.Type)+"_"+g.Field, "(Array Ref "+sortOf(gt)+")", "ghost", gt, nil)}
	}
	x := c.namedType(tn)
	if x == nil {
		panic(unsupported("modifies all " + name))
	}
	i := fieldIndex(x, f)
	if i < 0 {
		panic(unsupported("modifies all " + name + ": no such field"))
	}
	return []*Comp{v.reg.fieldComp(x, i)}
}

func mkTypeExpr(parts []string) *Expr {
	if len(parts) == 1 {
		return &Expr{Op: "id", S: parts[0]}
	}
	return &Expr{Op: "field", S: parts[1], A: []*Expr{{Op: "id", S: parts[0]}}}
}

// inSet: formula saying that location (comp, ref) is in the set
func inSet(ms []modTerm, comp, ref string) string {
	var alts []string
	for _, m := range ms {
		if !m.comps[comp] {
			continue
		}
		if m.all {
			return "true"
		}
		var f string
		if m.elem != "" {
			f = and("(= (rkind "+ref+") 1)", eq("(eparent "+ref+")", m.elem))
		} else {
			f = eq(ref, m.ref)
		}
		if len(m.vars) > 0 {
			var names []string
			for _, d := range m.vars {
				names = append(names, strings.Fields(strings.Trim(d, "()"))[0])
			}
			f = wrapQuant("exists", names, m.vars, and(m.cond, f), nil)
		}
		alts = append(alts, f)
	}
	return or(alts...)
}

// applyMods havocs the locations of ms in st.  If fresh refs are involved nothing is needed.
func (v *Ver) applyMods(st *State, ms []modTerm, every bool) {
	if every {
		for _, k := range sortedKeys(v.reg.comps) {
			v.havocComp(st, v.reg.comps[k])
		}
		v.notes = append(v.notes, "havoc of everything")
		return
	}
	comps := map[string]*Comp{}
	for _, m := range ms {
		for k, c := range m.comp {
			comps[k] = c
		}
	}
	for _, k := range sortedKeys(comps) {
		cp := comps[k]
		simple := true
		all := false
		var refs []string
		for _, m := range ms {
			if !m.comps[k] {
				continue
			}
			if m.all {
				all = true
			}
			if len(m.vars) > 0 || m.elem != "" {
				simple = false
			}
			refs = append(refs, m.ref)
		}
		h := v.hp(st, cp)
		switch {
		case all:
			v.havocComp(st, cp)
		case simple:
			t := h
			seen := map[string]bool{}
			for _, r := range refs {
				if seen[r] {
					continue
				}
				seen[r] = true
				var vs string
				if cp.Kind == "elem" || cp.Kind == "mapdom" || cp.Kind == "mapval" {
					vs = strings.TrimSuffix(strings.TrimPrefix(cp.Sort, "(Array Ref "), ")")
				} else {
					vs = sortOf(cp.Val)
				}
				x := v.fresh("hv_"+cp.Name, vs)
				switch cp.Kind {
				case "field", "cell", "ghost":
					for _, f := range valFacts(x, cp.Val, st.now) {
						st.assume(f)
					}
				case "elem":
					fs := valFacts("(select "+x+" i)", cp.Val, st.now)
					if len(fs) > 0 {
						st.assume("(forall ((i Int)) (! " + and(fs...) + " :pattern ((select " + x + " i))))")
					}
				case "mapval":
					m := cp.Go.Underlying().(*types.Map)
					fs := valFacts("(select "+x+" i)", cp.Val, st.now)
					if len(fs) > 0 {
						st.assume("(forall ((i " + sortOf(tyOf(m.Key())) + ")) (! " + and(fs...) + " :pattern ((select " + x + " i))))")
					}
				}
				t = sto(t, r, x)
			}
			v.setHeap(st, cp, t)
		default:
			n := v.havocComp(st, cp)
			b := v.bound("r")
			st.assume("(forall ((" + b + " Ref)) (! " + or(inSet(ms, k, b), eq(sel(n, b), sel(h, b))) + " :pattern (" + sel(n, b) + ")))")
		}
	}
}

// ---------------------------------------------------------------- writes

func (v *Ver) isFreshRef(st *State, ref string) bool {
	for {
		if st.fresh[ref] {
			return true
		}
		if strings.HasPrefix(ref, "(sub_") || strings.HasPrefix(ref, "(elemref ") {
			p := splitSexp(ref[1 : len(ref)-1])
			ref = p[1]
			continue
		}
		return false
	}
}

func (v *Ver) frameCheck(st *State, cp *Comp, ref string, pos token.Pos) {
	if v.modAll || v.noFrame || cp.Kind != "global" && v.isFreshRef(st, ref) {
		return
	}
	set := inSet(v.mods, cp.Name, ref)
	g := set
	if cp.Kind != "global" {
		g = or(set, "(>= (birth "+ref+") now!0)")
	}
	lbl := cp.Name
	v.check(st, "frame", lbl, g, pos)
}

func (v *Ver) writeLV(st *State, l *LVal, x Val, pos token.Pos) {
	switch l.Kind {
	case "local":
		st.locals[l.Id] = x
		return
	case "global":
		v.frameCheck(st, l.Comp, "", pos)
		v.setHeap(st, l.Comp, v.term(st, x))
		return
	}
	if l.Kind == "sub" {
		old := v.ctx(st).readLV(l.Par)
		v.writeLV(st, l.Par, mkv(old.T, sto(old.S, l.Idx, v.term(st, x))), pos)
		return
	}
	v.frameCheck(st, l.Comp, l.Ref, pos)
	h := v.hp(st, l.Comp)
	t := v.term(st, x)
	switch l.Kind {
	case "field", "cell":
		v.setHeap(st, l.Comp, sto(h, l.Ref, t))
	case "elem":
		v.setHeap(st, l.Comp, sto(h, l.Ref, sto(sel(h, l.Ref), l.Idx, t)))
	default:
		panic(unsupported("write to " + l.Kind))
	}
}

// term converts a value to a single SMT term
func (v *Ver) term(st *State, x Val) string {
	if x.T.K == "struct" && x.F != nil {
		r := v.allocRef(st, "sv")
		v.storeStruct(st, x.T.Go, r, x, token.NoPos)
		return r
	}
	if x.LV != nil && x.S == "" {
		panic(unsupported("address of a location stored or passed: " + x.LV.Kind))
	}
	if x.Fn != nil && x.S == "" {
		return v.fnConst(x.Fn)
	}
	return x.S
}

func (v *Ver) fnConst(f *ssa.Function) string {
	n := "fn_" + mangle(f.String())
	if _, ok := v.declSort[n]; !ok {
		v.declare(n, "Func")
		v.declAx[n] = []string{"(not (= " + n + " nilfunc))"}
	}
	return n
}

func (v *Ver) allocRef(st *State, p string) string {
	r := v.fresh("new_"+p, "Ref")
	st.assume("(and (= (birth " + r + ") " + st.now + ") (= (rkind " + r + ") 0) (not (= " + r + " nilref)))")
	st.now = add(st.now, "1")
	if strings.HasPrefix(st.now, "(+ (+ ") {
		p := splitSexp(st.now[1 : len(st.now)-1])
		q := splitSexp(p[1][1 : len(p[1])-1])
		if a, ok := isLit(q[2]); ok {
			st.now = add(q[1], lit(a+1))
		}
	}
	st.fresh[r] = true
	return r
}

func (v *Ver) storeStruct(st *State, t types.Type, ref string, x Val, pos token.Pos) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		var fv Val
		if x.F != nil {
			fv = x.F[i]
		} else {
			fv = v.zero(ft)
		}
		switch u := ft.Underlying().(type) {
		case *types.Struct:
			v.storeStruct(st, ft, "("+v.reg.subFn(t, i)+" "+ref+")", fv, pos)
		case *types.Array:
			cp := v.reg.elemComp(u.Elem())
			r := "(" + v.reg.subFn(t, i) + " " + ref + ")"
			v.frameCheck(st, cp, r, pos)
			v.setHeap(st, cp, sto(v.hp(st, cp), r, fv.S))
		default:
			cp := v.reg.fieldComp(t, i)
			v.frameCheck(st, cp, ref, pos)
			v.setHeap(st, cp, sto(v.hp(st, cp), ref, v.term(st, fv)))
		}
	}
}

func (v *Ver) loadStruct(st *State, t types.Type, ref string) Val {
	s := t.Underlying().(*types.Struct)
	x := Val{T: tyOf(t), F: []Val{}}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		switch u := ft.Underlying().(type) {
		case *types.Struct:
			x.F = append(x.F, v.loadStruct(st, ft, "("+v.reg.subFn(t, i)+" "+ref+")"))
		case *types.Array:
			cp := v.reg.elemComp(u.Elem())
			x.F = append(x.F, Val{T: tyOf(ft), S: sel(v.hp(st, cp), "("+v.reg.subFn(t, i)+" "+ref+")")})
		default:
			cp := v.reg.fieldComp(t, i)
			x.F = append(x.F, mkv(cp.Val, sel(v.hp(st, cp), ref)))
		}
	}
	return x
}

func (v *Ver) zero(t types.Type) Val {
	ty := tyOf(t)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		x := Val{T: ty, F: []Val{}}
		for i := 0; i < u.NumFields(); i++ {
			x.F = append(x.F, v.zero(u.Field(i).Type()))
		}
		return x
	case *types.Array:
		et := tyOf(u.Elem())
		return Val{T: ty, S: v.constArr(sortOf(et), zeroTerm(et))}
	case *types.Tuple:
		x := Val{T: ty, F: []Val{}}
		for i := 0; i < u.Len(); i++ {
			x.F = append(x.F, v.zero(u.At(i).Type()))
		}
		return x
	}
	return mkv(ty, zeroTerm(ty))
}

// havocVal returns an arbitrary well typed value
func (v *Ver) havocVal(st *State, t types.Type, p string) Val {
	ty := tyOf(t)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		x := Val{T: ty, F: []Val{}}
		for i := 0; i < u.NumFields(); i++ {
			x.F = append(x.F, v.havocVal(st, u.Field(i).Type(), p))
		}
		return x
	case *types.Tuple:
		x := Val{T: ty, F: []Val{}}
		for i := 0; i < u.Len(); i++ {
			x.F = append(x.F, v.havocVal(st, u.At(i).Type(), p))
		}
		return x
	case *types.Array:
		return Val{T: ty, S: v.fresh(p, "(Array Int "+sortOf(tyOf(u.Elem()))+")")}
	}
	n := v.fresh(p, sortOf(ty))
	for _, f := range valFacts(n, ty, st.now) {
		st.assume(f)
	}
	return mkv(ty, n)
}

func sortedModKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
