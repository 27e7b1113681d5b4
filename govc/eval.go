package main

import (
	"fmt"
	"go/constant"
	"go/types"
	mbits "math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type LVal struct {
	Kind string // field elem cell global local sub
	Par  *LVal
	Comp *Comp
	Ref  string
	Idx  string
	T    *Ty
	Id   int
}

type Val struct {
	T    *Ty
	S    string
	LV   *LVal
	F    []Val
	Fn   *ssa.Function
	Bind []Val
}

type FactNode struct {
	parent *FactNode
	s      string
	depth  int
}

type State struct {
	heap   map[string]string
	facts  *FactNode
	env    map[ssa.Value]Val
	names  map[string]Val
	locals map[int]Val
	iters  map[ssa.Value]*Iter
	snaps  map[string]*Ctx
	now    string
	fresh  map[string]bool // refs known to be allocated since entry
	calls  map[string]int
	defers []*ssa.Defer
	frames map[string]*loopFrame
	known  map[string]bool // function values whose function is known
}

type loopFrame struct {
	extra []modTerm
	heap  map[string]string
	now   string
}

type Iter struct {
	Kind string
	X    Val
	Pos  string
	Seen string
}

func (s *State) clone() *State {
	n := &State{facts: s.facts, now: s.now}
	n.heap = cloneMap(s.heap)
	n.env = cloneMap(s.env)
	n.names = cloneMap(s.names)
	n.locals = cloneMap(s.locals)
	n.iters = cloneMap(s.iters)
	n.snaps = cloneMap(s.snaps)
	n.fresh = cloneMap(s.fresh)
	n.calls = cloneMap(s.calls)
	n.defers = append([]*ssa.Defer{}, s.defers...)
	n.frames = cloneMap(s.frames)
	n.known = cloneMap(s.known)
	return n
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) assume(f string) {
	if f == "" || f == "true" {
		return
	}
	d := 0
	if s.facts != nil {
		d = s.facts.depth + 1
	}
	s.facts = &FactNode{s.facts, f, d}
}

// Ctx is an evaluation context for specification expressions.
type Ctx struct {
	w          *World
	v          *Ver
	pkg        string
	heap       func(*Comp) string
	now        string
	names      map[string]Val
	bound      map[string]Val
	old        *Ctx
	st         *State
	recFn      *SpecFn // definition being evaluated
	fuel       int
	guards     []string
	onRec      func(args []Val, guards []string)
	snaps      map[string]*Ctx
	depth      int
	lemmaLimit int
}

func (c *Ctx) with(names map[string]Val) *Ctx {
	n := *c
	n.bound = cloneMap(c.bound)
	for k, v := range names {
		n.bound[k] = v
	}
	return &n
}

func (c *Ctx) fail(e *Expr, f string, a ...interface{}) {
	panic(unsupported(fmt.Sprintf("%s:%d: %s", e.File, e.Line, fmt.Sprintf(f, a...))))
}

func mkv(t *Ty, s string) Val { return Val{T: t, S: s} }

func (c *Ctx) formula(e *Expr) string { return c.ev(e).S }

func (c *Ctx) readLV(l *LVal) Val {
	switch l.Kind {
	case "field", "cell":
		return mkv(l.T, sel(c.heap(l.Comp), l.Ref))
	case "elem":
		return mkv(l.T, sel(sel(c.heap(l.Comp), l.Ref), l.Idx))
	case "global":
		return mkv(l.T, c.heap(l.Comp))
	case "local":
		return c.st.locals[l.Id]
	case "sub":
		return mkv(l.T, sel(c.readLV(l.Par).S, l.Idx))
	}
	panic(unsupported("read of " + l.Kind))
}

// rv turns an address value bound to a name (captured / address-taken local) into its content
func (c *Ctx) rv(v Val) Val {
	if v.LV != nil && v.LV.Kind != "ptr" && v.S == "" {
		return c.readLV(v.LV)
	}
	return v
}

func (c *Ctx) lookup(e *Expr, n string) (Val, bool) {
	if v, ok := c.bound[n]; ok {
		return c.rv(v), true
	}
	if v, ok := c.names[n]; ok {
		return c.rv(v), true
	}
	return c.global(n)
}

func (c *Ctx) global(n string) (Val, bool) {
	p := c.pkg
	if i := strings.Index(n, "."); i >= 0 {
		p, n = n[:i], n[i+1:]
	}
	tp := c.w.pkgByName[p]
	if tp == nil {
		return Val{}, false
	}
	switch o := tp.Scope().Lookup(n).(type) {
	case *types.Const:
		return constVal(c.w, c.v, o.Val(), o.Type()), true
	case *types.Var:
		if isStructLike(o.Type()) {
			return Val{T: tyOf(o.Type()), S: c.v.globalRef(tp.Path(), o.Name())}, true
		}
		cp := c.v.reg.globalComp(tp.Path(), o.Name(), o.Type())
		return mkv(cp.Val, c.heap(cp)), true
	}
	return Val{}, false
}

func isStructLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func constVal(w *World, v *Ver, k constant.Value, t types.Type) Val {
	ty := tyOf(t)
	switch ty.K {
	case "int":
		k = constant.ToInt(k)
		s := k.ExactString()
		if strings.HasPrefix(s, "-") {
			s = "(- " + s[1:] + ")"
		}
		return mkv(ty, s)
	case "bool":
		return mkv(ty, k.String())
	case "seq":
		return mkv(ty, v.reg.strLit(constant.StringVal(k)))
	}
	return mkv(&Ty{K: "opaque", Go: t}, "opaque0")
}

func zeroTerm(t *Ty) string {
	switch t.K {
	case "int":
		return "0"
	case "bool":
		return "false"
	case "ref", "map":
		return "nilref"
	case "slice":
		return "nilslice"
	case "seq":
		return seqSort(t.Elem) + "_empty"
	case "iface":
		return "(mkiface 0 nilref)"
	case "func":
		return "nilfunc"
	case "array":
		return "((as const " + sortOf(t) + ") " + zeroTerm(t.Elem) + ")"
	case "opaque":
		return "opaque0"
	case "struct":
		return "nilref"
	}
	return "opaque0"
}

// structOf: given a value denoting a struct (pointer or located struct), return type and ref
func structRef(v Val) (types.Type, string, bool) {
	if v.T.Go == nil {
		return nil, "", false
	}
	switch u := v.T.Go.Underlying().(type) {
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			return u.Elem(), v.S, true
		}
	case *types.Struct:
		if v.F == nil {
			return v.T.Go, v.S, true
		}
	}
	return nil, "", false
}

func fieldIndex(st types.Type, name string) int {
	s := st.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// fieldVal reads field i of the struct stored at ref
func (c *Ctx) fieldVal(st types.Type, ref string, i int) Val {
	f := st.Underlying().(*types.Struct).Field(i)
	if isStructLike(f.Type()) {
		return Val{T: tyOf(f.Type()), S: "(" + c.v.reg.subFn(st, i) + " " + ref + ")"}
	}
	cp := c.v.reg.fieldComp(st, i)
	return mkv(cp.Val, sel(c.heap(cp), ref))
}

func (c *Ctx) elemVal(s Val, idx string) Val {
	switch s.T.K {
	case "seq":
		return mkv(s.T.Elem, "("+seqSort(s.T.Elem)+"_at "+s.S+" "+idx+")")
	case "slice":
		et := s.T.Go.Underlying().(*types.Slice).Elem()
		i := add(soff(s.S), idx)
		if _, ok := et.Underlying().(*types.Struct); ok {
			return Val{T: tyOf(et), S: "(elemref " + sbase(s.S) + " " + i + ")"}
		}
		cp := c.v.reg.elemComp(et)
		if ar, ok := et.Underlying().(*types.Array); ok { // a slice of arrays holds array values
			return mkv(&Ty{K: "array", Elem: tyOf(ar.Elem()), N: ar.Len()}, sel(sel(c.heap(cp), sbase(s.S)), i))
		}
		return mkv(cp.Val, sel(sel(c.heap(cp), sbase(s.S)), i))
	case "array":
		if s.T.Go == nil {
			return mkv(s.T.Elem, sel(s.S, idx))
		}
		et := s.T.Go.Underlying().(*types.Array).Elem()
		if _, ok := et.Underlying().(*types.Struct); ok {
			return Val{T: tyOf(et), S: "(elemref " + s.S + " " + idx + ")"}
		}
		cp := c.v.reg.elemComp(et)
		return mkv(cp.Val, sel(sel(c.heap(cp), s.S), idx))
	case "ref":
		if p, ok := s.T.Go.Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Array); ok {
				return c.elemVal(Val{T: tyOf(p.Elem()), S: s.S}, idx)
			}
		}
	}
	panic(unsupported("index of " + s.T.K))
}

func (c *Ctx) lenOf(s Val) string {
	switch s.T.K {
	case "seq":
		if n, ok := c.v.reg.litLen(s.S); ok {
			return lit(int64(n))
		}
		return "(" + seqSort(s.T.Elem) + "_len " + s.S + ")"
	case "slice":
		return slen(s.S)
	case "array":
		return lit(s.T.N)
	case "map":
		d, _ := c.v.reg.mapComps(s.T.Go)
		return "(mapcard_" + d.Name + " " + sel(c.heap(d), s.S) + ")"
	}
	panic(unsupported("len of " + s.T.K))
}

func (r *Registry) litLen(s string) (int, bool) {
	if s == "Seq_Int_empty" {
		return 0, true
	}
	for _, l := range r.litN {
		if r.lits[l] == s {
			return len(l), true
		}
	}
	return 0, false
}

func (c *Ctx) seqOf(s Val) string {
	if s.T.K == "seq" {
		return s.S
	}
	if s.T.K == "array" {
		et := s.T.Go.Underlying().(*types.Array).Elem()
		cp := c.v.reg.elemComp(et)
		return "(" + seqSort(cp.Val) + "_of " + sel(c.heap(cp), s.S) + " 0 " + lit(s.T.N) + ")"
	}
	et := s.T.Go.Underlying().(*types.Slice).Elem()
	cp := c.v.reg.elemComp(et)
	return "(" + seqSort(cp.Val) + "_of " + sel(c.heap(cp), sbase(s.S)) + " " + soff(s.S) + " " + slen(s.S) + ")"
}

func seqElemTy(s Val) *Ty {
	if s.T.K == "seq" {
		return s.T.Elem
	}
	if s.T.K == "array" {
		return tyOf(s.T.Go.Underlying().(*types.Array).Elem())
	}
	return tyOf(s.T.Go.Underlying().(*types.Slice).Elem())
}

func (c *Ctx) equal(e *Expr, a, b Val) string {
	if a.T.K == "nil" && b.T.K == "nil" {
		return "true"
	}
	if a.T.K == "nil" {
		a, b = b, a
	}
	if b.T.K == "nil" {
		switch a.T.K {
		case "slice":
			return eq(sbase(a.S), "nilref")
		case "iface":
			return eq("(itag "+a.S+")", "0")
		case "func":
			if a.Fn != nil {
				return "false"
			}
			return eq(a.S, "nilfunc")
		case "ref", "map":
			return eq(a.S, "nilref")
		}
		c.fail(e, "nil comparison of %s", a.T.K)
	}
	if a.T.K == "seq" || b.T.K == "seq" {
		as, bs := c.seqOf(a), c.seqOf(b)
		if as == bs {
			return "true"
		}
		srt := seqSort(seqElemTy(a))
		if srt != seqSort(seqElemTy(b)) {
			c.fail(e, "seq sorts differ")
		}
		return "(" + srt + "_eq " + as + " " + bs + ")"
	}
	if len(a.F) > 0 || len(b.F) > 0 || a.T.K == "struct" {
		st, ok := a.T.Go.Underlying().(*types.Struct)
		if !ok {
			c.fail(e, "struct equality")
		}
		var cs []string
		for i := 0; i < st.NumFields(); i++ {
			cs = append(cs, c.equal(e, c.fieldOf(e, a, st.Field(i).Name()), c.fieldOf(e, b, st.Field(i).Name())))
		}
		return and(cs...)
	}
	if sortOf(a.T) != sortOf(b.T) {
		c.fail(e, "equality between %s and %s", sortOf(a.T), sortOf(b.T))
	}
	return eq(a.S, b.S)
}

func (c *Ctx) fieldOf(e *Expr, b Val, name string) Val {
	if b.T.K == "struct" && b.F != nil {
		i := fieldIndex(b.T.Go, name)
		if i < 0 {
			c.fail(e, "no field %s", name)
		}
		return b.F[i]
	}
	if g := c.ghostFor(b, name); g != nil {
		t := c.w.resolveType(g.T, g.Pkg)
		cp := c.v.reg.comp("GH_"+mangle(g.Type)+"_"+g.Field, "(Array Ref "+sortOf(t)+")", "ghost", t, nil)
		ref := b.S
		if b.T.K == "iface" {
			ref = "(ival " + b.S + ")"
		}
		return mkv(t, sel(c.heap(cp), ref))
	}
	st, ref, ok := structRef(b)
	if !ok {
		c.fail(e, "field %s of non-struct (%s %v)", name, b.T.K, b.T.Go)
	}
	i := fieldIndex(st, name)
	if i < 0 {
		// promoted through embedded fields
		s := st.Underlying().(*types.Struct)
		for k := 0; k < s.NumFields(); k++ {
			if s.Field(k).Embedded() {
				ft := s.Field(k).Type()
				if p, ok := ft.Underlying().(*types.Pointer); ok {
					ft = p.Elem()
				}
				if _, ok := ft.Underlying().(*types.Struct); ok && fieldIndex(ft, name) >= 0 {
					return c.fieldOf(e, c.fieldVal(st, ref, k), name)
				}
			}
		}
		c.fail(e, "no field %s in %s", name, typeName(st))
	}
	return c.fieldVal(st, ref, i)
}

func (c *Ctx) ghostFor(b Val, name string) *GhostField {
	if b.T.Go == nil {
		return nil
	}
	t := types.Unalias(b.T.Go)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	q := n.Obj().Name()
	if g := c.w.ghosts[q+"."+name]; g != nil && g.Pkg == c.pkg {
		return g
	}
	if n.Obj().Pkg() != nil {
		if g := c.w.ghosts[n.Obj().Pkg().Name()+"."+q+"."+name]; g != nil {
			return g
		}
	}
	return nil
}

var convTypes = map[string]types.BasicKind{"int": types.Int, "int8": types.Int8, "int16": types.Int16, "int32": types.Int32, "int64": types.Int64,
	"uint": types.Uint, "uint8": types.Uint8, "uint16": types.Uint16, "uint32": types.Uint32, "uint64": types.Uint64, "byte": types.Uint8, "rune": types.Int32}

func (c *Ctx) ev(e *Expr) Val {
	switch e.Op {
	case "int":
		return mkv(tyInt, e.S)
	case "bool":
		return mkv(tyBool, e.S)
	case "str":
		return mkv(tyStr, c.v.reg.strLit(e.S))
	case "nil":
		return mkv(tyNil, "nilref")
	case "id":
		v, ok := c.lookup(e, e.S)
		if !ok {
			panic(nameErr{e.S, fmt.Sprintf("%s:%d: unknown name %s", e.File, e.Line, e.S)})
		}
		return v
	case "let":
		v := c.ev(e.A[0])
		return c.with(map[string]Val{e.S: v}).ev(e.A[1])
	case "deref":
		v := c.ev(e.A[0])
		if v.LV != nil {
			return c.readLV(v.LV)
		}
		if id := e.A[0]; id.Op == "id" {
			raw, ok := c.bound[id.S]
			if !ok {
				raw = c.names[id.S]
			}
			if raw.LV != nil && raw.S == "" {
				return v // a location passed for a pointer: the name stands for its content
			}
		}
		if v.T.Go == nil {
			c.fail(e, "deref of non pointer")
		}
		p, ok := v.T.Go.Underlying().(*types.Pointer)
		if !ok {
			c.fail(e, "deref of non pointer")
		}
		if isStructLike(p.Elem()) {
			return Val{T: tyOf(p.Elem()), S: v.S}
		}
		cp := c.v.reg.cellComp(p.Elem())
		return mkv(cp.Val, sel(c.heap(cp), v.S))
	case "field":
		if e.A[0].Op == "id" {
			if _, ok := c.lookup(e.A[0], e.A[0].S); !ok {
				if v, ok := c.global(e.A[0].S + "." + e.S); ok {
					return v
				}
			}
		}
		b := c.ev(e.A[0])
		return c.fieldOf(e, b, e.S)
	case "index":
		s := c.ev(e.A[0])
		i := c.ev(e.A[1])
		if s.T.K == "map" {
			_, mv := c.v.reg.mapComps(s.T.Go)
			return mkv(mv.Val, sel(sel(c.heap(mv), s.S), i.S))
		}
		return c.elemVal(s, i.S)
	case "slice":
		s := c.ev(e.A[0])
		lo, hi := "0", ""
		if e.A[1] != nil {
			lo = c.ev(e.A[1]).S
		}
		if e.A[2] != nil {
			hi = c.ev(e.A[2]).S
		} else {
			hi = c.lenOf(s)
		}
		if s.T.K == "seq" {
			return mkv(s.T, "("+seqSort(s.T.Elem)+"_sub "+s.S+" "+lo+" "+hi+")")
		}
		return mkv(s.T, mkslice(sbase(s.S), add(soff(s.S), lo), sub(hi, lo), sub(scap(s.S), lo)))
	case "seqlit":
		var r string
		var et *Ty
		for _, a := range e.A {
			x := c.ev(a)
			if et == nil {
				et = x.T
			}
			u := "(" + seqSort(et) + "_unit " + x.S + ")"
			if r == "" {
				r = u
			} else {
				r = "(" + seqSort(et) + "_concat " + r + " " + u + ")"
			}
		}
		if r == "" {
			return mkv(tyStr, "Seq_Int_empty")
		}
		return mkv(&Ty{K: "seq", Elem: stripGo(et)}, r)
	case "unary":
		x := c.ev(e.A[0])
		if e.S == "!" {
			return mkv(tyBool, not(x.S))
		}
		if n, ok := isLit(x.S); ok {
			return mkv(tyInt, lit(-n))
		}
		return mkv(tyInt, "(- "+x.S+")")
	case "ite":
		g := c.ev(e.A[0]).S
		a := c.guarded(g).ev(e.A[1])
		b := c.guarded(not(g)).ev(e.A[2])
		if a.T.K == "nil" {
			a.T = b.T
			a.S = zeroTerm(b.T)
		}
		if b.T.K == "nil" {
			b.T = a.T
			b.S = zeroTerm(a.T)
		}
		if a.T.K != b.T.K {
			c.fail(e, "branches of different types")
		}
		return mkv(a.T, ite(g, a.S, b.S))
	case "quant":
		return c.quant(e)
	case "binary":
		return c.binary(e)
	case "call":
		return c.call(e)
	}
	c.fail(e, "cannot evaluate %s", e.Op)
	return Val{}
}

type nameErr struct{ name, msg string }

func stripGo(t *Ty) *Ty {
	if t.K == "int" {
		return tyInt
	}
	return t
}

func (c *Ctx) guarded(g string) *Ctx {
	if c.onRec == nil {
		return c
	}
	n := *c
	n.guards = append(append([]string{}, c.guards...), g)
	return &n
}

func (c *Ctx) quant(e *Expr) Val {
	nb := map[string]Val{}
	var decls, guards []string
	for _, sv := range e.Vars {
		t := c.w.resolveType(sv.T, c.pkg)
		n := c.v.bound(sv.Name)
		nb[sv.Name] = mkv(t, n)
		decls = append(decls, "("+n+" "+sortOf(t)+")")
		if f := rangeFact(n, t); f != "" {
			guards = append(guards, f)
		}
		if t.K == "ref" {
			guards = append(guards, "(< (birth "+n+") "+c.now+")")
		}
	}
	n := c.with(nb)
	body := n.ev(e.A[0]).S
	var pats [][]string
	for _, tr := range e.Trig {
		var ts []string
		for _, t := range tr {
			ts = append(ts, n.ev(t).S)
		}
		pats = append(pats, ts)
	}
	g := and(guards...)
	if e.S == "forall" {
		body = imp(g, body)
	} else {
		body = and(g, body)
	}
	var ns []string
	for _, sv := range e.Vars {
		ns = append(ns, nb[sv.Name].S)
	}
	return mkv(tyBool, wrapQuant(e.S, ns, decls, body, pats))
}

func (c *Ctx) binary(e *Expr) Val {
	switch e.S {
	case "&&":
		a := c.ev(e.A[0]).S
		return mkv(tyBool, and(a, c.guarded(a).ev(e.A[1]).S))
	case "||":
		a := c.ev(e.A[0]).S
		return mkv(tyBool, or(a, c.guarded(not(a)).ev(e.A[1]).S))
	case "==>":
		a := c.ev(e.A[0]).S
		return mkv(tyBool, imp(a, c.guarded(a).ev(e.A[1]).S))
	}
	a, b := c.ev(e.A[0]), c.ev(e.A[1])
	switch e.S {
	case "<==>":
		return mkv(tyBool, eq(a.S, b.S))
	case "==":
		return mkv(tyBool, c.equal(e, a, b))
	case "!=":
		return mkv(tyBool, not(c.equal(e, a, b)))
	case "<", "<=", ">", ">=":
		if a.T.K != "int" || b.T.K != "int" {
			c.fail(e, "comparison of %s and %s", a.T.K, b.T.K)
		}
		return mkv(tyBool, "("+e.S+" "+a.S+" "+b.S+")")
	case "+", "++":
		if a.T.K == "seq" || b.T.K == "seq" {
			return mkv(&Ty{K: "seq", Elem: seqElemTy(a), Go: a.T.Go}, "("+seqSort(seqElemTy(a))+"_concat "+c.seqOf(a)+" "+c.seqOf(b)+")")
		}
		return mkv(tyInt, add(a.S, b.S))
	case "-":
		return mkv(tyInt, sub(a.S, b.S))
	case "*":
		return mkv(tyInt, "(* "+a.S+" "+b.S+")")
	case "/":
		return mkv(tyInt, "(div "+a.S+" "+b.S+")")
	case "%":
		return mkv(tyInt, "(mod "+a.S+" "+b.S+")")
	case "in":
		switch b.T.K {
		case "map":
			d, _ := c.v.reg.mapComps(b.T.Go)
			return mkv(tyBool, sel(sel(c.heap(d), b.S), a.S))
		}
		c.fail(e, "in of %s", b.T.K)
	}
	c.fail(e, "operator %s", e.S)
	return Val{}
}

func (c *Ctx) call(e *Expr) Val {
	arg := func(i int) Val { return c.ev(e.A[i]) }
	switch e.S {
	case "len":
		return mkv(tyInt, c.lenOf(arg(0)))
	case "cap":
		return mkv(tyInt, scap(arg(0).S))
	case "old":
		if c.old == nil {
			c.fail(e, "old not available")
		}
		n := *c.old
		n.bound = c.bound
		if c.old != c {
			// parameters mean their entry values; locals without one keep their current value
			nm := cloneMap(c.names)
			for k, x := range c.old.names {
				nm[k] = x
			}
			n.names = nm
		}
		n.onRec, n.guards = nil, nil
		return n.ev(e.A[0])
	case "snapped":
		sn := c.snaps[e.A[0].S]
		if sn == nil {
			c.fail(e, "no snapshot %s", e.A[0].S)
		}
		n := *sn
		n.bound = c.bound
		// names introduced after the snapshot keep their values
		n.names = cloneMap(sn.names)
		for k, x := range c.names {
			if _, ok := n.names[k]; !ok {
				n.names[k] = x
			}
		}
		return n.ev(e.A[1])
	case "fresh":
		v := arg(0)
		s := v.S
		if v.T.K == "slice" {
			s = sbase(s)
		}
		if v.T.K == "iface" {
			s = "(ival " + s + ")"
		}
		return mkv(tyBool, "(>= (birth "+s+") "+c.old.now+")")
	case "allocated":
		v := arg(0)
		s := v.S
		if v.T.K == "slice" {
			s = sbase(s)
		}
		return mkv(tyBool, "(< (birth "+s+") "+c.now+")")
	case "isfresh": // birth not before the pre-state, or nil
		v := arg(0)
		s := v.S
		if v.T.K == "slice" {
			s = sbase(s)
		}
		return mkv(tyBool, "(or (= "+s+" nilref) (>= (birth "+s+") "+c.old.now+"))")
	case "seq":
		v := arg(0)
		if len(e.A) == 3 {
			lo, hi := arg(1).S, arg(2).S
			if v.T.K == "slice" {
				et := v.T.Go.Underlying().(*types.Slice).Elem()
				cp := c.v.reg.elemComp(et)
				return mkv(&Ty{K: "seq", Elem: stripGo(cp.Val)}, "("+seqSort(cp.Val)+"_of "+sel(c.heap(cp), sbase(v.S))+" "+add(soff(v.S), lo)+" "+sub(hi, lo)+")")
			}
			return mkv(&Ty{K: "seq", Elem: v.T.Elem}, "("+seqSort(v.T.Elem)+"_sub "+v.S+" "+lo+" "+hi+")")
		}
		return mkv(&Ty{K: "seq", Elem: stripGo(seqElemTy(v))}, c.seqOf(v))
	case "emptyseq":
		return mkv(&Ty{K: "seq", Elem: tyInt}, "Seq_Int_empty")
	case "upd":
		s := arg(0)
		if s.T.K == "array" {
			return mkv(s.T, sto(s.S, arg(1).S, arg(2).S))
		}
		return mkv(s.T, "("+seqSort(s.T.Elem)+"_upd "+s.S+" "+arg(1).S+" "+arg(2).S+")")
	case "base":
		v := arg(0)
		if v.T.K == "slice" {
			return mkv(&Ty{K: "ref"}, sbase(v.S))
		}
		return mkv(&Ty{K: "ref"}, v.S)
	case "off":
		return mkv(tyInt, soff(arg(0).S))
	case "mem": // the backing memory of a slice as a mathematical array
		v := arg(0)
		et := v.T.Go.Underlying().(*types.Slice).Elem()
		cp := c.v.reg.elemComp(et)
		return mkv(&Ty{K: "array", Elem: cp.Val}, sel(c.heap(cp), sbase(v.S)))
	case "heapof": // the whole component of a field: heapof(p.f)
		v := arg(0)
		_ = v
		c.fail(e, "heapof unsupported")
	case "min":
		return mkv(tyInt, "(imin "+arg(0).S+" "+arg(1).S+")")
	case "max":
		return mkv(tyInt, "(imax "+arg(0).S+" "+arg(1).S+")")
	case "abs":
		return mkv(tyInt, "(abs "+arg(0).S+")")
	case "band", "bor", "bxor", "bandnot":
		a, b := arg(0).S, arg(1).S
		if e.S == "band" {
			if m, ok := isLit(b); ok && m >= 0 {
				return mkv(tyInt, maskConst(a, uint64(m)))
			}
			if m, ok := isLit(a); ok && m >= 0 {
				return mkv(tyInt, maskConst(b, uint64(m)))
			}
		}
		if e.S == "bor" {
			if m, ok := isLit(b); ok && m >= 0 {
				return mkv(tyInt, add(sub(a, maskConst(a, uint64(m))), lit(m)))
			}
			if m, ok := isLit(a); ok && m >= 0 {
				return mkv(tyInt, add(sub(b, maskConst(b, uint64(m))), lit(m)))
			}
		}
		return mkv(tyInt, "("+e.S+" "+a+" "+b+")")
	case "tdiv", "tmod":
		return mkv(tyInt, "("+e.S+" "+arg(0).S+" "+arg(1).S+")")
	case "shl":
		return mkv(tyInt, shlTerm(arg(0).S, arg(1).S))
	case "shr":
		return mkv(tyInt, shrTerm(arg(0).S, arg(1).S))
	case "typeis":
		v := arg(0)
		return mkv(tyBool, eq("(itag "+v.S+")", lit(int64(c.v.reg.tag(c.typeArg(e.A[1]))))))
	case "as":
		v := arg(0)
		t := c.typeArg(e.A[1])
		ty := tyOf(t)
		if ty.K == "ref" || ty.K == "struct" || ty.K == "map" {
			return mkv(ty, "(ival "+v.S+")")
		}
		return mkv(ty, "(unbox_"+c.v.box(ty)+" (ival "+v.S+"))")
	case "runes":
		return mkv(&Ty{K: "seq", Elem: tyInt}, "(runesOf "+c.seqOf(arg(0))+")")
	case "strOfRunes":
		return mkv(tyStr, "(strOfRunes "+c.seqOf(arg(0))+")")
	case "runeAt":
		return mkv(tyInt, "(runeAt "+c.seqOf(arg(0))+" "+arg(1).S+")")
	case "runeLenAt":
		return mkv(tyInt, "(runeLenAt "+c.seqOf(arg(0))+" "+arg(1).S+")")
	case "strOfRune":
		return mkv(tyStr, "(strOfRune "+arg(0).S+")")
	case "strless":
		return mkv(tyBool, "(strless "+c.seqOf(arg(0))+" "+c.seqOf(arg(1))+")")
	case "alltrue":
		return mkv(tyBool, "true")
	case "funcval":
		f := c.w.fnByKey[c.pkg+"."+e.A[0].S]
		if f == nil {
			c.fail(e, "no function %s", e.A[0].S)
		}
		return mkv(&Ty{K: "func"}, c.v.fnConst(f))
	case "unfold":
		c.fail(e, "unfold")
	}
	if k, ok := convTypes[e.S]; ok {
		t := types.Typ[k]
		x := arg(0)
		if x.T.K != "int" {
			c.fail(e, "conversion of %s", x.T.K)
		}
		if e.S == "int64" {
			return mkv(tyOf(t), "(wrapS64 "+x.S+")")
		}
		return mkv(tyOf(t), wrapInt(x.S, t))
	}
	if e.S == "string" {
		return mkv(tyStr, c.seqOf(arg(0)))
	}
	f := c.w.fns[e.S]
	if f == nil {
		// a pure Go method or type conversion: T(x)
		if o := c.namedType(e.S); o != nil && len(e.A) == 1 {
			x := arg(0)
			t := tyOf(o)
			if t.K == "int" && x.T.K == "int" {
				return mkv(t, wrapInt(x.S, o))
			}
			return mkv(t, x.S)
		}
		c.fail(e, "unknown spec function %s", e.S)
	}
	if len(e.A) != len(f.Params) {
		c.fail(e, "%s wants %d arguments", e.S, len(f.Params))
	}
	var args []Val
	for i, p := range f.Params {
		a := arg(i)
		pt := c.w.resolveType(p.T, f.Pkg)
		if a.T.K == "nil" {
			a = mkv(pt, zeroTerm(pt))
		}
		if pt.K == "seq" && a.T.K != "seq" {
			a = mkv(pt, c.seqOf(a))
		}
		if a.T.K != pt.K && !(pt.K == "ref" && a.T.K == "struct" || pt.K == "struct" && a.T.K == "ref") {
			c.fail(e, "argument %d of %s: %s for %s", i, e.S, a.T.K, pt.K)
		}
		if a.F == nil || pt.K != "struct" {
			a = mkv(pt, a.S)
		}
		args = append(args, a)
	}
	rt := c.w.resolveType(f.Ret, f.Pkg)
	if f.Body == nil {
		var ss []string
		for _, a := range args {
			ss = append(ss, a.S)
		}
		c.v.useFn(f)
		if len(ss) == 0 {
			return mkv(rt, "sf_"+f.Name)
		}
		return mkv(rt, "(sf_"+f.Name+" "+strings.Join(ss, " ")+")")
	}
	if f.Rec {
		if c.recFn == f && c.onRec != nil {
			c.onRec(args, c.guards)
		}
		return mkv(rt, c.v.recCall(c, f, args))
	}
	if c.depth > 60 {
		c.fail(e, "macro expansion too deep (recursive spec function without rec?)")
	}
	nb := map[string]Val{}
	for i, p := range f.Params {
		nb[p.Name] = args[i]
	}
	n := *c
	n.bound = nb
	n.names = map[string]Val{}
	n.pkg = f.Pkg
	n.depth++
	if c.old != nil {
		o := *c.old
		o.pkg = f.Pkg
		o.names = map[string]Val{}
		n.old = &o
	}
	r := n.ev(f.Body)
	if r.T.K == "nil" {
		r.S = zeroTerm(rt)
	}
	if r.F != nil {
		return r
	}
	if rt.K == "seq" && r.T.K == "slice" {
		r.S = n.seqOf(r)
	}
	return mkv(rt, r.S)
}

func (c *Ctx) namedType(n string) types.Type {
	p := c.pkg
	if i := strings.Index(n, "."); i >= 0 {
		p, n = n[:i], n[i+1:]
	}
	tp := c.w.pkgByName[p]
	if tp == nil {
		return nil
	}
	if tn, ok := tp.Scope().Lookup(n).(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}

func (c *Ctx) typeArg(e *Expr) types.Type {
	switch e.Op {
	case "deref":
		return types.NewPointer(c.typeArg(e.A[0]))
	case "id":
		if o := types.Universe.Lookup(e.S); o != nil {
			return o.Type()
		}
		if t := c.namedType(e.S); t != nil {
			return t
		}
	case "field":
		if t := c.namedType(e.A[0].S + "." + e.S); t != nil {
			return t
		}
	case "str":
		return c.w.typeByString(e.S, c.pkg)
	}
	c.fail(e, "type expected")
	return nil
}

func (w *World) typeByString(s, pkg string) types.Type {
	l := lex("type", s)
	return w.resolveType(l.parseType(), pkg).Go
}

// ---------------------------------------------------------------- bit arithmetic on integers

func pow2(n int) string {
	if n < 63 {
		return fmt.Sprint(int64(1) << uint(n))
	}
	return pow2s(n)
}

// maskConst computes x & m exactly as sums of bit fields.
func maskConst(x string, m uint64) string {
	if m == 0 {
		return "0"
	}
	if runs := mbits.OnesCount64(m &^ (m << 1)); runs > 4 {
		return "(band " + x + " " + fmt.Sprint(m) + ")"
	}
	var parts []string
	i := 0
	for i < 64 {
		if m>>uint(i)&1 == 0 {
			i++
			continue
		}
		j := i
		for j < 64 && m>>uint(j)&1 == 1 {
			j++
		}
		w := j - i
		t := x
		if i > 0 {
			t = "(div " + t + " " + pow2(i) + ")"
		}
		t = "(mod " + t + " " + pow2(w) + ")"
		if i > 0 {
			t = "(* " + pow2(i) + " " + t + ")"
		}
		parts = append(parts, t)
		i = j
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func shlTerm(x, n string) string {
	if k, ok := isLit(n); ok && k >= 0 && k < 64 {
		if v, ok := isLit(x); ok && k < 40 && v < 1<<20 && v >= 0 {
			return lit(v << uint(k))
		}
		return "(* " + x + " " + pow2(int(k)) + ")"
	}
	return "(* " + x + " (pow2 " + n + "))"
}

func shrTerm(x, n string) string {
	if k, ok := isLit(n); ok && k >= 0 && k < 64 {
		return "(div " + x + " " + pow2(int(k)) + ")"
	}
	return "(div " + x + " (pow2 " + n + "))"
}
