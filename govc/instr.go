package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func (v *Ver) val(st *State, x ssa.Value) Val {
	switch y := x.(type) {
	case *ssa.Const:
		if y.Value == nil {
			return v.zero(y.Type())
		}
		return constVal(v.w, v, y.Value, y.Type())
	case *ssa.Global:
		et := y.Type().Underlying().(*types.Pointer).Elem()
		if isStructLike(et) {
			return Val{T: tyOf(y.Type()), S: v.globalRef(y.Pkg.Pkg.Path(), y.Name())}
		}
		cp := v.reg.globalComp(y.Pkg.Pkg.Path(), y.Name(), et)
		return Val{T: tyOf(y.Type()), LV: &LVal{Kind: "global", Comp: cp, T: cp.Val}}
	case *ssa.Function:
		return Val{T: tyOf(y.Type()), Fn: y}
	case *ssa.Builtin:
		return Val{T: &Ty{K: "func"}}
	}
	r, ok := st.env[x]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %s (%T) of %s not available", x.Name(), x, x.Parent())))
	}
	return r
}

func (v *Ver) unsafeCheck(st *State, kind, goal string, pos token.Pos) {
	if v.c != nil && (v.c.NoSafety[kind] || v.c.NoSafety["all"]) {
		v.assumes["safety "+kind+" not checked in "+v.unit] = true
		st.assume(goal)
		return
	}
	v.check(st, "safe-"+kind, "", goal, pos)
}

func (v *Ver) execFrom(st *State, fr *frame, b *ssa.BasicBlock, i int, next func(*State, *ssa.BasicBlock)) {
	for ; i < len(b.Instrs); i++ {
		switch x := b.Instrs[i].(type) {
		case *ssa.If:
			c := v.val(st, x.Cond).S
			if c != "false" {
				s1 := st.clone()
				s1.assume(c)
				next(s1, b.Succs[0])
			}
			if c != "true" {
				s2 := st.clone()
				s2.assume(not(c))
				next(s2, b.Succs[1])
			}
			return
		case *ssa.Jump:
			next(st, b.Succs[0])
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, v.val(st, r))
			}
			v.paths++
			fr.onRet(st, rs, x.Pos())
			return
		case *ssa.Panic:
			v.unsafeCheck(st, "panic", "false", x.Pos())
			return
		case *ssa.Call:
			j := i
			v.call(st, fr, x, func(s *State, r Val) {
				s.env[x] = r
				v.execFrom(s, fr, b, j+1, next)
			})
			return
		case *ssa.Defer:
			st.defers = append(st.defers, x)
		case *ssa.RunDefers:
			// deferred calls run in reverse order; only calls without modelled effect are accepted
			for k := len(st.defers) - 1; k >= 0; k-- {
				d := st.defers[k]
				if con, _ := v.contractFor(d.Common()); con != nil {
					v.applyCall(st, fr, d, con, func(*State, Val) {})
				} else if f := staticFn(d.Common()); f != nil && v.w.inRepo(f) {
					panic(unsupported("defer of " + f.Name()))
				} else {
					v.assumes["deferred call "+d.Common().String()+" has no modelled effect"] = true
				}
			}
			st.defers = nil
		default:
			v.instr(st, fr, b.Instrs[i])
		}
	}
}

func (v *Ver) instr(st *State, fr *frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
		if x.Object() == nil {
			return
		}
		if _, ok := x.Object().(*types.Var); !ok {
			return
		}
		if fv, ok := x.Object().(*types.Var); ok && fv.IsField() {
			return
		}
		if a := addrAlloc(x); a != nil {
			if r, ok := st.env[a]; ok && r.LV != nil && r.LV.Kind == "local" {
				st.names[x.Object().Name()] = r // the variable itself, not the value it has here
				return
			}
		}
		if r, ok := st.env[x.X]; ok {
			n := x.Object().Name()
			if x.IsAddr && r.LV == nil {
				// address of a struct variable: located value
				if p, ok := x.X.Type().Underlying().(*types.Pointer); ok && isStructLike(p.Elem()) {
					st.names[n] = Val{T: tyOf(p.Elem()), S: r.S}
				}
				return
			}
			st.names[n] = r
		} else if c, ok := x.X.(*ssa.Const); ok {
			st.names[x.Object().Name()] = v.val(st, c)
		}
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		switch u := et.Underlying().(type) {
		case *types.Struct:
			r := v.allocRef(st, x.Comment)
			v.storeStruct(st, et, r, v.zero(et), x.Pos())
			st.env[x] = Val{T: tyOf(x.Type()), S: r}
		case *types.Array:
			r := v.allocRef(st, x.Comment)
			if _, ok := u.Elem().Underlying().(*types.Struct); !ok {
				cp := v.reg.elemComp(u.Elem())
				v.setHeap(st, cp, sto(v.hp(st, cp), r, v.zero(et).S))
			} else {
				if u.Len() > 16 {
					panic(unsupported("array of structs"))
				}
				for i := int64(0); i < u.Len(); i++ {
					v.storeStruct(st, u.Elem(), "(elemref "+r+" "+lit(i)+")", v.zero(u.Elem()), x.Pos())
				}
			}
			st.env[x] = Val{T: tyOf(x.Type()), S: r}
		default:
			if addrKept(x) { // a variable others come to point to: a cell of the heap
				r := v.allocRef(st, x.Comment)
				cp := v.reg.cellComp(et)
				v.setHeap(st, cp, sto(v.hp(st, cp), r, v.zero(et).S))
				st.env[x] = Val{T: tyOf(x.Type()), S: r}
				break
			}
			v.localN++
			id := v.localN
			st.locals[id] = v.zero(et)
			v.localT[id] = tyOf(et)
			st.env[x] = Val{T: tyOf(x.Type()), LV: &LVal{Kind: "local", Id: id, T: tyOf(et)}}
		}
	case *ssa.BinOp:
		st.env[x] = v.binop(st, x)
	case *ssa.UnOp:
		st.env[x] = v.unop(st, x)
	case *ssa.FieldAddr:
		b := v.val(st, x.X)
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		if b.LV != nil {
			panic(unsupported("field of location"))
		}
		v.nilCheck(st, b.S, x.Pos())
		ft := pt.Underlying().(*types.Struct).Field(x.Field).Type()
		if isStructLike(ft) {
			st.env[x] = Val{T: tyOf(x.Type()), S: "(" + v.reg.subFn(pt, x.Field) + " " + b.S + ")"}
			return
		}
		cp := v.reg.fieldComp(pt, x.Field)
		st.env[x] = Val{T: tyOf(x.Type()), LV: &LVal{Kind: "field", Comp: cp, Ref: b.S, T: cp.Val}}
	case *ssa.Field:
		b := v.val(st, x.X)
		st.env[x] = b.F[x.Field]
	case *ssa.IndexAddr:
		b := v.val(st, x.X)
		i := v.val(st, x.Index).S
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			v.unsafeCheck(st, "index", "(and (<= 0 "+i+") (< "+i+" "+slen(b.S)+"))", x.Pos())
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				st.env[x] = Val{T: tyOf(x.Type()), S: "(elemref " + sbase(b.S) + " " + add(soff(b.S), i) + ")"}
				return
			}
			cp := v.reg.elemComp(u.Elem())
			st.env[x] = Val{T: tyOf(x.Type()), LV: &LVal{Kind: "elem", Comp: cp, Ref: sbase(b.S), Idx: add(soff(b.S), i), T: cp.Val}}
		case *types.Pointer:
			ar := u.Elem().Underlying().(*types.Array)
			if b.LV != nil && b.S == "" { // an array that is an element of a slice
				v.unsafeCheck(st, "index", "(and (<= 0 "+i+") (< "+i+" "+lit(ar.Len())+"))", x.Pos())
				st.env[x] = Val{T: tyOf(x.Type()), LV: &LVal{Kind: "sub", Par: b.LV, Comp: b.LV.Comp, Idx: i, T: tyOf(ar.Elem())}}
				return
			}
			v.nilCheck(st, b.S, x.Pos())
			v.unsafeCheck(st, "index", "(and (<= 0 "+i+") (< "+i+" "+lit(ar.Len())+"))", x.Pos())
			if _, ok := ar.Elem().Underlying().(*types.Struct); ok {
				st.env[x] = Val{T: tyOf(x.Type()), S: "(elemref " + b.S + " " + i + ")"}
				return
			}
			cp := v.reg.elemComp(ar.Elem())
			st.env[x] = Val{T: tyOf(x.Type()), LV: &LVal{Kind: "elem", Comp: cp, Ref: b.S, Idx: i, T: cp.Val}}
		}
	case *ssa.Index:
		b := v.val(st, x.X)
		i := v.val(st, x.Index).S
		if b.T.K == "seq" {
			v.strIndex(st, x, b, i, x.Pos())
			return
		}
		v.unsafeCheck(st, "index", "(and (<= 0 "+i+") (< "+i+" "+lit(b.T.N)+"))", x.Pos())
		st.env[x] = mkv(tyOf(x.Type()), sel(b.S, i))
	case *ssa.Lookup:
		b := v.val(st, x.X)
		k := v.val(st, x.Index)
		if b.T.K == "seq" {
			v.strIndex(st, x, b, k.S, x.Pos())
			return
		}
		d, m := v.reg.mapComps(x.X.Type())
		ks := v.term(st, k)
		in := sel(sel(v.hp(st, d), b.S), ks)
		st.assume(imp(eq(b.S, "nilref"), not(in))) // a nil map has no keys
		zt := zeroTerm(m.Val)
		r := ite(in, sel(sel(v.hp(st, m), b.S), ks), zt)
		mt := x.X.Type().Underlying().(*types.Map)
		rv := v.nameIt(st, mkv(m.Val, r), "mv")
		if m.Val.K == "struct" {
			// immutable struct stored in a map
			ls := v.loadStruct(st, mt.Elem(), rv.S)
			zs := v.zero(mt.Elem())
			for i := range ls.F {
				if ls.F[i].F == nil {
					ls.F[i].S = ite(in, ls.F[i].S, zs.F[i].S)
				}
			}
			rv = ls
		}
		if x.CommaOk {
			st.env[x] = Val{T: tyOf(x.Type()), F: []Val{rv, mkv(tyBool, in)}}
		} else {
			st.env[x] = rv
		}
	case *ssa.Store:
		a := v.val(st, x.Addr)
		val := v.val(st, x.Val)
		if a.LV != nil {
			v.writeLV(st, a.LV, val, x.Pos())
			return
		}
		el := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		v.nilCheck(st, a.S, x.Pos())
		switch u := el.Underlying().(type) {
		case *types.Struct:
			v.storeStruct(st, el, a.S, val, x.Pos())
		case *types.Array:
			cp := v.reg.elemComp(u.Elem())
			v.frameCheck(st, cp, a.S, x.Pos())
			v.setHeap(st, cp, sto(v.hp(st, cp), a.S, val.S))
		default:
			cp := v.reg.cellComp(el)
			v.frameCheck(st, cp, a.S, x.Pos())
			v.setHeap(st, cp, sto(v.hp(st, cp), a.S, v.term(st, val)))
		}
	case *ssa.Extract:
		t := v.val(st, x.Tuple)
		st.env[x] = t.F[x.Index]
	case *ssa.ChangeType:
		r := v.val(st, x.X)
		r.T = tyOf(x.Type())
		st.env[x] = r
	case *ssa.ChangeInterface:
		r := v.val(st, x.X)
		r.T = tyOf(x.Type())
		st.env[x] = r
	case *ssa.Convert:
		st.env[x] = v.convert(st, x)
	case *ssa.MakeInterface:
		r := v.val(st, x.X)
		tag := lit(int64(v.reg.tag(x.X.Type())))
		if r.LV != nil {
			// keep the location: used by binary.Read and friends
			st.env[x] = Val{T: tyOf(x.Type()), LV: r.LV, S: ""}
			return
		}
		var ref string
		switch {
		case r.T.K == "ref" || r.T.K == "map":
			ref = r.S
		case r.T.K == "struct":
			ref = v.term(st, r)
		case r.T.K == "func":
			ref = v.allocRef(st, "fnbox")
		default:
			t := tyOf(x.X.Type())
			ref = "(box_" + v.box(t) + " " + v.term(st, r) + ")"
		}
		st.env[x] = mkv(tyOf(x.Type()), "(mkiface "+tag+" "+ref+")")
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, v.val(st, b))
		}
		st.env[x] = Val{T: tyOf(x.Type()), Fn: x.Fn.(*ssa.Function), Bind: bs}
	case *ssa.MakeMap:
		r := v.allocRef(st, "map")
		d, m := v.reg.mapComps(x.Type())
		ks := sortOf(tyOf(x.Type().Underlying().(*types.Map).Key()))
		v.setHeap(st, d, sto(v.hp(st, d), r, "((as const (Array "+ks+" Bool)) false)"))
		_ = m
		st.env[x] = mkv(tyOf(x.Type()), r)
	case *ssa.MakeSlice:
		n := v.val(st, x.Len).S
		cp := v.val(st, x.Cap).S
		v.unsafeCheck(st, "makeslice", and("(<= 0 "+n+")", "(<= "+n+" "+cp+")"), x.Pos())
		r := v.allocRef(st, "slice")
		et := x.Type().Underlying().(*types.Slice).Elem()
		v.zeroElems(st, et, r)
		st.env[x] = mkv(tyOf(x.Type()), mkslice(r, "0", n, cp))
	case *ssa.MapUpdate:
		b := v.val(st, x.Map)
		k := v.term(st, v.val(st, x.Key))
		val := v.term(st, v.val(st, x.Value))
		v.unsafeCheck(st, "nilmap", not(eq(b.S, "nilref")), x.Pos())
		d, m := v.reg.mapComps(x.Map.Type())
		v.frameCheck(st, d, b.S, x.Pos())
		h := v.hp(st, d)
		v.setHeap(st, d, sto(h, b.S, sto(sel(h, b.S), k, "true")))
		h = v.hp(st, m)
		v.setHeap(st, m, sto(h, b.S, sto(sel(h, b.S), k, val)))
	case *ssa.Slice:
		st.env[x] = v.sliceOp(st, x)
	case *ssa.Range:
		r := v.val(st, x.X)
		if r.T.K == "seq" {
			st.iters[x] = &Iter{"string", r, "0", ""}
		} else {
			st.iters[x] = &Iter{"map", r, "0", ""}
		}
		st.env[x] = Val{T: &Ty{K: "opaque"}, S: "opaque0"}
	case *ssa.Next:
		it := st.iters[x.Iter]
		if it == nil {
			panic(unsupported("next without iterator"))
		}
		if it.Kind == "string" {
			c := v.ctx(st)
			s := it.X.S
			ok := "(< " + it.Pos + " " + c.lenOf(it.X) + ")"
			rn := v.fresh("rune", "Int")
			st.assume(eq(rn, "(runeAt "+s+" "+it.Pos+")"))
			st.assume("(and (<= 0 " + rn + ") (<= " + rn + " 1114111))")
			st.env[x] = Val{T: tyOf(x.Type()), F: []Val{mkv(tyBool, ok), mkv(tyInt, it.Pos), mkv(&Ty{K: "int", Go: types.Typ[types.Int32]}, rn)}}
			st.iters[x.Iter] = &Iter{"string", it.X, "(+ " + it.Pos + " (runeLenAt " + s + " " + it.Pos + "))", ""}
			return
		}
		okc := v.fresh("ok", "Bool")
		mt := it.X.T.Go.Underlying().(*types.Map)
		k := v.havocVal(st, mt.Key(), "key")
		d, m := v.reg.mapComps(it.X.T.Go)
		st.assume(imp(okc, sel(sel(v.hp(st, d), it.X.S), k.S)))
		val := mkv(m.Val, sel(sel(v.hp(st, m), it.X.S), k.S))
		st.env[x] = Val{T: tyOf(x.Type()), F: []Val{mkv(tyBool, okc), k, val}}
	case *ssa.TypeAssert:
		b := v.val(st, x.X)
		if b.S == "" {
			panic(unsupported("type assertion on location"))
		}
		if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			okc := v.fresh("impl", "Bool")
			st.assume(imp(eq("(itag "+b.S+")", "0"), not(okc)))
			r := b
			r.T = tyOf(x.AssertedType)
			if x.CommaOk {
				r.S = ite(okc, b.S, "(mkiface 0 nilref)")
				st.env[x] = Val{T: tyOf(x.Type()), F: []Val{r, mkv(tyBool, okc)}}
			} else {
				v.unsafeCheck(st, "assert", okc, x.Pos())
				st.env[x] = r
			}
			return
		}
		tag := lit(int64(v.reg.tag(x.AssertedType)))
		okc := eq("(itag "+b.S+")", tag)
		ty := tyOf(x.AssertedType)
		var r Val
		switch ty.K {
		case "ref", "map":
			r = mkv(ty, ite(okc, "(ival "+b.S+")", "nilref"))
			if !x.CommaOk {
				r = mkv(ty, "(ival "+b.S+")")
			}
		case "struct":
			r = v.loadStruct(st, x.AssertedType, "(ival "+b.S+")")
		default:
			u := "(unbox_" + v.box(ty) + " (ival " + b.S + "))"
			r = mkv(ty, ite(okc, u, zeroTerm(ty)))
			for _, f := range valFacts(r.S, ty, st.now) {
				st.assume(f)
			}
		}
		if x.CommaOk {
			st.env[x] = Val{T: tyOf(x.Type()), F: []Val{r, mkv(tyBool, okc)}}
		} else {
			v.unsafeCheck(st, "assert", okc, x.Pos())
			st.env[x] = r
		}
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

func (v *Ver) strIndex(st *State, x ssa.Value, b Val, i string, pos token.Pos) {
	c := v.ctx(st)
	v.unsafeCheck(st, "index", "(and (<= 0 "+i+") (< "+i+" "+c.lenOf(b)+"))", pos)
	t := "(Seq_Int_at " + b.S + " " + i + ")"
	st.assume("(and (<= 0 " + t + ") (< " + t + " 256))")
	st.env[x] = mkv(tyOf(x.Type()), t)
}

func (v *Ver) zeroElems(st *State, et types.Type, r string) {
	if s, ok := et.Underlying().(*types.Struct); ok {
		// per field quantified zero
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isStructLike(ft) {
				v.notes = append(v.notes, "nested struct elements not zeroed")
				continue
			}
			cp := v.reg.fieldComp(et, i)
			h := v.hp(st, cp)
			n := v.fresh(cp.Name, cp.Sort)
			st.assume("(forall ((q Ref)) (! (= " + sel(n, "q") + " " + ite("(and (= (rkind q) 1) (= (eparent q) "+r+"))", zeroTerm(cp.Val), sel(h, "q")) + ") :pattern (" + sel(n, "q") + ")))")
			st.heap[cp.Name] = n
		}
		return
	}
	if _, ok := et.Underlying().(*types.Array); ok {
		panic(unsupported("slice of arrays"))
	}
	cp := v.reg.elemComp(et)
	v.setHeap(st, cp, sto(v.hp(st, cp), r, v.constArr(sortOf(cp.Val), zeroTerm(cp.Val))))
}

func (v *Ver) nilCheck(st *State, ref string, pos token.Pos) {
	if v.isFreshRef(st, ref) || strings.HasPrefix(ref, "(sub_") || strings.HasPrefix(ref, "(elemref ") || strings.HasPrefix(ref, "gref_") {
		return
	}
	if st.names["$nn:"+ref].T != nil {
		return
	}
	v.unsafeCheck(st, "nil", not(eq(ref, "nilref")), pos)
	st.names["$nn:"+ref] = mkv(tyBool, "true")
}

// nameIt introduces a constant for a (possibly large) term
func (v *Ver) nameIt(st *State, x Val, p string) Val {
	if len(x.S) < 40 || x.F != nil {
		return x
	}
	n := v.fresh(p, sortOf(x.T))
	st.assume(eq(n, x.S))
	return mkv(x.T, n)
}

func (v *Ver) load(st *State, t types.Type, a Val, pos token.Pos) Val {
	if a.LV != nil {
		l := a.LV
		switch l.Kind {
		case "local":
			x, ok := st.locals[l.Id]
			if !ok {
				panic(unsupported("local lost at merge"))
			}
			return x
		}
		c := v.ctx(st)
		x := c.readLV(l)
		x = v.nameIt(st, x, "ld")
		for _, f := range valFacts(x.S, l.T, st.now) {
			st.assume(f)
		}
		return x
	}
	v.nilCheck(st, a.S, pos)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return v.loadStruct(st, t, a.S)
	case *types.Array:
		cp := v.reg.elemComp(u.Elem())
		return Val{T: tyOf(t), S: sel(v.hp(st, cp), a.S)}
	}
	cp := v.reg.cellComp(t)
	x := v.nameIt(st, mkv(cp.Val, sel(v.hp(st, cp), a.S)), "ld")
	for _, f := range valFacts(x.S, cp.Val, st.now) {
		st.assume(f)
	}
	return x
}

func (v *Ver) unop(st *State, x *ssa.UnOp) Val {
	a := v.val(st, x.X)
	switch x.Op {
	case token.MUL:
		r := v.load(st, x.Type(), a, x.Pos())
		if g, ok := x.X.(*ssa.Global); ok {
			v.globalFacts(st, g, r)
		}
		if r.F == nil {
			r.T = tyOf(x.Type())
		}
		return r
	case token.NOT:
		return mkv(tyBool, not(a.S))
	case token.SUB:
		if n, ok := isLit(a.S); ok {
			return mkv(tyOf(x.Type()), wrapInt(lit(-n), x.Type()))
		}
		return mkv(tyOf(x.Type()), wrapInt("(- "+a.S+")", x.Type()))
	case token.XOR:
		bits, signed := intInfo(x.Type())
		if signed {
			return mkv(tyOf(x.Type()), "(- (- "+a.S+") 1)")
		}
		return mkv(tyOf(x.Type()), "(- "+pow2s(bits)+" 1 "+a.S+")")
	}
	panic(unsupported("unary " + x.Op.String()))
}

// globalFacts adds the content of package-level map literals that are never written.
func (v *Ver) globalFacts(st *State, g *ssa.Global, r Val) {
	mm := v.w.initFacts[g]
	if mm == nil {
		return
	}
	if _, ok := st.names["$init:"+g.String()]; ok {
		return
	}
	d, m := v.reg.mapComps(mm.Type())
	var keys []string
	kv := v.bound("k")
	val := ""
	for _, ref := range *mm.Referrers() {
		mu, ok := ref.(*ssa.MapUpdate)
		if !ok {
			continue
		}
		kc, ok1 := mu.Key.(*ssa.Const)
		vc, ok2 := mu.Value.(*ssa.Const)
		if !ok1 || !ok2 {
			return
		}
		k := constVal(v.w, v, kc.Value, kc.Type())
		vv := constVal(v.w, v, vc.Value, vc.Type())
		keys = append(keys, eq(kv, k.S))
		val += and(imp(eq(kv, k.S), eq(sel(sel(v.hp(st, m), r.S), kv), vv.S))) + " "
	}
	ks := sortOf(tyOf(mm.Type().Underlying().(*types.Map).Key()))
	st.assume("(not (= " + r.S + " nilref))")
	in := sel(sel(v.hp(st, d), r.S), kv)
	st.assume("(forall ((" + kv + " " + ks + ")) (! (and (= " + in + " " + or(keys...) + ") " + val + ") :pattern (" + in + ")))")
	st.names["$init:"+g.String()] = mkv(tyBool, "true")
	v.assumes["package-level map literal "+g.Name()+" is never modified (checked syntactically)"] = true
}

func constOf(x ssa.Value) (int64, bool) {
	if c, ok := x.(*ssa.Const); ok && c.Value != nil && tyOf(c.Type()).K == "int" {
		if _, exact := intInfo(c.Type()); exact || true {
			s := c.Value.ExactString()
			if v, ok := isLit(s); ok {
				return v, true
			}
			if strings.HasPrefix(s, "-") {
				if v, ok := isLit(s[1:]); ok {
					return -v, true
				}
			}
		}
	}
	return 0, false
}

func (v *Ver) binop(st *State, x *ssa.BinOp) Val {
	a, b := v.val(st, x.X), v.val(st, x.Y)
	t := tyOf(x.Type())
	rt := x.Type()
	switch x.Op {
	case token.ADD:
		if a.T.K == "seq" {
			n := v.fresh("cat", seqSort(tyInt))
			st.assume(eq(n, "(Seq_Int_concat "+a.S+" "+b.S+")"))
			return mkv(t, n)
		}
		return mkv(t, wrapInt(add(a.S, b.S), rt))
	case token.SUB:
		return mkv(t, wrapInt(sub(a.S, b.S), rt))
	case token.MUL:
		return mkv(t, wrapInt("(* "+a.S+" "+b.S+")", rt))
	case token.QUO:
		v.unsafeCheck(st, "div", not(eq(b.S, "0")), x.Pos())
		return mkv(t, wrapInt("(tdiv "+a.S+" "+b.S+")", rt))
	case token.REM:
		v.unsafeCheck(st, "div", not(eq(b.S, "0")), x.Pos())
		return mkv(t, "(tmod "+a.S+" "+b.S+")")
	case token.AND:
		if m, ok := constOf(x.Y); ok && m >= 0 {
			return mkv(t, maskConst(a.S, uint64(m)))
		}
		if m, ok := constOf(x.X); ok && m >= 0 {
			return mkv(t, maskConst(b.S, uint64(m)))
		}
		return mkv(t, "(band "+a.S+" "+b.S+")")
	case token.OR:
		if m, ok := constOf(x.Y); ok && m >= 0 {
			return mkv(t, add(sub(a.S, maskConst(a.S, uint64(m))), lit(m)))
		}
		if m, ok := constOf(x.X); ok && m >= 0 {
			return mkv(t, add(sub(b.S, maskConst(b.S, uint64(m))), lit(m)))
		}
		return mkv(t, "(bor "+a.S+" "+b.S+")")
	case token.XOR:
		return mkv(t, "(bxor "+a.S+" "+b.S+")")
	case token.AND_NOT:
		if m, ok := constOf(x.Y); ok && m >= 0 {
			return mkv(t, sub(a.S, maskConst(a.S, uint64(m))))
		}
		return mkv(t, "(bandnot "+a.S+" "+b.S+")")
	case token.SHL:
		return mkv(t, wrapInt(shlTerm(a.S, b.S), rt))
	case token.SHR:
		return mkv(t, shrTerm(a.S, b.S))
	case token.EQL, token.NEQ:
		c := v.ctx(st)
		var f string
		if a.LV != nil || b.LV != nil {
			f = v.ptrEq(a, b)
		} else {
			e := &Expr{File: "code", Line: 0}
			if isNilConst(x.Y) {
				b = mkv(tyNil, "nilref")
			}
			if isNilConst(x.X) {
				a = mkv(tyNil, "nilref")
			}
			f = c.equal(e, a, b)
		}
		if x.Op == token.NEQ {
			f = not(f)
		}
		return mkv(tyBool, f)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.T.K == "seq" {
			l, r := a.S, b.S
			switch x.Op {
			case token.LSS:
				return mkv(tyBool, "(strless "+l+" "+r+")")
			case token.GTR:
				return mkv(tyBool, "(strless "+r+" "+l+")")
			case token.LEQ:
				return mkv(tyBool, "(not (strless "+r+" "+l+"))")
			}
			return mkv(tyBool, "(not (strless "+l+" "+r+"))")
		}
		if a.T.K == "opaque" {
			return mkv(tyBool, v.fresh("fcmp", "Bool"))
		}
		return mkv(tyBool, "("+map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[x.Op]+" "+a.S+" "+b.S+")")
	}
	panic(unsupported("binary " + x.Op.String()))
}

func isNilConst(x ssa.Value) bool {
	c, ok := x.(*ssa.Const)
	return ok && c.Value == nil
}

func (v *Ver) ptrEq(a, b Val) string {
	if a.LV != nil && b.LV != nil {
		if *a.LV == *b.LV {
			return "true"
		}
		panic(unsupported("comparison of locations"))
	}
	return "false"
}

func (v *Ver) convert(st *State, x *ssa.Convert) Val {
	a := v.val(st, x.X)
	t := tyOf(x.Type())
	from := a.T
	switch {
	case t.K == "int" && from.K == "int":
		return mkv(t, v.narrow(a.S, x.X.Type(), x.Type()))
	case t.K == "seq" && from.K == "slice":
		et := x.X.Type().Underlying().(*types.Slice).Elem()
		c := v.ctx(st)
		if b, _ := intInfo(et); b == 8 {
			return v.nameIt(st, mkv(t, c.seqOf(a)), "str")
		}
		return v.nameIt(st, mkv(t, "(strOfRunes "+c.seqOf(a)+")"), "str")
	case t.K == "seq" && from.K == "int":
		return mkv(t, "(strOfRune "+a.S+")")
	case t.K == "slice" && from.K == "seq":
		et := x.Type().Underlying().(*types.Slice).Elem()
		r := v.allocRef(st, "conv")
		cp := v.reg.elemComp(et)
		c := v.ctx(st)
		src := a.S
		if b, _ := intInfo(et); b != 8 {
			src = v.nameIt(st, mkv(&Ty{K: "seq", Elem: tyInt}, "(runesOf "+a.S+")"), "runes").S
		}
		arr := v.fresh("arr", "(Array Int Int)")
		st.assume("(forall ((k Int)) (! (=> (and (<= 0 k) (< k (Seq_Int_len " + src + "))) (= (select " + arr + " k) (Seq_Int_at " + src + " k))) :pattern ((select " + arr + " k))))")
		n := v.fresh("len", "Int")
		st.assume(eq(n, c.lenOf(mkv(&Ty{K: "seq", Elem: tyInt}, src))))
		st.assume("(Seq_Int_eq (Seq_Int_of " + arr + " 0 " + n + ") " + src + ")")
		v.setHeap(st, cp, sto(v.hp(st, cp), r, arr))
		if f := rangeFact("(select "+arr+" k)", cp.Val); f != "" {
			st.assume("(forall ((k Int)) (! " + f + " :pattern ((select " + arr + " k))))")
		}
		return mkv(t, mkslice(r, "0", n, n))
	case t.K == from.K:
		a.T = t
		return a
	case t.K == "opaque" || from.K == "opaque":
		return v.havocVal(st, x.Type(), "conv")
	}
	panic(unsupported("conversion " + x.X.Type().String() + " -> " + x.Type().String()))
}

func (v *Ver) narrow(s string, from, to types.Type) string {
	fb, fs := intInfo(from)
	tb, ts := intInfo(to)
	if tb == 64 && ts && fb == 64 && !fs {
		return "(wrapS64 " + s + ")"
	}
	if tb == 0 || tb == 64 && ts {
		return s
	}
	if fb != 0 && fb < tb && (fs == ts || !fs) || fb == tb && fs == ts {
		return s
	}
	return wrapInt(s, to)
}

func (v *Ver) sliceOp(st *State, x *ssa.Slice) Val {
	b := v.val(st, x.X)
	lo, hi, mx := "0", "", ""
	if x.Low != nil {
		lo = v.val(st, x.Low).S
	}
	if x.High != nil {
		hi = v.val(st, x.High).S
	}
	if x.Max != nil {
		mx = v.val(st, x.Max).S
	}
	c := v.ctx(st)
	switch b.T.K {
	case "seq":
		if hi == "" {
			hi = c.lenOf(b)
		}
		v.unsafeCheck(st, "slice", "(and (<= 0 "+lo+") (<= "+lo+" "+hi+") (<= "+hi+" "+c.lenOf(b)+"))", x.Pos())
		return v.nameIt(st, mkv(b.T, "(Seq_Int_sub "+b.S+" "+lo+" "+hi+")"), "sub")
	case "slice":
		if hi == "" {
			hi = slen(b.S)
		}
		cp := scap(b.S)
		if mx != "" {
			v.unsafeCheck(st, "slice", "(and (<= 0 "+lo+") (<= "+lo+" "+hi+") (<= "+hi+" "+mx+") (<= "+mx+" "+cp+"))", x.Pos())
			cp = mx
		} else {
			v.unsafeCheck(st, "slice", "(and (<= 0 "+lo+") (<= "+lo+" "+hi+") (<= "+hi+" "+cp+"))", x.Pos())
		}
		return mkv(b.T, mkslice(sbase(b.S), add(soff(b.S), lo), sub(hi, lo), sub(cp, lo)))
	case "ref":
		ar := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := lit(ar.Len())
		if hi == "" {
			hi = n
		}
		v.unsafeCheck(st, "slice", "(and (<= 0 "+lo+") (<= "+lo+" "+hi+") (<= "+hi+" "+n+"))", x.Pos())
		return mkv(tyOf(x.Type()), mkslice(b.S, lo, sub(hi, lo), sub(n, lo)))
	}
	panic(unsupported("slice of " + b.T.K))
}

// ---------------------------------------------------------------- calls

func (v *Ver) repoIface(cc *ssa.CallCommon) bool {
	n, ok := types.Unalias(cc.Value.Type()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), v.w.modPath)
}

// contractFor finds the contract of a call, if any.
func (v *Ver) contractFor(cc *ssa.CallCommon) (*Contract, string) {
	if cc.IsInvoke() {
		k := types.TypeString(types.Unalias(cc.Value.Type()), shortQual) + "." + cc.Method.Name()
		return v.w.contracts[k], k
	}
	if f := staticFn(cc); f != nil {
		if v.w.inRepo(f) {
			k := fnKey(f)
			return v.w.contracts[k], k
		}
		k := f.String()
		// calls whose meaning depends on the static type of an interface argument
		for _, a := range cc.Args {
			if mi, ok := a.(*ssa.MakeInterface); ok {
				kk := k + "[" + types.TypeString(mi.X.Type(), shortQual) + "]"
				if c := v.w.contracts[kk]; c != nil {
					return c, kk
				}
				if pt, ok := mi.X.Type().(*types.Pointer); ok {
					if _, ok := pt.Elem().(*types.Struct); ok {
						kk = k + structPtrKey
						if c := v.w.contracts[kk]; c != nil {
							return c, kk
						}
					}
				}
			}
		}
		return v.w.contracts[k], k
	}
	if n, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok {
		k := types.TypeString(n, shortQual)
		return v.w.contracts[k], k
	}
	return nil, ""
}

// contracts with this suffix take a pointer to a struct of unnamed type, handed over as an interface, as that pointer
const structPtrKey = "[*struct]"

func argOf(c *Contract, a ssa.Value) ssa.Value {
	if mi, ok := a.(*ssa.MakeInterface); ok && c != nil && strings.HasSuffix(c.Key, structPtrKey) {
		return mi.X
	}
	return a
}

func callName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := staticFn(cc); f != nil {
		return f.Name()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	if n, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok {
		return n.Obj().Name()
	}
	return cc.Value.Name()
}

// addrKept: the variable's address is stored, merged or returned
func addrKept(x *ssa.Alloc) bool {
	if !x.Heap || x.Referrers() == nil {
		return false
	}
	for _, in := range *x.Referrers() {
		switch y := in.(type) {
		case *ssa.Store:
			if y.Val == ssa.Value(x) {
				return true
			}
		case *ssa.MapUpdate, *ssa.Phi, *ssa.Return:
			return true
		}
	}
	return false
}

var addrAllocs = map[*ssa.Function]map[types.Object]*ssa.Alloc{}
var addrMu sync.Mutex

// addrAlloc: the variable's own location, if its address is taken somewhere in the function
func addrAlloc(x *ssa.DebugRef) *ssa.Alloc {
	addrMu.Lock()
	defer addrMu.Unlock()
	f := x.Parent()
	m := addrAllocs[f]
	if m == nil {
		m = map[types.Object]*ssa.Alloc{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if d, ok := in.(*ssa.DebugRef); ok && d.IsAddr && d.Object() != nil {
					if a, ok := d.X.(*ssa.Alloc); ok {
						m[d.Object()] = a
					}
				}
			}
		}
		addrAllocs[f] = m
	}
	return m[x.Object()]
}

func (v *Ver) call(st *State, fr *frame, x *ssa.Call, k func(*State, Val)) {
	cc := x.Common()
	name := callName(cc)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" || b.Name() == "copy" {
			v.ghostAt(st, fr, "call", name, 0, "before", nil)
		}
		r := v.builtin(st, b.Name(), x)
		if b.Name() == "append" || b.Name() == "copy" {
			v.ghostAt(st, fr, "call", name, 0, "after", nil)
		}
		k(st, r)
		return
	}
	st.calls[name]++
	ord := st.calls[name]
	for n := range st.names {
		if strings.HasPrefix(n, "$arg") {
			delete(st.names, n)
		}
	}
	i0 := 0
	if cc.IsInvoke() {
		i0 = 1
	}
	anyAt := v.c != nil && len(v.c.Ats) > 0
	con, key := v.contractFor(cc)
	for i, a := range cc.Args {
		if anyAt {
			st.names[fmt.Sprintf("$arg%d", i0+i)] = v.val(st, argOf(con, a))
		}
	}
	v.ghostAt(st, fr, "call", name, ord, "before", nil)
	after := func(s *State, r Val) {
		if r.S != "" || r.F != nil {
			s.names["$result"] = r
		}
		for i, f := range r.F {
			s.names[fmt.Sprintf("$result%d", i)] = f
		}
		v.ghostAt(s, fr, "call", name, ord, "after", nil)
		k(s, r)
	}
	sf := staticFn(cc)
	var bind []Val
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			bind = append(bind, v.val(st, b))
		}
	}
	if sf == nil && !cc.IsInvoke() {
		fv := v.val(st, cc.Value)
		if fv.Fn != nil {
			sf = fv.Fn
			bind = fv.Bind
		}
	}
	if con != nil && len(con.Dispatch) > 0 {
		if sf == nil {
			v.dispatch(st, fr, x, con, after)
			return
		}
		con = nil
	}
	if con == nil && sf != nil && v.w.inRepo(sf) {
		con = v.w.contracts[fnKey(sf)]
		key = fnKey(sf)
	}
	if con != nil && !con.Inline {
		v.applyCall(st, fr, x, con, after)
		return
	}
	if sf != nil && v.w.inRepo(sf) {
		// inline
		depth := 0
		for f := fr; f != nil; f = f.parent {
			if f.fn == sf {
				panic(unsupported("recursive function " + sf.Name() + " without contract"))
			}
			depth++
		}
		if depth > 14 {
			panic(unsupported("inlining too deep at " + sf.Name()))
		}
		v.inlined[fnKey(sf)] = true
		var args []Val
		for _, a := range cc.Args {
			args = append(args, v.val(st, a))
		}
		saved := cloneMap(st.names)
		savedDefers := st.defers
		s := st
		s.defers = nil
		v.runFn(s, sf, fr.chain+"/"+siteKey(x), fr, args, bind, func(s2 *State, rs []Val, pos token.Pos) {
			nn := cloneMap(saved)
			for n, val := range s2.names {
				if strings.HasPrefix(n, "$nn:") || strings.HasPrefix(n, "$init:") {
					nn[n] = val
				}
			}
			s2.names = nn
			s2.defers = savedDefers
			var r Val
			switch len(rs) {
			case 0:
				r = Val{T: &Ty{K: "tuple"}}
			case 1:
				r = rs[0]
			default:
				r = Val{T: tyOf(x.Type()), F: rs}
			}
			after(s2, r)
		})
		return
	}
	// unknown
	if cc.IsInvoke() {
		iv := v.val(st, cc.Value)
		if iv.S != "" {
			v.unsafeCheck(st, "nil", not(eq("(itag "+iv.S+")", "0")), x.Pos())
		}
	}
	if cc.IsInvoke() && v.repoIface(cc) || !cc.IsInvoke() && sf == nil {
		v.assumes["dynamic call "+key+" assumed arbitrary"] = true
		n := v.fresh("now", "Int")
		st.assume("(<= " + st.now + " " + n + ")")
		st.now = n
		v.frameAll(st, x.Pos(), key)
		v.applyMods(st, nil, true)
	} else {
		v.assumes["external "+key+": arbitrary result, no effect on modelled memory"] = true
	}
	for _, a := range cc.Args {
		av := v.val(st, a)
		if av.LV != nil {
			if av.LV.Kind == "local" {
				st.locals[av.LV.Id] = v.havocVal(st, v.localT[av.LV.Id].Go, "ext")
			} else {
				v.frameCheck(st, av.LV.Comp, av.LV.Ref, x.Pos())
				h := v.havocVal(st, av.LV.T.Go, "ext")
				v.writeLV(st, av.LV, h, x.Pos())
			}
		}
	}
	n := v.fresh("now", "Int")
	st.assume("(<= " + st.now + " " + n + ")")
	st.now = n
	var r Val
	if tp, ok := x.Type().(*types.Tuple); ok {
		r = Val{T: tyOf(x.Type()), F: []Val{}}
		for i := 0; i < tp.Len(); i++ {
			r.F = append(r.F, v.havocVal(st, tp.At(i).Type(), "ext"))
		}
	} else {
		r = v.havocVal(st, x.Type(), "ext")
	}
	after(st, r)
}

func (v *Ver) frameAll(st *State, pos token.Pos, key string) {
	if v.modAll || v.noFrame {
		return
	}
	v.check(st, "frame", "call "+key, "false", pos)
}

func contractNames(c *Contract, args []Val) map[string]Val {
	m := map[string]Val{}
	for i, p := range c.Params {
		if i < len(args) {
			m[p] = args[i]
		}
	}
	return m
}

func bindResults(c *Contract, m map[string]Val, rs []Val) {
	for i, r := range rs {
		if i < len(c.Results) {
			m[c.Results[i]] = r
		}
		m[fmt.Sprintf("result%d", i)] = r
	}
	if len(rs) == 1 {
		m["result"] = rs[0]
	}
}

// applyCall uses a contract at a call site.
func (v *Ver) applyCall(st *State, fr *frame, x ssa.CallInstruction, c *Contract, k func(*State, Val)) {
	cc := x.Common()
	ckey := c.Pkg + "." + c.Key
	if c.Extern {
		ckey = "extern " + c.Key
	}
	v.callees[ckey] = true
	var args []Val
	if cc.IsInvoke() {
		args = append(args, v.val(st, cc.Value))
	} else if staticFn(cc) == nil && c.Extern {
		fv := v.val(st, cc.Value)
		if fv.Fn == nil {
			v.unsafeCheck(st, "nil", not(eq(fv.S, "nilfunc")), x.Pos())
		}
		if len(c.Params) == len(cc.Args)+1 {
			args = append(args, fv)
		}
	}
	for _, a := range cc.Args {
		av := v.val(st, argOf(c, a))
		if av.T.K == "struct" && av.F != nil {
			// give it a location so that the contract can name it
		}
		args = append(args, av)
	}
	if len(args) > 0 && !c.Extern {
		if sf := staticFn(cc); sf != nil && sf.Signature.Recv() != nil && args[0].T.K == "ref" {
			v.nilCheck(st, args[0].S, x.Pos())
		}
	}
	if cc.IsInvoke() {
		v.unsafeCheck(st, "nil", not(eq("(itag "+args[0].S+")", "0")), x.Pos())
	}
	names := contractNames(c, args)
	pre := v.ctx(st)
	pre.names = names
	pre.pkg = c.Pkg
	pre.old = nil
	nm := callName(cc)
	for i, r := range c.Req {
		lbl := r.Label
		if lbl == "" {
			lbl = fmt.Sprint(i + 1)
		}
		v.check(st, "pre "+nm, lbl, pre.formula(r.E), x.Pos())
	}
	// recursion: termination measure
	if v.c == c && c.Dec != nil && v.entry != nil {
		d1 := pre.ev(c.Dec).S
		oe := *v.entry
		d0 := oe.ev(c.Dec).S
		v.check(st, "decreases", nm, and("(<= 0 "+d1+")", "(< "+d1+" "+d0+")"), x.Pos())
	}
	preSt := st.clone()
	pre = v.ctx(preSt)
	pre.names = names
	pre.pkg = c.Pkg
	ms, every := v.modTerms(pre, c.Mod)
	// frame of the caller
	if !v.modAll && !v.noFrame {
		if every {
			v.frameAll(st, x.Pos(), nm)
		}
		for _, m := range ms {
			for _, kk := range sortedKeys(m.comp) {
				switch {
				case m.all:
					g := "false"
					for _, mm := range v.mods {
						if mm.all && mm.comps[kk] {
							g = "true"
						}
					}
					if g == "false" && m.comp[kk].Kind != "global" {
						b := v.bound("r")
						g = "(forall ((" + b + " Ref)) (=> (< (birth " + b + ") now!0) " + inSet(v.mods, kk, b) + "))"
					}
					v.check(st, "frame", "call "+nm+" "+kk, g, x.Pos())
				case m.elem != "" || len(m.vars) > 0:
					b := v.bound("r")
					one := []modTerm{m}
					v.check(st, "frame", "call "+nm+" "+kk, "(forall (("+b+" Ref)) (=> (and (< (birth "+b+") now!0) "+inSet(one, kk, b)+") "+inSet(v.mods, kk, b)+"))", x.Pos())
				default:
					v.frameCheckRef(st, m.comp[kk], m.ref, "call "+nm+" "+kk, x.Pos())
				}
			}
		}
	}
	n := v.fresh("now", "Int")
	st.assume("(<= " + st.now + " " + n + ")")
	st.now = n
	v.applyMods(st, ms, every)
	for _, a := range args {
		if a.LV != nil && c.Extern {
			h := v.havocVal(st, a.LV.T.Go, "out")
			if a.LV.Kind == "local" {
				st.locals[a.LV.Id] = h
			} else {
				v.writeLV(st, a.LV, h, x.Pos())
			}
		}
	}
	var r Val
	var rs []Val
	var rt types.Type = cc.Signature().Results()
	tp := rt.(*types.Tuple)
	for i := 0; i < tp.Len(); i++ {
		nmr := "res"
		if i < len(c.Results) {
			nmr = c.Results[i]
		}
		rs = append(rs, v.havocVal(st, tp.At(i).Type(), nmr))
	}
	switch len(rs) {
	case 0:
		r = Val{T: &Ty{K: "tuple"}}
	case 1:
		r = rs[0]
	default:
		r = Val{T: tyOf(tp), F: rs}
	}
	post := v.ctx(st)
	pn := cloneMap(names)
	bindResults(c, pn, rs)
	post.names = pn
	post.pkg = c.Pkg
	post.old = pre
	for _, e := range c.Ens {
		st.assume(post.formula(e.E))
	}
	k(st, r)
}

// dispatch calls the function a function value is: one of those its type's contract lists, each by its own contract.
func (v *Ver) dispatch(st *State, fr *frame, x ssa.CallInstruction, c *Contract, k func(*State, Val)) {
	fv := v.val(st, x.Common().Value)
	name := callName(x.Common())
	var is []string
	var cs []*Contract
	for _, d := range c.Dispatch {
		f := v.w.fnByKey[d]
		con := v.w.contracts[d]
		if f == nil || con == nil {
			panic(unsupported("dispatch to " + d + ": no such function or no contract"))
		}
		g := eq(fv.S, v.fnConst(f))
		is = append(is, g)
		cs = append(cs, con)
		if st.known[g] {
			v.applyCall(st, fr, x, con, k)
			return
		}
	}
	v.check(st, "dispatch "+name, "", or(is...), x.Pos())
	for i, con := range cs {
		s := st.clone()
		for j := range cs {
			if j != i {
				s.assume(not(is[j]))
			}
		}
		s.assume(is[i])
		s.known = cloneMap(s.known)
		s.known[is[i]] = true
		v.applyCall(s, fr, x, con, k)
	}
}

func (v *Ver) frameCheckRef(st *State, cp *Comp, ref, lbl string, pos token.Pos) {
	if cp.Kind != "global" && v.isFreshRef(st, ref) {
		return
	}
	set := inSet(v.mods, cp.Name, ref)
	g := set
	if cp.Kind != "global" {
		g = or(set, "(>= (birth "+ref+") now!0)")
		if cp.Kind == "elem" { // a nil slice has no elements
			g = or(g, eq(ref, "nilref"))
		}
	}
	v.check(st, "frame", lbl, g, pos)
}

func (v *Ver) builtin(st *State, name string, x *ssa.Call) Val {
	cc := x.Common()
	c := v.ctx(st)
	switch name {
	case "len":
		a := v.val(st, cc.Args[0])
		if a.T.K == "ref" {
			ar := cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return mkv(tyInt, lit(ar.Len()))
		}
		if a.T.K == "map" {
			n := v.fresh("maplen", "Int")
			st.assume("(<= 0 " + n + ")")
			return mkv(tyOf(x.Type()), n)
		}
		return mkv(tyOf(x.Type()), c.lenOf(a))
	case "cap":
		return mkv(tyOf(x.Type()), scap(v.val(st, cc.Args[0]).S))
	case "print", "println":
		return Val{T: &Ty{K: "tuple"}}
	case "min", "max":
		r := v.val(st, cc.Args[0]).S
		for _, a := range cc.Args[1:] {
			r = "(i" + name + " " + r + " " + v.val(st, a).S + ")"
		}
		return mkv(tyOf(x.Type()), r)
	case "copy":
		return v.copyBuiltin(st, x)
	case "append":
		return v.appendBuiltin(st, x)
	case "delete":
		b := v.val(st, cc.Args[0])
		kk := v.val(st, cc.Args[1])
		d, _ := v.reg.mapComps(cc.Args[0].Type())
		v.frameCheck(st, d, b.S, x.Pos())
		h := v.hp(st, d)
		v.setHeap(st, d, sto(h, b.S, sto(sel(h, b.S), kk.S, "false")))
		return Val{T: &Ty{K: "tuple"}}
	}
	panic(unsupported("builtin " + name))
}

func (v *Ver) copyBuiltin(st *State, x *ssa.Call) Val {
	cc := x.Common()
	dst, src := v.val(st, cc.Args[0]), v.val(st, cc.Args[1])
	c := v.ctx(st)
	n := v.fresh("copied", "Int")
	st.assume(eq(n, "(imin "+slen(dst.S)+" "+c.lenOf(src)+")"))
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	if isStructLike(et) {
		panic(unsupported("copy of structs"))
	}
	cp := v.reg.elemComp(et)
	v.frameCheckNZ(st, cp, sbase(dst.S), "(= "+n+" 0)", x.Pos())
	h := v.hp(st, cp)
	arr := v.fresh("arr", "(Array Int "+sortOf(cp.Val)+")")
	var srcAt string
	if src.T.K == "seq" {
		srcAt = "(Seq_Int_at " + src.S + " (- k " + soff(dst.S) + "))"
	} else {
		srcAt = sel(sel(h, sbase(src.S)), "(+ "+soff(src.S)+" (- k "+soff(dst.S)+"))")
	}
	st.assume("(forall ((k Int)) (! (= (select " + arr + " k) " + ite("(and (<= "+soff(dst.S)+" k) (< k (+ "+soff(dst.S)+" "+n+")))", srcAt, sel(sel(h, sbase(dst.S)), "k")) + ") :pattern ((select " + arr + " k))))")
	v.setHeap(st, cp, sto(h, sbase(dst.S), arr))
	return mkv(tyInt, n)
}

func (v *Ver) frameCheckNZ(st *State, cp *Comp, ref, unless string, pos token.Pos) {
	if v.modAll || v.noFrame || v.isFreshRef(st, ref) {
		return
	}
	v.check(st, "frame", cp.Name, or(unless, inSet(v.mods, cp.Name, ref), "(>= (birth "+ref+") now!0)"), pos)
}

func (v *Ver) appendBuiltin(st *State, x *ssa.Call) Val {
	cc := x.Common()
	s := v.val(st, cc.Args[0])
	t := v.val(st, cc.Args[1])
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	c := v.ctx(st)
	n := c.lenOf(t)
	if n == "0" {
		return s
	}
	sl, so, sb, sc := slen(s.S), soff(s.S), sbase(s.S), scap(s.S)
	base := v.fresh("abase", "Ref")
	off := v.fresh("aoff", "Int")
	cpn := v.fresh("acap", "Int")
	ln := v.fresh("alen", "Int")
	st.assume(eq(ln, add(sl, n)))
	fits := "(<= " + ln + " " + sc + ")"
	if sc == "0" && n != "0" {
		if _, ok := isLit(n); ok {
			fits = "false"
		}
	}
	zero := "(and (= " + n + " 0) (= " + sl + " 0))" // append of nothing to an empty slice keeps it
	_ = zero
	grow := and(eq("(birth "+base+")", st.now), eq("(rkind "+base+")", "0"), eq(off, "0"), "(>= "+cpn+" "+ln+")", not(eq(base, "nilref")))
	keep := and(eq(base, sb), eq(off, so), eq(cpn, sc))
	st.assume(ite(fits, keep, grow))
	if fits == "false" {
		st.fresh[base] = true
	} else if v.isFreshRef(st, sb) {
		st.fresh[base] = true
	} else if !v.modAll && !v.noFrame {
		for _, cp := range v.elemComps(et) {
			if cp.Kind == "elem" {
				v.check(st, "frame", cp.Name, or("(>= (birth "+base+") now!0)", eq(n, "0"), inSet(v.mods, cp.Name, base)), x.Pos())
			} else {
				v.check(st, "frame", cp.Name, or("(>= (birth "+base+") now!0)", eq(n, "0"), inSet(v.mods, cp.Name, "(elemref "+base+" (+ "+off+" "+sl+"))")), x.Pos())
			}
		}
	}
	st.now = add(st.now, "1")
	if _, ok := et.Underlying().(*types.Struct); ok {
		// struct elements: per field
		for _, cp := range v.elemComps(et) {
			h := v.hp(st, cp)
			nn := v.fresh(cp.Name, cp.Sort)
			q := v.bound("q")
			idx := "(- (eidx " + q + ") " + off + ")"
			fromS := sel(h, "(elemref "+sb+" (+ "+so+" "+idx+"))")
			fromT := sel(h, "(elemref "+sbase(t.S)+" (+ "+soff(t.S)+" (- "+idx+" "+sl+")))")
			in := "(and (= (rkind " + q + ") 1) (= (eparent " + q + ") " + base + ") (<= 0 " + idx + ") (< " + idx + " " + ln + "))"
			st.assume("(forall ((" + q + " Ref)) (! (= " + sel(nn, q) + " " + ite(in, ite("(< "+idx+" "+sl+")", fromS, fromT), sel(h, q)) + ") :pattern (" + sel(nn, q) + ")))")
			st.heap[cp.Name] = nn
		}
	} else {
		cp := v.reg.elemComp(et)
		h := v.hp(st, cp)
		if k, ok := isLit(n); ok && k == 1 && t.T.K == "slice" {
			// single element: the common case
			arr := v.fresh("arr", "(Array Int "+sortOf(cp.Val)+")")
			val := sel(sel(h, sbase(t.S)), soff(t.S))
			inner := v.fresh("arr", "(Array Int "+sortOf(cp.Val)+")")
			st.assume(eq(arr, sto(inner, "(+ "+off+" "+sl+")", val)))
			old := sel(h, sb)
			st.assume(imp(fits, eq(inner, old)))
			if fits != "true" {
				st.assume(imp(not(fits), "(forall ((k Int)) (! (=> (and (<= 0 k) (< k "+sl+")) (= (select "+inner+" k) (select "+old+" (+ "+so+" k)))) :pattern ((select "+inner+" k))))"))
			}
			v.setHeap(st, cp, sto(h, base, arr))
		} else {
			arr := v.fresh("arr", "(Array Int "+sortOf(cp.Val)+")")
			old := sel(h, sb)
			var srcAt string
			if t.T.K == "seq" {
				srcAt = "(Seq_Int_at " + t.S + " (- (- k " + off + ") " + sl + "))"
			} else {
				srcAt = sel(sel(h, sbase(t.S)), "(+ "+soff(t.S)+" (- (- k "+off+") "+sl+"))")
			}
			st.assume("(forall ((k Int)) (! (and (=> (and (<= " + off + " k) (< k (+ " + off + " " + sl + "))) (= (select " + arr + " k) (select " + old + " (+ " + so + " (- k " + off + "))))) (=> (and (<= (+ " + off + " " + sl + ") k) (< k (+ " + off + " " + ln + "))) (= (select " + arr + " k) " + srcAt + ")) (=> (and " + fits + " (or (< k (+ " + off + " " + sl + ")) (<= (+ " + off + " " + ln + ") k))) (= (select " + arr + " k) (select " + old + " k)))) :pattern ((select " + arr + " k))))")
			v.setHeap(st, cp, sto(h, base, arr))
		}
	}
	return mkv(tyOf(x.Type()), mkslice(base, off, ln, cpn))
}

func (v *Ver) elemComps(et types.Type) []*Comp {
	if _, ok := et.Underlying().(*types.Struct); ok {
		var tmp []modTerm
		v.structComps(et, "?", &tmp)
		var out []*Comp
		for _, m := range tmp {
			for _, k := range sortedKeys(m.comp) {
				if !strings.HasPrefix(k, "GH_") {
					out = append(out, m.comp[k])
				}
			}
		}
		return out
	}
	return []*Comp{v.reg.elemComp(et)}
}

// ---------------------------------------------------------------- ghost statements

func (v *Ver) ghostAt(st *State, fr *frame, anchor, name string, n int, when string, l *loopInfo) {
	if v.c == nil {
		return
	}
	for _, a := range v.c.Ats {
		if a.Anchor != anchor || a.When != when {
			continue
		}
		if anchor == "call" && a.Name != name {
			continue
		}
		if a.N != 0 && a.N != n && n != 0 {
			continue
		}
		c := v.ctx(st)
		if l != nil {
			c.names = cloneMap(st.names)
			if when == "begin" || when == "end" || when == "exit" {
				v.bindPhis(st, c.names, l)
			}
			if sn := st.snaps["loop:"+l.key]; sn != nil {
				c.snaps = cloneMap(st.snaps)
				c.snaps["loop"] = sn
			}
		}
		v.stmts(st, c, a.Body, "true")
	}
}

func (v *Ver) stmts(st *State, c *Ctx, ss []Stmt, guard string) {
	for _, s := range ss {
		// the heap may be read through st: refresh
		c.heap = v.heapFn(st)
		c.now = st.now
		switch s.Kind {
		case "let":
			x, err := v.evalVal(c, s.E)
			if err != "" {
				v.dropped = append(v.dropped, err)
				continue
			}
			x = v.nameIt(st, x, s.Name)
			c.names[s.Name] = x
			st.names[s.Name] = x
		case "ghost":
			// assignment to a ghost field (every loop is taken to change it: ghostComps)
			if s.Tgt.Op != "field" {
				panic(unsupported(fmt.Sprintf("line %d: ghost assignment here", s.Line)))
			}
			b, err := v.evalVal(c, s.Tgt.A[0])
			x, err2 := v.evalVal(c, s.E)
			if err != "" || err2 != "" {
				v.dropped = append(v.dropped, err+err2)
				continue
			}
			g := c.ghostFor(b, s.Tgt.S)
			if g == nil {
				panic(unsupported(fmt.Sprintf("line %d: not a ghost field", s.Line)))
			}
			t := c.w.resolveType(g.T, g.Pkg)
			if t.K == "seq" && x.T.K != "seq" {
				x = mkv(t, c.seqOf(x))
			}
			cp := v.reg.comp("GH_"+mangle(g.Type)+"_"+g.Field, "(Array Ref "+sortOf(t)+")", "ghost", t, nil)
			v.frameCheck(st, cp, b.S, token.NoPos)
			h := v.hp(st, cp)
			v.setHeap(st, cp, ite(guard, sto(h, b.S, x.S), h))
		case "snap":
			st.snaps[s.Name] = v.frozenCtx(st)
			c.snaps = st.snaps
		case "assert":
			f, err := v.evalClause(c, s.E)
			if err != "" {
				v.dropped = append(v.dropped, err)
				continue
			}
			lbl := s.Label
			if lbl == "" {
				lbl = fmt.Sprintf("L%d", s.Line)
			}
			v.check(st, "assert", lbl, imp(guard, f), token.NoPos)
		case "assume":
			// a stated assumption of the proof: reported with every run
			f, err := v.evalClause(c, s.E)
			if err != "" {
				v.dropped = append(v.dropped, err)
				continue
			}
			st.assume(imp(guard, f))
			v.assumes["assumed inside "+v.unit+": "+s.Label] = true
		case "if":
			g, err := v.evalClause(c, s.E)
			if err != "" {
				v.dropped = append(v.dropped, err)
				continue
			}
			v.stmts(st, c, s.Then, and(guard, g))
			v.stmts(st, c, s.Else, and(guard, not(g)))
		case "use":
			v.useLemma(st, c, s, guard)
		}
	}
}

func (v *Ver) evalVal(c *Ctx, e *Expr) (x Val, err string) {
	defer func() {
		if r := recover(); r != nil {
			if ne, ok := r.(nameErr); ok {
				err = ne.msg
				return
			}
			panic(r)
		}
	}()
	return c.ev(e), ""
}

func (v *Ver) useLemma(st *State, c *Ctx, s Stmt, guard string) {
	l := v.w.lemmas[s.Name]
	if l == nil {
		panic(unsupported(fmt.Sprintf("line %d: unknown lemma %s", s.Line, s.Name)))
	}
	if v.lemma != nil && !l.Axiom && v.w.declPos["lemma "+l.Name] > v.w.declPos["lemma "+v.lemma.Name] {
		panic(unsupported("lemma " + l.Name + " used before its declaration"))
	}
	v.lemmasU[l.Name] = true
	if len(s.Args) != len(l.Params) {
		panic(unsupported(fmt.Sprintf("line %d: lemma %s wants %d arguments", s.Line, s.Name, len(l.Params))))
	}
	if s.Old {
		oc := *c
		oc.heap = v.entry.heap
		oc.now = v.entry.now
		c = &oc
	}
	if s.Vars != nil {
		v.useForall(st, c, s, l, guard)
		return
	}
	nb := map[string]Val{}
	for i, p := range l.Params {
		x, err := v.evalVal(c, s.Args[i])
		if err != "" {
			v.dropped = append(v.dropped, err)
			return
		}
		pt := v.w.resolveType(p.T, l.Pkg)
		if pt.K == "seq" && x.T.K != "seq" {
			x = mkv(pt, c.seqOf(x))
		}
		if x.T.K == "nil" {
			x = mkv(pt, zeroTerm(pt))
		}
		if sortOf(x.T) != sortOf(pt) && x.F == nil {
			panic(unsupported(fmt.Sprintf("line %d: lemma %s argument %d sort %s want %s", s.Line, s.Name, i, sortOf(x.T), sortOf(pt))))
		}
		nb[p.Name] = v.nameIt(st, mkv(pt, x.S), p.Name)
	}
	lc := *c
	lc.bound = nb
	lc.names = map[string]Val{}
	lc.pkg = l.Pkg
	for i, r := range l.Req {
		lbl := r.Label
		if lbl == "" {
			lbl = fmt.Sprint(i + 1)
		}
		v.check(st, "lemma-pre "+l.Name, lbl+" L"+fmt.Sprint(s.Line), imp(guard, lc.formula(r.E)), token.NoPos)
	}
	if v.lemma == l {
		if l.Dec == nil {
			panic(unsupported("recursive lemma without decreases: " + l.Name))
		}
		d1 := lc.formula(l.Dec)
		d0 := v.entry.formula(l.Dec)
		v.check(st, "lemma-decreases "+l.Name, "L"+fmt.Sprint(s.Line), imp(guard, and("(<= 0 "+d1+")", "(< "+d1+" "+d0+")")), token.NoPos)
	}
	for _, e := range l.Ens {
		st.assume(imp(guard, lc.formula(e.E)))
	}
}

// useForall assumes the lemma for all values of the bound variables: its precondition becomes the
// guard of the instance (the lemma itself is proved separately for all arguments).
func (v *Ver) useForall(st *State, c *Ctx, s Stmt, l *Lemma, guard string) {
	if v.lemma == l {
		panic(unsupported("quantified recursive use of lemma " + l.Name))
	}
	nb := map[string]Val{}
	var decls, ns, gs []string
	for _, sv := range s.Vars {
		t := c.w.resolveType(sv.T, c.pkg)
		n := c.v.bound(sv.Name)
		nb[sv.Name] = mkv(t, n)
		decls = append(decls, "("+n+" "+sortOf(t)+")")
		ns = append(ns, n)
		gs = append(gs, valFacts(n, t, c.now)...)
	}
	qc := c.with(nb)
	lb := map[string]Val{}
	for i, p := range l.Params {
		pt := v.w.resolveType(p.T, l.Pkg)
		x := qc.ev(s.Args[i])
		if pt.K == "seq" && x.T.K != "seq" {
			x = mkv(pt, qc.seqOf(x))
		}
		lb[p.Name] = mkv(pt, x.S)
	}
	lc := *qc
	lc.bound = lb
	lc.names = map[string]Val{}
	lc.pkg = l.Pkg
	for _, r := range l.Req {
		gs = append(gs, lc.formula(r.E))
	}
	var es []string
	for _, e := range l.Ens {
		es = append(es, lc.formula(e.E))
	}
	var pats [][]string
	for _, tr := range s.Trig {
		var ts []string
		for _, t := range tr {
			ts = append(ts, qc.ev(t).S)
		}
		pats = append(pats, ts)
	}
	st.assume(imp(guard, wrapQuant("forall", ns, decls, imp(and(gs...), and(es...)), pats)))
}
