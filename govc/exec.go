package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	spec   *LoopSpec
	key    string
	pos    token.Pos
}

type frame struct {
	fn      *ssa.Function
	chain   string
	loops   map[*ssa.BasicBlock]*loopInfo
	parent  *frame
	onRet   func(st *State, res []Val, pos token.Pos)
	args    []Val
	iterPos map[ssa.Value]bool
}

type inState struct {
	st   *State
	pred *ssa.BasicBlock
}

func dominates(a, b *ssa.BasicBlock) bool { return a.Dominates(b) }

func findLoops(fn *ssa.Function) []*loopInfo {
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	var ls []*loopInfo
	for _, l := range m {
		l.pos = loopPos(l)
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if ls[i].pos != ls[j].pos {
			return ls[i].pos < ls[j].pos
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	return ls
}

// loopPos: smallest source position inside the loop (stable source order)
func loopPos(l *loopInfo) token.Pos {
	best := token.NoPos
	for b := range l.blocks {
		for _, in := range b.Instrs {
			p := in.Pos()
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if s.Dominates(b) {
				continue
			}
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	return order
}

// willInline reports whether a call to fn is executed by inlining.
func (v *Ver) willInline(fn *ssa.Function) bool {
	if fn == nil || !v.w.inRepo(fn) {
		return false
	}
	c := v.w.contracts[fnKey(fn)]
	return c == nil || c.Inline
}

// assignLoops walks fn in source order, matching its loops (and those of inlined callees) to spec loops.
func (v *Ver) assignLoops(fn *ssa.Function, chain string, specs *[]*LoopSpec, depth int) {
	if depth > 8 {
		return
	}
	type item struct {
		pos  token.Pos
		l    *loopInfo
		call *ssa.Function
		site string
		ord  int
	}
	var items []item
	for i, l := range findLoops(fn) {
		items = append(items, item{l.pos, l, nil, "", i})
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(ssa.CallInstruction); ok {
				if f := staticFn(cl.Common()); f != nil && v.willInline(f) && f != fn {
					items = append(items, item{cl.Pos(), nil, f, siteKey(cl), 1000 + n})
					n++
				}
			}
		}
	}
	sort.SliceStable(items, func(i, j int) bool { return items[i].pos < items[j].pos })
	for _, it := range items {
		if it.l != nil {
			k := chain + "#" + fmt.Sprint(it.l.header.Index)
			if specs != nil && len(*specs) > 0 {
				v.loopKeys[k] = (*specs)[0]
				*specs = (*specs)[1:]
			}
			if _, ok := v.loopNum[k]; !ok {
				v.loopNum[k] = len(v.loopNum) + 1
			}
			continue
		}
		sp := specs
		if c := v.w.contracts[fnKey(it.call)]; c != nil {
			own := append([]*LoopSpec{}, c.Loops...)
			sp = &own
		}
		v.assignLoops(it.call, chain+"/"+it.site, sp, depth+1)
	}
}

func siteKey(cl ssa.CallInstruction) string {
	b := cl.Block()
	for i, in := range b.Instrs {
		if in == cl.(ssa.Instruction) {
			return fmt.Sprintf("%d.%d", b.Index, i)
		}
	}
	return "?"
}

func staticFn(c *ssa.CallCommon) *ssa.Function {
	if c.IsInvoke() {
		return nil
	}
	switch x := c.Value.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	}
	return nil
}

// ---------------------------------------------------------------- running a function body

func (v *Ver) runFn(st *State, fn *ssa.Function, chain string, parent *frame, args []Val, bind []Val, onRet func(*State, []Val, token.Pos)) {
	fr := &frame{fn: fn, chain: chain, loops: map[*ssa.BasicBlock]*loopInfo{}, parent: parent, onRet: onRet, args: args}
	for _, l := range findLoops(fn) {
		l.key = chain + "#" + fmt.Sprint(l.header.Index)
		l.spec = v.loopKeys[l.key]
		fr.loops[l.header] = l
	}
	for i, p := range fn.Params {
		st.env[p] = args[i]
		if p.Name() != "" && p.Name() != "_" {
			st.names[p.Name()] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			st.env[f] = bind[i]
			st.names[f.Name()] = bind[i]
		}
	}
	pend := map[*ssa.BasicBlock][]inState{fn.Blocks[0]: {{st, nil}}}
	limit := 6
	if v.c != nil && v.c.Merge > 0 {
		limit = v.c.Merge
	}
	for _, b := range rpo(fn) {
		ins := pend[b]
		delete(pend, b)
		if len(ins) == 0 {
			continue
		}
		// phis per edge
		var sts []*State
		for _, in := range ins {
			v.evalPhis(in.st, b, in.pred)
			sts = append(sts, in.st)
		}
		l := fr.loops[b]
		if len(sts) > 1 && (l != nil || len(sts) > limit) {
			sts = []*State{v.merge(sts)}
		}
		for _, s := range sts {
			if l != nil {
				s = v.enterLoop(s, fr, l)
			}
			start := 0
			for start < len(b.Instrs) {
				if _, ok := b.Instrs[start].(*ssa.Phi); !ok {
					break
				}
				start++
			}
			v.execFrom(s, fr, b, start, func(s2 *State, succ *ssa.BasicBlock) {
				if succ.Dominates(b) {
					v.backEdge(s2, fr, fr.loops[succ], b)
					return
				}
				var left []*loopInfo
				for _, x := range fr.loops {
					if x.blocks[b] && !x.blocks[succ] {
						left = append(left, x)
					}
				}
				sort.Slice(left, func(i, j int) bool { return len(left[i].blocks) < len(left[j].blocks) })
				for _, x := range left {
					v.ghostAt(s2, fr, "loop", "", v.loopNum[x.key], "exit", x)
				}
				pend[succ] = append(pend[succ], inState{s2, b})
			})
		}
	}
}

func (v *Ver) evalPhis(st *State, b, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	k := -1
	for i, p := range b.Preds {
		if p == pred {
			k = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, v.val(st, p.Edges[k]))
	}
	for i, p := range phis {
		st.env[p] = vals[i]
		if p.Comment != "" {
			st.names[p.Comment] = vals[i]
		}
	}
}

// mergeDefers keeps the deferred calls all states have in common.  A call deferred on some of the paths only may
// be left out of the joined state when it has no effect there: no precondition and nothing modified.
func (v *Ver) mergeDefers(out *State, sts []*State) {
	in := func(d *ssa.Defer, l []*ssa.Defer) bool {
		for _, x := range l {
			if x == d {
				return true
			}
		}
		return false
	}
	out.defers = nil
	seen := map[*ssa.Defer]bool{}
	for _, s := range sts {
		for _, d := range s.defers {
			if seen[d] {
				continue
			}
			seen[d] = true
			all := true
			for _, t := range sts {
				all = all && in(d, t.defers)
			}
			if all {
				out.defers = append(out.defers, d)
				continue
			}
			if con, _ := v.contractFor(d.Common()); con != nil {
				if len(con.Req) > 0 || !con.HasMod || len(con.Mod) > 0 {
					panic(unsupported("deferred call on some of the joined paths only"))
				}
			} else if f := staticFn(d.Common()); f != nil && v.w.inRepo(f) {
				panic(unsupported("defer of " + f.Name()))
			} else {
				v.assumes["deferred call "+d.Common().String()+" has no modelled effect"] = true
			}
		}
	}
}

// merge joins several states with a common history
func (v *Ver) merge(sts []*State) *State {
	v.notes = append(v.notes, "merge")
	// common ancestor of fact lists
	anc := sts[0].facts
	for _, s := range sts[1:] {
		a, b := anc, s.facts
		for a != b {
			da, db := -1, -1
			if a != nil {
				da = a.depth
			}
			if b != nil {
				db = b.depth
			}
			if da >= db {
				a = a.parent
			} else {
				b = b.parent
			}
		}
		anc = a
	}
	out := sts[0].clone()
	v.mergeDefers(out, sts)
	for g := range sts[0].known {
		for _, s := range sts[1:] {
			if !s.known[g] {
				delete(out.known, g)
			}
		}
	}
	out.facts = anc
	var bs []string
	for _, s := range sts {
		b := v.fresh("path", "Bool")
		bs = append(bs, b)
		var fs []string
		for f := s.facts; f != anc; f = f.parent {
			fs = append(fs, f.s)
		}
		for i := len(fs) - 1; i >= 0; i-- {
			// definitions of fresh constants need no guard
			out.assume(imp(b, fs[i]))
		}
	}
	out.assume(or(bs...))
	// heap
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.heap {
			keys[k] = true
		}
	}
	// now
	same := true
	for _, s := range sts {
		if s.now != sts[0].now {
			same = false
		}
	}
	if !same {
		n := v.fresh("now", "Int")
		for i, s := range sts {
			out.assume(imp(bs[i], eq(n, s.now)))
		}
		out.now = n
	}
	for _, k := range sortedModKeys(keys) {
		cp := v.reg.comps[k]
		h0 := v.hp(sts[0], cp)
		eqAll := true
		for _, s := range sts {
			if v.hp(s, cp) != h0 {
				eqAll = false
			}
		}
		if eqAll {
			out.heap[k] = h0
			continue
		}
		n := v.fresh(cp.Name, cp.Sort)
		for i, s := range sts {
			out.assume(imp(bs[i], eq(n, v.hp(s, cp))))
		}
		out.heap[k] = n
	}
	mv := func(get func(s *State) (Val, bool)) (Val, bool) {
		x0, ok := get(sts[0])
		if !ok {
			return Val{}, false
		}
		xs := []Val{x0}
		for _, s := range sts[1:] {
			x, ok := get(s)
			if !ok {
				return Val{}, false
			}
			xs = append(xs, x)
		}
		return v.mergeVals(out, bs, xs)
	}
	env := map[ssa.Value]Val{}
	for _, k := range sortedValues(sts[0].env) {
		k := k
		if x, ok := mv(func(s *State) (Val, bool) { x, ok := s.env[k]; return x, ok }); ok {
			env[k] = x
		}
	}
	out.env = env
	names := map[string]Val{}
	for _, k := range sortedKeys(sts[0].names) {
		k := k
		if x, ok := mv(func(s *State) (Val, bool) { x, ok := s.names[k]; return x, ok }); ok {
			names[k] = x
		}
	}
	out.names = names
	var lks []int
	for k := range sts[0].locals {
		lks = append(lks, k)
	}
	sort.Ints(lks)
	for _, k := range lks {
		k := k
		if x, ok := mv(func(s *State) (Val, bool) { x, ok := s.locals[k]; return x, ok }); ok {
			out.locals[k] = x
		} else {
			delete(out.locals, k)
		}
	}
	for _, k := range sortedValues(sts[0].iters) {
		it := sts[0].iters[k]
		p := it.Pos
		diff := false
		for _, s := range sts {
			if s.iters[k] == nil || s.iters[k].Pos != p {
				diff = true
			}
		}
		if diff {
			n := v.fresh("pos", "Int")
			for i, s := range sts {
				if s.iters[k] != nil {
					out.assume(imp(bs[i], eq(n, s.iters[k].Pos)))
				}
			}
			out.iters[k] = &Iter{it.Kind, it.X, n, it.Seen}
		}
	}
	for k := range out.fresh {
		for _, s := range sts {
			if !s.fresh[k] {
				delete(out.fresh, k)
				break
			}
		}
	}
	return out
}

func (v *Ver) mergeVals(out *State, bs []string, xs []Val) (Val, bool) {
	x0 := xs[0]
	if x0.F != nil {
		r := Val{T: x0.T, F: []Val{}}
		for i := range x0.F {
			var ys []Val
			for _, x := range xs {
				if len(x.F) != len(x0.F) {
					return Val{}, false
				}
				ys = append(ys, x.F[i])
			}
			y, ok := v.mergeVals(out, bs, ys)
			if !ok {
				return Val{}, false
			}
			r.F = append(r.F, y)
		}
		return r, true
	}
	if x0.LV != nil {
		for _, x := range xs[1:] {
			if x.LV == nil || *x.LV != *x0.LV {
				if x.LV == nil || x.LV.Kind != x0.LV.Kind || x.LV.Comp != x0.LV.Comp || x.LV.Id != x0.LV.Id {
					return Val{}, false
				}
				return Val{}, false
			}
		}
		return x0, true
	}
	anyFn, sameFn := false, true
	for _, x := range xs {
		if x.Fn != nil {
			anyFn = true
			if len(x.Bind) > 0 && x.Fn != x0.Fn {
				return Val{}, false
			}
		}
		if x.Fn != x0.Fn {
			sameFn = false
		}
	}
	if anyFn && sameFn {
		return x0, true
	}
	if anyFn {
		ys := make([]Val, len(xs))
		for i, x := range xs {
			ys[i] = x
			if x.Fn != nil {
				ys[i] = mkv(x.T, v.fnConst(x.Fn))
			}
		}
		xs, x0 = ys, ys[0]
	}
	same := true
	for _, x := range xs {
		if x.S != x0.S || x.T.K == "nil" {
			same = false
		}
		if x.LV != nil || x.F != nil || x.Fn != nil {
			return Val{}, false
		}
	}
	if same {
		return x0, true
	}
	t := x0.T
	for _, x := range xs {
		if x.T.K != "nil" {
			t = x.T
		}
	}
	n := v.fresh("m", sortOf(t))
	for i, x := range xs {
		s := x.S
		if x.T.K == "nil" {
			s = zeroTerm(t)
		}
		if sortOf(x.T) != sortOf(t) && x.T.K != "nil" {
			return Val{}, false
		}
		out.assume(imp(bs[i], eq(n, s)))
	}
	return mkv(t, n), true
}

// ---------------------------------------------------------------- loops

func (v *Ver) invCtx(st *State, fr *frame, l *loopInfo) *Ctx {
	c := v.ctx(st)
	c.names = cloneMap(st.names)
	v.bindPhis(st, c.names, l)
	return c
}

func (v *Ver) bindPhis(st *State, names map[string]Val, l *loopInfo) {
	ints := 0
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		x := st.env[p]
		if p.Comment == "rangeindex" {
			i := add(x.S, "1")
			if strings.HasPrefix(x.S, "(+ ") {
				sp := splitSexp(x.S[1 : len(x.S)-1])
				if len(sp) == 3 {
					if k, ok := isLit(sp[2]); ok {
						i = add(sp[1], lit(k+1))
					}
				}
			}
			names["$i"] = mkv(tyInt, i)
			if k := rangeKeyName(l, p); k != "" {
				names[k] = mkv(tyInt, i)
			}
			continue
		}
		if p.Comment != "" {
			names[p.Comment] = x
		}
		if tyOf(p.Type()).K == "int" && isCounter(p, l) {
			ints++
			if _, ok := names["$i"]; !ok || ints == 1 {
				names["$i"] = x
			}
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if it := st.iters[nx.Iter]; it != nil && it.Kind == "string" {
					// inside the innermost loop containing the Next as header block
					if b == l.header || l.header.Dominates(b) && innermost(l, b) {
						names["$pos"] = mkv(tyInt, it.Pos)
						if k := nextKeyName(nx); k != "" {
							names[k] = mkv(tyInt, it.Pos)
						}
					}
				}
			}
		}
	}
}

func innermost(l *loopInfo, b *ssa.BasicBlock) bool { return b == l.header }

func nextKeyName(nx *ssa.Next) string {
	for _, r := range *nx.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
			for _, q := range *e.Referrers() {
				if d, ok := q.(*ssa.DebugRef); ok && !d.IsAddr && d.Object() != nil {
					return d.Object().Name()
				}
			}
		}
	}
	return ""
}

func rangeKeyName(l *loopInfo, p *ssa.Phi) string {
	for _, r := range *p.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok && b.Op == token.ADD {
			for _, q := range *b.Referrers() {
				if d, ok := q.(*ssa.DebugRef); ok && !d.IsAddr && d.Object() != nil {
					return d.Object().Name()
				}
			}
		}
	}
	return ""
}

func isCounter(p *ssa.Phi, l *loopInfo) bool {
	for i, e := range p.Edges {
		if l.blocks[p.Block().Preds[i]] {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD && b.Op != token.SUB || b.X != p {
				return false
			}
			if _, ok := b.Y.(*ssa.Const); !ok {
				return false
			}
		}
	}
	return true
}

func (v *Ver) loopInvs(st *State, fr *frame, l *loopInfo, mode string, pos token.Pos) {
	if l.spec == nil {
		return
	}
	c := v.invCtx(st, fr, l)
	if sn := st.snaps["loop:"+l.key]; sn != nil {
		c.snaps = cloneMap(st.snaps)
		c.snaps["loop"] = sn
	}
	num := v.loopNum[l.key]
	for i, inv := range l.spec.Inv {
		lbl := inv.Label
		if lbl == "" {
			lbl = fmt.Sprint(i + 1)
		}
		f, err := v.evalClause(c, inv.E)
		if err != "" {
			v.dropped = append(v.dropped, err)
			continue
		}
		if mode == "assume" {
			st.assume(f)
		} else {
			v.check(st, fmt.Sprintf("loop%d-%s", num, mode), lbl, f, pos)
		}
	}
}

// evalClause evaluates a formula; unknown local names are reported, not fatal.
func (v *Ver) evalClause(c *Ctx, e *Expr) (f string, err string) {
	defer func() {
		if r := recover(); r != nil {
			if ne, ok := r.(nameErr); ok {
				err = ne.msg
				return
			}
			panic(r)
		}
	}()
	return c.formula(e), ""
}

func (v *Ver) enterLoop(st *State, fr *frame, l *loopInfo) *State {
	st = st.clone()
	st.snaps["loop:"+l.key] = v.frozenCtx(st)
	v.loopInvs(st, fr, l, "entry", l.pos)
	pre := v.frozenCtx(st)
	_ = pre
	wr := v.analyze(st, fr, l)
	// loop frame declared explicitly
	oldNow := st.now
	st.now = v.fresh("now", "Int")
	st.assume("(<= " + oldNow + " " + st.now + ")")
	// phis
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		entryVal := st.env[p]
		if entryVal.LV != nil || entryVal.Fn != nil {
			// must be unchanged in the loop
			if !phiInvariant(p) {
				panic(unsupported("loop carried location or function value"))
			}
			continue
		}
		nm := p.Comment
		if nm == "" {
			nm = "phi"
		}
		nv := v.havocVal(st, p.Type(), nm)
		st.env[p] = nv
		if p.Comment != "" && p.Comment != "rangeindex" {
			st.names[p.Comment] = nv
		}
		ty := tyOf(p.Type())
		if ty.K == "int" {
			v.autoCounter(st, p, l, nv, entryVal)
		}
		if ty.K == "slice" && v.freshRooted(st, p, map[ssa.Value]bool{}) {
			st.assume("(or (= (sbase " + nv.S + ") nilref) (>= (birth (sbase " + nv.S + ")) now!0))")
		}
		if ty.K == "ref" && v.freshRooted(st, p, map[ssa.Value]bool{}) {
			st.assume("(or (= " + nv.S + " nilref) (>= (birth " + nv.S + ") now!0))")
		}
	}
	// locals
	var lids []int
	for id := range wr.locals {
		lids = append(lids, id)
	}
	sort.Ints(lids)
	for _, id := range lids {
		if x, ok := st.locals[id]; ok {
			st.locals[id] = v.havocVal(st, v.localType(id, x), "loc")
		}
	}
	// names assigned inside the loop by other instructions are stale
	for _, b := range l.sorted() {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && !d.IsAddr && d.Object() != nil {
				n := d.Object().Name()
				if cur, ok := st.names[n]; ok {
					if iv, ok := st.env[d.X]; ok && iv.S == cur.S && iv.S != "" {
						if ii, ok := d.X.(ssa.Instruction); ok && l.blocks[ii.Block()] {
							if _, isPhi := d.X.(*ssa.Phi); !isPhi {
								delete(st.names, n)
							}
						}
					}
				}
			}
			if nx, ok := in.(*ssa.Next); ok {
				if it := st.iters[nx.Iter]; it != nil {
					n := v.fresh("pos", "Int")
					ni := &Iter{it.Kind, it.X, n, ""}
					if it.Kind == "string" {
						c := v.ctx(st)
						st.assume("(and (<= 0 " + n + ") (<= " + n + " " + c.lenOf(it.X) + "))")
					}
					st.iters[nx.Iter] = ni
				}
			}
		}
	}
	v.havocLoopHeap(st, fr, l, wr)
	v.loopInvs(st, fr, l, "assume", l.pos)
	if l.spec != nil && l.spec.Dec != nil {
		c := v.invCtx(st, fr, l)
		d := c.ev(l.spec.Dec).S
		n := v.fresh("measure", "Int")
		st.assume(eq(n, d))
		st.names["$measure:"+l.key] = mkv(tyInt, n)
	}
	v.ghostAt(st, fr, "loop", "", v.loopNum[l.key], "begin", l)
	return st
}

func (v *Ver) localType(id int, x Val) types.Type { return v.localT[id].Go }

func phiInvariant(p *ssa.Phi) bool {
	var x ssa.Value
	for _, e := range p.Edges {
		if e == p {
			continue
		}
		if x != nil && x != e {
			return false
		}
		x = e
	}
	return true
}

func (v *Ver) autoCounter(st *State, p *ssa.Phi, l *loopInfo, nv, entry Val) {
	up, down := true, true
	for i, e := range p.Edges {
		if !l.blocks[p.Block().Preds[i]] {
			continue
		}
		if e == p {
			continue
		}
		if !stepDir(e, p, l, &up, &down, map[ssa.Value]bool{}) {
			up, down = false, false
		}
	}
	bits, signed := intInfo(p.Type())
	if bits != 64 || !signed {
		return
	}
	if up {
		st.assume("(>= " + nv.S + " " + entry.S + ")")
	}
	if down && !up {
		st.assume("(<= " + nv.S + " " + entry.S + ")")
	}
	if p.Comment == "rangeindex" {
		// upper bound: t = phi+1 ; if t < n
		for _, r := range *p.Referrers() {
			b, ok := r.(*ssa.BinOp)
			if !ok || b.Op != token.ADD {
				continue
			}
			for _, q := range *b.Referrers() {
				if cmp, ok := q.(*ssa.BinOp); ok && cmp.Op == token.LSS && cmp.X == b {
					n := v.val(st, cmp.Y)
					st.assume("(or (< " + nv.S + " " + n.S + ") (= " + nv.S + " (- 1)))")
				}
			}
		}
	}
}

// stepDir: is e = p + c (possibly through inner phis)?
func stepDir(e ssa.Value, p *ssa.Phi, l *loopInfo, up, down *bool, seen map[ssa.Value]bool) bool {
	if e == ssa.Value(p) || seen[e] {
		return true
	}
	seen[e] = true
	switch x := e.(type) {
	case *ssa.BinOp:
		k, ok := x.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			return false
		}
		n := k.Int64()
		if x.Op == token.SUB {
			n = -n
		} else if x.Op != token.ADD {
			return false
		}
		if n > 0 {
			*down = false
		}
		if n < 0 {
			*up = false
		}
		return stepDir(x.X, p, l, up, down, seen)
	case *ssa.Phi:
		if !l.blocks[x.Block()] {
			return false
		}
		for _, q := range x.Edges {
			if !stepDir(q, p, l, up, down, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// freshRooted: the value can only be nil or memory allocated by this activation.
func (v *Ver) freshRooted(st *State, x ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[x] {
		return true
	}
	seen[x] = true
	switch y := x.(type) {
	case *ssa.Const:
		return y.Value == nil
	case *ssa.MakeSlice:
		return true
	case *ssa.Alloc:
		return y.Heap || isStructLike(y.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Slice:
		return v.freshRooted(st, y.X, seen)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if !v.freshRooted(st, e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return v.freshRooted(st, y.Call.Args[0], seen)
		}
	case *ssa.Convert:
		return tyOf(y.Type()).K == "slice" && tyOf(y.X.Type()).K == "seq"
	}
	return false
}

func (v *Ver) backEdge(st *State, fr *frame, l *loopInfo, pred *ssa.BasicBlock) {
	st = st.clone()
	if v.loopSeen[l.key] < 8 { // one of the ways round it must be possible
		v.loopSeen[l.key]++
		v.cover(st, fmt.Sprintf("loop%d-body", v.loopNum[l.key]))
	}
	var meas Val
	hasM := false
	if l.spec != nil && l.spec.Dec != nil {
		meas, hasM = st.names["$measure:"+l.key]
	}
	v.evalPhis(st, l.header, pred)
	v.ghostAt(st, fr, "loop", "", v.loopNum[l.key], "end", l)
	v.loopInvs(st, fr, l, "maintained", l.pos)
	if lf := st.frames[l.key]; lf != nil {
		for _, k := range sortedKeys(lf.heap) {
			cp := v.reg.comps[k]
			if v.hp(st, cp) == lf.heap[k] {
				continue
			}
			b := v.bound("r")
			v.check(st, fmt.Sprintf("loop%d-frame", v.loopNum[l.key]), k, "(forall (("+b+" Ref)) "+imp("(< (birth "+b+") "+lf.now+")", or(inSet(lf.extra, k, b), eq(sel(v.hp(st, cp), b), sel(lf.heap[k], b))))+")", l.pos)
		}
	}
	if hasM {
		c := v.invCtx(st, fr, l)
		d := c.ev(l.spec.Dec).S
		v.check(st, fmt.Sprintf("loop%d-terminates", v.loopNum[l.key]), "", and("(<= 0 "+meas.S+")", "(< "+d+" "+meas.S+")"), l.pos)
	}
	v.paths++
}

// ---------------------------------------------------------------- loop write analysis

type writes struct {
	locals map[int]bool
	full   map[string]*Comp
	exact  map[string]map[string]*Comp // comp -> refs
	refs   map[string][]string
	every  bool
}

func (wr *writes) add(cp *Comp, ref string) {
	if ref == "" {
		wr.full[cp.Name] = cp
		return
	}
	for _, r := range wr.refs[cp.Name] {
		if r == ref {
			return
		}
	}
	wr.refs[cp.Name] = append(wr.refs[cp.Name], ref)
	if wr.exact[cp.Name] == nil {
		wr.exact[cp.Name] = map[string]*Comp{}
	}
	wr.exact[cp.Name][ref] = cp
}

// class of an ssa value relative to the loop: ref term if loop-invariant, "fresh" if allocated inside the loop, "" unknown
type wctx struct {
	v     *Ver
	st    *State
	wr    *writes
	in    func(ssa.Instruction) bool // is the instruction inside the loop?
	sub   map[ssa.Value]string       // callee params -> class
	depth int
	fns   map[*ssa.Function]bool
}

func (w *wctx) class(x ssa.Value) string {
	if w.sub != nil {
		if c, ok := w.sub[x]; ok {
			return c
		}
	}
	switch y := x.(type) {
	case *ssa.Alloc:
		if w.in(y) {
			return "fresh"
		}
	case *ssa.MakeSlice:
		if w.in(y) {
			return "fresh"
		}
	case *ssa.MakeMap:
		if w.in(y) {
			return "fresh"
		}
	case *ssa.FieldAddr:
		f := y.X.Type().Underlying().(*types.Pointer).Elem()
		if isStructLike(f.Underlying().(*types.Struct).Field(y.Field).Type()) {
			c := w.class(y.X)
			if c == "fresh" || c == "" {
				return c
			}
			return "(" + w.v.reg.subFn(f, y.Field) + " " + c + ")"
		}
		return ""
	case *ssa.Slice:
		return w.class(y.X)
	case *ssa.ChangeType:
		return w.class(y.X)
	case *ssa.Convert:
		if w.in(y) && tyOf(y.Type()).K == "slice" {
			return "fresh"
		}
	case *ssa.IndexAddr:
		c := w.class(y.X)
		if c == "fresh" {
			return c
		}
		return ""
	}
	inLoop := true
	if ii, ok := x.(ssa.Instruction); ok {
		inLoop = w.in(ii)
	} else {
		inLoop = false
	}
	if !inLoop && w.sub == nil {
		if val, ok := w.st.env[x]; ok {
			switch val.T.K {
			case "slice":
				return sbase(val.S)
			case "ref", "map", "struct", "array":
				return val.S
			case "iface":
				return "(ival " + val.S + ")"
			}
		}
		if _, ok := x.(*ssa.Const); ok {
			return ""
		}
	}
	return ""
}

func (v *Ver) analyze(st *State, fr *frame, l *loopInfo) *writes {
	wr := &writes{locals: map[int]bool{}, full: map[string]*Comp{}, exact: map[string]map[string]*Comp{}, refs: map[string][]string{}}
	w := &wctx{v: v, st: st, wr: wr, fns: map[*ssa.Function]bool{}}
	w.in = func(i ssa.Instruction) bool { return i.Parent() == fr.fn && l.blocks[i.Block()] }
	var bs []*ssa.BasicBlock
	for _, b := range fr.fn.Blocks {
		if l.blocks[b] {
			bs = append(bs, b)
		}
	}
	w.blocks(bs, fr.fn)
	for _, cp := range v.ghostComps() {
		wr.add(cp, "")
	}
	return wr
}

// ghostComps are the ghost fields assigned to somewhere in the unit's own ghost code: every loop may change them.
func (v *Ver) ghostComps() []*Comp {
	if v.c == nil {
		return nil
	}
	var out []*Comp
	var walk func(ss []Stmt)
	walk = func(ss []Stmt) {
		for _, s := range ss {
			walk(s.Then)
			walk(s.Else)
			if s.Kind != "ghost" || s.Tgt.Op != "field" {
				continue
			}
			for _, k := range sortedKeys(v.w.ghosts) {
				if g := v.w.ghosts[k]; g.Field == s.Tgt.S {
					gt := v.w.resolveType(g.T, g.Pkg)
					out = append(out, v.reg.comp("GH_"+mangle(g.Type)+"_"+g.Field, "(Array Ref "+sortOf(gt)+")", "ghost", gt, nil))
				}
			}
		}
	}
	for _, a := range v.c.Ats {
		if a.Anchor != "entry" && a.Anchor != "return" {
			walk(a.Body)
		}
	}
	return out
}

func (w *wctx) addStruct(t types.Type, ref string) {
	if ref == "fresh" {
		return
	}
	var ms []modTerm
	r := ref
	if r == "" {
		r = "?"
	}
	w.v.structComps(t, r, &ms)
	for _, m := range ms {
		for _, k := range sortedKeys(m.comp) {
			if strings.HasPrefix(k, "GH_") {
				continue
			}
			if ref == "" {
				w.wr.add(m.comp[k], "")
			} else {
				w.wr.add(m.comp[k], m.ref)
			}
		}
	}
}

func (w *wctx) store(addr ssa.Value) {
	v := w.v
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		f := a.X.Type().Underlying().(*types.Pointer).Elem()
		c := w.class(a.X)
		if c == "fresh" {
			return
		}
		ft := f.Underlying().(*types.Struct).Field(a.Field).Type()
		if isStructLike(ft) {
			if c != "" {
				c = "(" + v.reg.subFn(f, a.Field) + " " + c + ")"
			}
			if ar, ok := ft.Underlying().(*types.Array); ok {
				w.wr.add(v.reg.elemComp(ar.Elem()), c)
				return
			}
			w.addStruct(ft, c)
			return
		}
		w.wr.add(v.reg.fieldComp(f, a.Field), c)
	case *ssa.IndexAddr:
		c := w.class(a.X)
		if c == "fresh" {
			return
		}
		var et types.Type
		switch u := a.X.Type().Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Pointer:
			et = u.Elem().Underlying().(*types.Array).Elem()
			if ia, ok := a.X.(*ssa.IndexAddr); ok { // array inside a slice or array
				w.store(ia)
				return
			}
		}
		if _, ok := et.Underlying().(*types.Struct); ok {
			w.addStruct(et, "")
			return
		}
		w.wr.add(v.reg.elemComp(et), c)
	case *ssa.Global:
		if isStructLike(a.Type().Underlying().(*types.Pointer).Elem()) {
			w.addStruct(a.Type().Underlying().(*types.Pointer).Elem(), "")
			return
		}
		w.wr.add(v.reg.globalComp(a.Pkg.Pkg.Path(), a.Name(), a.Type().Underlying().(*types.Pointer).Elem()), "")
	default:
		// local, free variable, or pointer value
		if x, ok := w.st.env[addr]; ok && x.LV != nil {
			if x.LV.Kind == "local" {
				w.wr.locals[x.LV.Id] = true
			} else {
				w.wr.add(x.LV.Comp, "")
			}
			return
		}
		el := addr.Type().Underlying().(*types.Pointer).Elem()
		c := w.class(addr)
		if c == "fresh" {
			return
		}
		if _, ok := el.Underlying().(*types.Struct); ok {
			w.addStruct(el, c)
			return
		}
		if ar, ok := el.Underlying().(*types.Array); ok {
			w.wr.add(v.reg.elemComp(ar.Elem()), c)
			return
		}
		if al, ok := addr.(*ssa.Alloc); ok && w.in(al) {
			return
		}
		if w.sub != nil {
			if _, ok := addr.(*ssa.Alloc); ok {
				return // local of an inlined callee
			}
		}
		w.wr.add(v.reg.cellComp(el), "")
	}
}

func (w *wctx) blocks(bs []*ssa.BasicBlock, fn *ssa.Function) {
	v := w.v
	for _, b := range bs {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				w.store(x.Addr)
			case *ssa.MapUpdate:
				d, m := v.reg.mapComps(x.Map.Type())
				c := w.class(x.Map)
				if c == "fresh" {
					continue
				}
				w.wr.add(d, c)
				w.wr.add(m, c)
			case ssa.CallInstruction:
				w.call(x, fn)
			}
		}
	}
}

func (w *wctx) call(x ssa.CallInstruction, fn *ssa.Function) {
	v := w.v
	cc := x.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy":
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			c := w.class(cc.Args[0])
			if c == "fresh" {
				return
			}
			if b.Name() == "append" {
				// appending to nil allocates
				if k, ok := cc.Args[0].(*ssa.Const); ok && k.Value == nil {
					return
				}
				c = ""
			}
			if _, ok := et.Underlying().(*types.Struct); ok {
				w.addStruct(et, "")
				return
			}
			w.wr.add(v.reg.elemComp(et), c)
		case "delete":
			d, m := v.reg.mapComps(cc.Args[0].Type())
			w.wr.add(d, w.class(cc.Args[0]))
			w.wr.add(m, w.class(cc.Args[0]))
		}
		return
	}
	con, _ := v.contractFor(cc)
	sf := staticFn(cc)
	if sf == nil && !cc.IsInvoke() {
		if val, ok := w.st.env[cc.Value]; ok && val.Fn != nil {
			sf = val.Fn
		}
	}
	if con != nil && len(con.Dispatch) > 0 {
		if sf == nil {
			for _, d := range con.Dispatch {
				if c := v.w.contracts[d]; c != nil {
					w.contractWrites(c, cc, x)
				}
			}
			return
		}
		con = v.w.contracts[fnKey(sf)]
	}
	if con != nil && !con.Inline {
		w.contractWrites(con, cc, x)
		return
	}
	if sf != nil && v.w.inRepo(sf) {
		if w.fns[sf] || w.depth > 8 {
			return
		}
		w.fns[sf] = true
		nw := &wctx{v: v, st: w.st, wr: w.wr, depth: w.depth + 1, fns: w.fns, sub: map[ssa.Value]string{}}
		for i, p := range sf.Params {
			if i < len(cc.Args) {
				nw.sub[p] = w.class(cc.Args[i])
			}
		}
		nw.in = func(i ssa.Instruction) bool { return true }
		nw.blocks(sf.Blocks, sf)
		w.fns[sf] = false
		return
	}
	// unknown external: locals passed by address
	for _, a := range cc.Args {
		w.escape(a)
	}
	if cc.IsInvoke() && sf == nil && con == nil && v.repoIface(cc) {
		w.wr.every = true
	}
	if !cc.IsInvoke() && sf == nil {
		w.wr.every = true
	}
}

func (w *wctx) escape(a ssa.Value) {
	if mi, ok := a.(*ssa.MakeInterface); ok {
		a = mi.X
	}
	if val, ok := w.st.env[a]; ok && val.LV != nil && val.LV.Kind == "local" {
		w.wr.locals[val.LV.Id] = true
	}
}

func (w *wctx) contractWrites(c *Contract, cc *ssa.CallCommon, x ssa.CallInstruction) {
	v := w.v
	// evaluate modifies entries with the arguments that are loop invariant
	names := map[string]Val{}
	st := w.st
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
	}
	for i, p := range c.Params {
		if i >= len(args) {
			break
		}
		a := argOf(c, args[i])
		cl := w.class(a)
		t := tyOf(a.Type())
		if cl != "" && cl != "fresh" && (t.K == "ref" || t.K == "slice" || t.K == "map") {
			if t.K == "slice" {
				names[p] = mkv(t, mkslice(cl, "0", "0", "0"))
			} else {
				names[p] = mkv(t, cl)
			}
			continue
		}
		s := "unk!" + p
		if cl == "fresh" {
			s = "frs!" + p
		}
		if t.K == "slice" {
			names[p] = mkv(t, mkslice(s, "0", "0", "0"))
		} else {
			names[p] = mkv(t, s)
		}
		if t.K == "struct" {
			names[p] = v.havocVal(st.clone(), a.Type(), "u")
		}
	}
	ctx := v.ctx(st)
	ctx.names = names
	ctx.pkg = c.Pkg
	ctx.old = ctx
	ms, every := v.modTerms(ctx, c.Mod)
	if every {
		w.wr.every = true
	}
	for _, m := range ms {
		for _, k := range sortedKeys(m.comp) {
			cp := m.comp[k]
			if m.all || m.elem != "" || len(m.vars) > 0 {
				if strings.HasPrefix(m.elem, "frs!") {
					continue
				}
				w.wr.add(cp, "")
				continue
			}
			if strings.HasPrefix(m.ref, "frs!") {
				continue
			}
			if strings.Contains(m.ref, "unk!") || strings.Contains(m.ref, "frs!") || strings.Contains(m.ref, "(select ") {
				w.wr.add(cp, "")
				continue
			}
			w.wr.add(cp, m.ref)
		}
	}
	for _, a := range cc.Args {
		w.escape(a)
	}
}

func (v *Ver) havocLoopHeap(st *State, fr *frame, l *loopInfo, wr *writes) {
	var extra []modTerm
	hasFrame := l.spec != nil && l.spec.HasFrame
	if hasFrame {
		c := st.snaps["loop:"+l.key]
		cc := *c
		cc.names = cloneMap(c.names)
		ms, ev := v.modTerms(&cc, l.spec.Frame)
		if ev {
			hasFrame = false
		}
		extra = ms
	}
	lf := &loopFrame{extra: extra, heap: map[string]string{}}
	if sn := st.snaps["loop:"+l.key]; sn != nil {
		lf.now = sn.now
	}
	if st.frames == nil {
		st.frames = map[string]*loopFrame{}
	}
	delete(st.frames, l.key)
	if hasFrame {
		st.frames[l.key] = lf
	}
	if wr.every {
		delete(st.frames, l.key)
		for _, k := range sortedKeys(v.reg.comps) {
			v.havocComp(st, v.reg.comps[k])
		}
		return
	}
	for _, k := range sortedKeys(wr.full) {
		cp := wr.full[k]
		h := v.hp(st, cp)
		n := v.havocComp(st, cp)
		if cp.Kind == "global" {
			continue
		}
		b := v.bound("r")
		if hasFrame {
			st.assume("(forall ((" + b + " Ref)) (! " + imp("(< (birth "+b+") "+lf.now+")", or(inSet(extra, k, b), eq(sel(n, b), sel(h, b)))) + " :pattern (" + sel(n, b) + ")))")
			lf.heap[k] = h
			continue
		}
		if !v.modAll {
			st.assume("(forall ((" + b + " Ref)) (! " + imp("(< (birth "+b+") now!0)", or(inSet(v.mods, k, b), eq(sel(n, b), sel(v.heap0(cp), b)))) + " :pattern (" + sel(n, b) + ")))")
		}
	}
	for _, k := range sortedKeys(wr.exact) {
		if wr.full[k] != nil {
			continue
		}
		var ms []modTerm
		for _, r := range wr.refs[k] {
			ms = append(ms, oneComp(wr.exact[k][r], r))
		}
		v.applyMods(st, ms, false)
	}
}

func sortedValues[V any](m map[ssa.Value]V) []ssa.Value {
	var ks []ssa.Value
	for k := range m {
		ks = append(ks, k)
	}
	key := func(x ssa.Value) string {
		p := ""
		if x.Parent() != nil {
			p = x.Parent().String()
		}
		return fmt.Sprintf("%s %08d %s", p, x.Pos(), x.Name())
	}
	sort.Slice(ks, func(i, j int) bool { return key(ks[i]) < key(ks[j]) })
	return ks
}

func (l *loopInfo) sorted() []*ssa.BasicBlock {
	var bs []*ssa.BasicBlock
	for b := range l.blocks {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	return bs
}
