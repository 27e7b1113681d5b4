package main

// Lemmas marked bv are decided over bit vectors: every parameter is an unsigned machine word (bool, byte, uint16, uint32),
// an expression is translated to 128-bit two's complement arithmetic, and an interval for each subterm shows that no
// operation overflows that width, so that the result is the mathematical integer the other obligations mean.

import (
	"fmt"
	"math/big"
	"strings"
)

const bvWidth = 128

type bvT struct {
	s      string
	lo, hi *big.Int // nil for formulas
}

func bvLit(n *big.Int) bvT {
	m := new(big.Int).Set(n)
	if m.Sign() < 0 {
		m.Add(m, new(big.Int).Lsh(big.NewInt(1), bvWidth))
	}
	return bvT{fmt.Sprintf("(_ bv%s %d)", m.String(), bvWidth), n, n}
}

type bvEnv struct {
	w     *World
	pkg   string
	names map[string]bvT
	depth int
}

func bvHull(xs ...*big.Int) (*big.Int, *big.Int) {
	lo, hi := xs[0], xs[0]
	for _, x := range xs {
		if x.Cmp(lo) < 0 {
			lo = x
		}
		if x.Cmp(hi) > 0 {
			hi = x
		}
	}
	return lo, hi
}

func (e *bvEnv) out(s string, xs ...*big.Int) bvT {
	lo, hi := bvHull(xs...)
	if lo.BitLen() > bvWidth-2 || hi.BitLen() > bvWidth-2 {
		panic(unsupported("bv lemma: value out of width"))
	}
	return bvT{"(" + s + ")", lo, hi}
}

// ones is the smallest 2^k-1 that is at least x.
func bvOnes(x *big.Int) *big.Int {
	r := new(big.Int).Lsh(big.NewInt(1), uint(x.BitLen()))
	return r.Sub(r, big.NewInt(1))
}

func (e *bvEnv) ev(x *Expr) bvT {
	z := big.NewInt(0)
	f := func(s string) bvT { return bvT{s: s} }
	switch x.Op {
	case "int":
		n, ok := new(big.Int).SetString(x.S, 0)
		if !ok {
			panic(unsupported("bv lemma: number " + x.S))
		}
		return bvLit(n)
	case "bool":
		return f(x.S)
	case "id":
		if v, ok := e.names[x.S]; ok {
			return v
		}
	case "let":
		v := e.ev(x.A[0])
		old, had := e.names[x.S]
		e.names[x.S] = v
		r := e.ev(x.A[1])
		delete(e.names, x.S)
		if had {
			e.names[x.S] = old
		}
		return r
	case "ite":
		c, a, b := e.ev(x.A[0]), e.ev(x.A[1]), e.ev(x.A[2])
		s := "(ite " + c.s + " " + a.s + " " + b.s + ")"
		if a.lo == nil {
			return f(s)
		}
		lo, hi := bvHull(a.lo, a.hi, b.lo, b.hi)
		return bvT{s, lo, hi}
	case "unary":
		a := e.ev(x.A[0])
		if x.S == "!" {
			return f("(not " + a.s + ")")
		}
		if x.S == "-" {
			return e.out("bvneg "+a.s, new(big.Int).Neg(a.lo), new(big.Int).Neg(a.hi))
		}
	case "binary":
		a, b := e.ev(x.A[0]), e.ev(x.A[1])
		switch x.S {
		case "&&":
			return f("(and " + a.s + " " + b.s + ")")
		case "||":
			return f("(or " + a.s + " " + b.s + ")")
		case "==>":
			return f("(=> " + a.s + " " + b.s + ")")
		case "<==>", "==":
			return f("(= " + a.s + " " + b.s + ")")
		case "!=":
			return f("(not (= " + a.s + " " + b.s + "))")
		case "<":
			return f("(bvslt " + a.s + " " + b.s + ")")
		case "<=":
			return f("(bvsle " + a.s + " " + b.s + ")")
		case ">":
			return f("(bvsgt " + a.s + " " + b.s + ")")
		case ">=":
			return f("(bvsge " + a.s + " " + b.s + ")")
		case "+":
			return e.out("bvadd "+a.s+" "+b.s, new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi))
		case "-":
			return e.out("bvsub "+a.s+" "+b.s, new(big.Int).Sub(a.lo, b.hi), new(big.Int).Sub(a.hi, b.lo))
		case "*":
			m := func(p, q *big.Int) *big.Int { return new(big.Int).Mul(p, q) }
			return e.out("bvmul "+a.s+" "+b.s, m(a.lo, b.lo), m(a.lo, b.hi), m(a.hi, b.lo), m(a.hi, b.hi))
		case "/", "%":
			if a.lo.Sign() < 0 || b.lo.Sign() <= 0 {
				panic(unsupported("bv lemma: division of a negative"))
			}
			if x.S == "/" {
				return e.out("bvudiv "+a.s+" "+b.s, z, a.hi)
			}
			return e.out("bvurem "+a.s+" "+b.s, z, new(big.Int).Sub(b.hi, big.NewInt(1)))
		}
	case "call":
		var as []bvT
		for _, y := range x.A {
			as = append(as, e.ev(y))
		}
		nonneg := func(k int) bool {
			for i := 0; i < k; i++ {
				if as[i].lo == nil || as[i].lo.Sign() < 0 {
					return false
				}
			}
			return true
		}
		switch x.S {
		case "band", "bor", "bxor", "bandnot":
			a, b := as[0], as[1]
			if !nonneg(2) {
				// two's complement of unlimited width: the result needs no more bits than the operands
				if a.lo == nil || b.lo == nil || x.S == "bandnot" {
					panic(unsupported("bv lemma: " + x.S + " of a negative"))
				}
				one := big.NewInt(1)
				m := bvOnes(a.hi)
				for _, y := range []*big.Int{b.hi, new(big.Int).Neg(a.lo), new(big.Int).Neg(b.lo)} {
					if o := bvOnes(y); y.Sign() > 0 && o.Cmp(m) > 0 {
						m = o
					}
				}
				return e.out(map[string]string{"band": "bvand", "bor": "bvor", "bxor": "bvxor"}[x.S]+" "+a.s+" "+b.s, m, new(big.Int).Sub(new(big.Int).Neg(m), one))
			}
			switch x.S {
			case "band":
				m := a.hi
				if b.hi.Cmp(m) < 0 {
					m = b.hi
				}
				return e.out("bvand "+a.s+" "+b.s, z, m)
			case "bandnot":
				return e.out("bvand "+a.s+" (bvnot "+b.s+")", z, a.hi)
			case "bor":
				return e.out("bvor "+a.s+" "+b.s, z, bvOnes(a.hi), bvOnes(b.hi))
			}
			return e.out("bvxor "+a.s+" "+b.s, z, bvOnes(a.hi), bvOnes(b.hi))
		case "shl", "shr":
			if !nonneg(2) || as[1].hi.Cmp(big.NewInt(63)) > 0 {
				panic(unsupported("bv lemma: shift"))
			}
			if x.S == "shl" {
				return e.out("bvshl "+as[0].s+" "+as[1].s, z, new(big.Int).Lsh(as[0].hi, uint(as[1].hi.Int64())))
			}
			return e.out("bvlshr "+as[0].s+" "+as[1].s, z, new(big.Int).Rsh(as[0].hi, uint(as[1].lo.Int64())))
		case "int32", "int16":
			k := map[string]uint{"int32": 32, "int16": 16}[x.S]
			h := new(big.Int).Lsh(big.NewInt(1), k-1)
			return e.out(fmt.Sprintf("(_ sign_extend %d) ((_ extract %d 0) %s)", bvWidth-k, k-1, as[0].s), new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1)))
		case "uint32", "uint16", "uint8", "byte":
			k := map[string]uint{"uint32": 32, "uint16": 16, "uint8": 8, "byte": 8}[x.S]
			m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(1))
			return e.out("bvand "+as[0].s+" "+bvLit(m).s, z, m)
		}
		if fn := e.w.fns[x.S]; fn != nil && fn.Body != nil && len(fn.Params) == len(as) && e.depth < 20 {
			in := &bvEnv{w: e.w, pkg: fn.Pkg, names: map[string]bvT{}, depth: e.depth + 1}
			for i, p := range fn.Params {
				in.names[p.Name] = as[i]
			}
			return in.ev(fn.Body)
		}
	}
	panic(unsupported("bv lemma: " + x.Op + " " + x.S))
}

var bvParam = map[string]uint{"byte": 8, "uint8": 8, "uint16": 16, "uint32": 32}
var bvSigned = map[string]uint{"int16": 16, "int32": 32}

// bvRanges gives a bv lemma the range of each parameter as a precondition for its users.
func bvRanges(l *Lemma) {
	id := func(s string) *Expr { return &Expr{Op: "id", S: s, File: l.File, Line: l.Line} }
	num := func(n string) *Expr { return &Expr{Op: "int", S: n, File: l.File, Line: l.Line} }
	bin := func(op string, a, b *Expr) *Expr {
		return &Expr{Op: "binary", S: op, A: []*Expr{a, b}, File: l.File, Line: l.Line}
	}
	for _, p := range l.Params {
		if k := bvParam[p.T.Name]; k > 0 {
			m := new(big.Int).Lsh(big.NewInt(1), k)
			l.Req = append(l.Req, Clause{"range " + p.Name, bin("&&", bin("<=", num("0"), id(p.Name)), bin("<", id(p.Name), num(m.String()))), l.Line, nil})
		} else if k := bvSigned[p.T.Name]; k > 0 {
			m := new(big.Int).Lsh(big.NewInt(1), k-1)
			lo := &Expr{Op: "unary", S: "-", A: []*Expr{num(m.String())}, File: l.File, Line: l.Line}
			l.Req = append(l.Req, Clause{"range " + p.Name, bin("&&", bin("<=", lo, id(p.Name)), bin("<", id(p.Name), num(m.String()))), l.Line, nil})
		} else if p.T.K != "bool" && p.T.Name != "bool" {
			panic(fmt.Sprintf("%s:%d: bv lemma %s: parameter %s is no machine word", l.File, l.Line, l.Name, p.Name))
		}
	}
}

// bvQuery is the whole query for one conclusion of a bv lemma.
func (w *World) bvQuery(l *Lemma, goal *Expr) string {
	e := &bvEnv{w: w, pkg: l.Pkg, names: map[string]bvT{}}
	var b strings.Builder
	b.WriteString("(set-logic QF_BV)\n")
	for _, p := range l.Params {
		k := bvParam[p.T.Name]
		if n := bvSigned[p.T.Name]; n > 0 {
			fmt.Fprintf(&b, "(declare-const %s (_ BitVec %d))\n", "v_"+p.Name, n)
			h := new(big.Int).Lsh(big.NewInt(1), n-1)
			e.names[p.Name] = bvT{fmt.Sprintf("((_ sign_extend %d) v_%s)", bvWidth-int(n), p.Name), new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))}
			continue
		}
		if k == 0 {
			fmt.Fprintf(&b, "(declare-const %s Bool)\n", "v_"+p.Name)
			e.names[p.Name] = bvT{s: "v_" + p.Name}
			continue
		}
		fmt.Fprintf(&b, "(declare-const %s (_ BitVec %d))\n", "v_"+p.Name, k)
		hi := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(1))
		for _, r := range l.Req {
			if r.E.Op == "binary" && r.E.S == "<" && r.E.A[0].Op == "id" && r.E.A[0].S == p.Name && r.E.A[1].Op == "int" {
				if n, ok := new(big.Int).SetString(r.E.A[1].S, 0); ok && n.Sub(n, big.NewInt(1)).Cmp(hi) < 0 {
					hi = n
				}
			}
		}
		e.names[p.Name] = bvT{fmt.Sprintf("((_ zero_extend %d) v_%s)", bvWidth-int(k), p.Name), big.NewInt(0), hi}
	}
	for _, r := range l.Req {
		fmt.Fprintf(&b, "(assert %s)\n", e.ev(r.E).s)
	}
	fmt.Fprintf(&b, "(assert (not %s))\n(check-sat)\n", e.ev(goal).s)
	return b.String()
}

// bitSelfCheck proves the axioms of preludeBits over 64-bit two's complement words (held in 66 bits, so that sums do not overflow).
func bitSelfCheck() []string {
	const W = 66
	var out []string
	zero := fmt.Sprintf("(_ bv0 %d)", W)
	for _, ln := range strings.Split(strings.TrimSpace(preludeBits), "\n") {
		t := ln
		t = strings.TrimSuffix(strings.TrimPrefix(t, "(assert "), ")")
		// (forall ((a Int)...) (! BODY :pattern (...)))
		i := strings.Index(t, "(! ")
		j := strings.LastIndex(t, " :pattern")
		body := t[i+3 : j]
		toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(body))
		m := map[string]string{"band": "bvand", "bor": "bvor", "bxor": "bvxor", "<=": "bvsle", ">=": "bvsge", "+": "bvadd", "0": zero, "4294967295": fmt.Sprintf("(_ bv4294967295 %d)", W)}
		var sb strings.Builder
		for k := 0; k < len(toks); k++ {
			// chained (<= x y z)
			if toks[k] == "<=" {
				// collect three operands if chained
				depth, n, p := 0, 0, k+1
				starts := []int{}
				for p < len(toks) {
					if depth == 0 && toks[p] == ")" {
						break
					}
					if depth == 0 {
						n++
						starts = append(starts, p)
					}
					if toks[p] == "(" {
						depth++
					}
					if toks[p] == ")" {
						depth--
					}
					p++
				}
				_ = n
				if len(starts) > 2 && toks[starts[1]] != ")" {
					seg := func(a, b int) string { return strings.Join(toks[a:b], " ") }
					var ops []string
					depth = 0
					cur := k + 1
					for q := k + 1; q < p; q++ {
						if toks[q] == "(" {
							depth++
						}
						if toks[q] == ")" {
							depth--
						}
						if depth == 0 {
							ops = append(ops, seg(cur, q+1))
							cur = q + 1
						}
					}
					if len(ops) == 3 {
						// (<= a b c) -> (and (<= a b) (<= b c))
						nt := strings.Fields("and ( <= " + ops[0] + " " + ops[1] + " ) ( <= " + ops[1] + " " + ops[2] + " )")
						toks = append(append(append([]string{}, toks[:k]...), nt...), toks[p:]...)
						k--
						continue
					}
				}
			}
			if r, ok := m[toks[k]]; ok {
				sb.WriteString(r + " ")
			} else {
				sb.WriteString(toks[k] + " ")
			}
		}
		var q strings.Builder
		q.WriteString("(set-logic QF_BV)\n")
		for _, v := range []string{"a", "b", "c"} {
			fmt.Fprintf(&q, "(declare-const %s0 (_ BitVec 64))\n(define-fun %s () (_ BitVec %d) ((_ sign_extend %d) %s0))\n", v, v, W, W-64, v)
		}
		fmt.Fprintf(&q, "(assert (not %s))\n(check-sat)\n", sb.String())
		out = append(out, q.String())
	}
	return out
}
