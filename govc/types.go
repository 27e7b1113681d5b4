package main

// SMT types, heap components and basic term construction.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type Ty struct {
	K    string // int bool ref slice seq iface map func array struct tuple opaque
	Go   types.Type
	Elem *Ty
	Key  *Ty
	N    int64
}

var tyInt = &Ty{K: "int"}
var tyBool = &Ty{K: "bool"}
var tyStr = &Ty{K: "seq", Elem: tyInt, Go: types.Typ[types.String]}
var tyIface = &Ty{K: "iface"}
var tyNil = &Ty{K: "nil"}

func mangle(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("p_")
		case r == '[':
			b.WriteString("L")
		case r == ']':
			b.WriteString("J")
		case r == '.', r == '/':
			b.WriteString("_")
		default:
			b.WriteString(fmt.Sprintf("_%x_", r))
		}
	}
	return b.String()
}

func shortQual(p *types.Package) string { return p.Name() }

func typeName(t types.Type) string {
	s := types.TypeString(t, shortQual)
	if len(s) > 60 {
		h := uint32(2166136261)
		for i := 0; i < len(s); i++ {
			h = (h ^ uint32(s[i])) * 16777619
		}
		s = fmt.Sprintf("anon%08x", h)
	}
	return mangle(s)
}

func tyOf(t types.Type) *Ty {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return &Ty{K: "int", Go: t}
		case u.Info()&types.IsBoolean != 0:
			return &Ty{K: "bool", Go: t}
		case u.Info()&types.IsString != 0:
			return &Ty{K: "seq", Elem: tyInt, Go: t}
		case u.Kind() == types.UntypedNil:
			return tyNil
		}
		return &Ty{K: "opaque", Go: t}
	case *types.Pointer:
		return &Ty{K: "ref", Go: t}
	case *types.Slice:
		return &Ty{K: "slice", Go: t, Elem: tyOf(u.Elem())}
	case *types.Interface:
		return &Ty{K: "iface", Go: t}
	case *types.Map:
		return &Ty{K: "map", Go: t, Key: tyOf(u.Key()), Elem: tyOfLazy(u.Elem())}
	case *types.Signature:
		return &Ty{K: "func", Go: t}
	case *types.Array:
		return &Ty{K: "array", Go: t, Elem: tyOf(u.Elem()), N: u.Len()}
	case *types.Struct:
		return &Ty{K: "struct", Go: t}
	case *types.Tuple:
		return &Ty{K: "tuple", Go: t}
	}
	return &Ty{K: "opaque", Go: t}
}

func tyOfLazy(t types.Type) *Ty { return tyOf(t) }

func (t *Ty) isString() bool {
	if t.K != "seq" || t.Go == nil {
		return false
	}
	b, ok := t.Go.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func sortOf(t *Ty) string {
	switch t.K {
	case "int":
		return "Int"
	case "bool":
		return "Bool"
	case "ref", "map", "nil":
		return "Ref"
	case "slice":
		return "Slice"
	case "seq":
		return seqSort(t.Elem)
	case "iface":
		return "Iface"
	case "func":
		return "Func"
	case "array":
		return "(Array Int " + sortOf(t.Elem) + ")"
	case "opaque":
		return "Opaque"
	case "struct":
		return "Ref" // struct values inside containers are represented by the ref of their storage
	}
	return "Opaque"
}

func seqSort(e *Ty) string { return "Seq_" + mangle(sortOf(e)) }

func intInfo(t types.Type) (bits int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int64, types.Int:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 0, true
}

func pow2s(n int) string {
	switch n {
	case 63:
		return "9223372036854775808"
	case 64:
		return "18446744073709551616"
	}
	return strconv.FormatUint(uint64(1)<<uint(n), 10)
}

// rangeFact returns a formula bounding a term of Go integer type (or "").
func rangeFact(s string, t *Ty) string {
	if t.K != "int" || t.Go == nil {
		return ""
	}
	bits, signed := intInfo(t.Go)
	switch {
	case bits == 0, bits == 64 && signed:
		return ""
	case signed:
		return fmt.Sprintf("(and (<= (- %s) %s) (< %s %s))", pow2s(bits-1), s, s, pow2s(bits-1))
	default:
		return fmt.Sprintf("(and (<= 0 %s) (< %s %s))", s, s, pow2s(bits))
	}
}

func isLit(s string) (int64, bool) {
	if strings.HasPrefix(s, "(- ") && strings.HasSuffix(s, ")") {
		v, err := strconv.ParseInt(s[3:len(s)-1], 10, 64)
		return -v, err == nil
	}
	v, err := strconv.ParseInt(s, 10, 64)
	return v, err == nil
}

func lit(v int64) string {
	if v < 0 {
		if v == -1<<63 {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -v)
	}
	return fmt.Sprint(v)
}

func wrapInt(s string, t types.Type) string {
	bits, signed := intInfo(t)
	if bits == 0 || bits == 64 && signed {
		return s
	}
	if v, ok := isLit(s); ok {
		if signed && v >= -(1<<uint(bits-1)) && v < 1<<uint(bits-1) {
			return s
		}
		if !signed && v >= 0 && (bits == 64 || v < 1<<uint(bits)) {
			return s
		}
	}
	if signed {
		return fmt.Sprintf("(wrapS%d %s)", bits, s)
	}
	return fmt.Sprintf("(wrapU%d %s)", bits, s)
}

func and(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "" || x == "true" {
			continue
		}
		if x == "false" {
			return "false"
		}
		ys = append(ys, x)
	}
	switch len(ys) {
	case 0:
		return "true"
	case 1:
		return ys[0]
	}
	return "(and " + strings.Join(ys, " ") + ")"
}
func or(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "" || x == "false" {
			continue
		}
		if x == "true" {
			return "true"
		}
		ys = append(ys, x)
	}
	switch len(ys) {
	case 0:
		return "false"
	case 1:
		return ys[0]
	}
	return "(or " + strings.Join(ys, " ") + ")"
}
func not(x string) string {
	switch x {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(x, "(not ") {
		return x[5 : len(x)-1]
	}
	return "(not " + x + ")"
}
func imp(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}
func eq(a, b string) string {
	if a == b {
		return "true"
	}
	return "(= " + a + " " + b + ")"
}
func ite(c, a, b string) string {
	if c == "true" || a == b {
		return a
	}
	if c == "false" {
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}
func add(a, b string) string {
	if a == "0" {
		return b
	}
	if b == "0" {
		return a
	}
	x, ok1 := isLit(a)
	y, ok2 := isLit(b)
	if ok1 && ok2 {
		return lit(x + y)
	}
	return "(+ " + a + " " + b + ")"
}
func sub(a, b string) string {
	if b == "0" {
		return a
	}
	x, ok1 := isLit(a)
	y, ok2 := isLit(b)
	if ok1 && ok2 {
		return lit(x - y)
	}
	return "(- " + a + " " + b + ")"
}
func sel(a, i string) string       { return "(select " + a + " " + i + ")" }
func sto(a, i, v string) string    { return "(store " + a + " " + i + " " + v + ")" }
func sbase(s string) string        { return sliceAcc("sbase", s, 0) }
func soff(s string) string         { return sliceAcc("soff", s, 1) }
func slen(s string) string         { return sliceAcc("slen", s, 2) }
func scap(s string) string         { return sliceAcc("scap", s, 3) }
func mkslice(b, o, l, c string) string { return "(mkslice " + b + " " + o + " " + l + " " + c + ")" }

func sliceAcc(acc, s string, n int) string {
	if strings.HasPrefix(s, "(mkslice ") {
		parts := splitSexp(s[9 : len(s)-1])
		if len(parts) == 4 {
			return parts[n]
		}
	}
	return "(" + acc + " " + s + ")"
}

// splitSexp splits a space separated list of s-expressions.
func splitSexp(s string) []string {
	var out []string
	depth, start := 0, -1
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			if depth == 0 && start < 0 {
				start = i
			}
			depth++
		case ')':
			depth--
			if depth == 0 {
				out = append(out, s[start:i+1])
				start = -1
			}
		case ' ', '\n':
			if depth == 0 && start >= 0 {
				out = append(out, s[start:i])
				start = -1
			}
		default:
			if depth == 0 && start < 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

// ---------------------------------------------------------------- heap components

type Comp struct {
	Name string
	Sort string
	Val  *Ty    // type of the value stored
	Kind string // field elem cell mapdom mapval global ghost now
	Go   types.Type
}

type Registry struct {
	comps map[string]*Comp
	subs  map[string]bool // sub-object functions declared
	lits  map[string]string
	litN  []string
	tags  map[string]int
	boxes map[string]string // sort -> name
}

func newRegistry() *Registry {
	return &Registry{comps: map[string]*Comp{}, subs: map[string]bool{}, lits: map[string]string{}, tags: map[string]int{}, boxes: map[string]string{}}
}

func (r *Registry) comp(name, sort, kind string, val *Ty, g types.Type) *Comp {
	c := r.comps[name]
	if c == nil {
		c = &Comp{name, sort, val, kind, g}
		r.comps[name] = c
	}
	return c
}

func structTypeName(t types.Type) string { return typeName(t) }

func (r *Registry) fieldComp(st types.Type, i int) *Comp {
	f := st.Underlying().(*types.Struct).Field(i)
	ft := tyOf(f.Type())
	return r.comp("H_"+structTypeName(st)+"_"+f.Name(), "(Array Ref "+sortOf(ft)+")", "field", ft, nil)
}

func (r *Registry) elemComp(et types.Type) *Comp {
	t := tyOf(et)
	return r.comp("M_"+typeName(et), "(Array Ref (Array Int "+sortOf(t)+"))", "elem", t, et)
}

func (r *Registry) cellComp(et types.Type) *Comp {
	t := tyOf(et)
	return r.comp("C_"+typeName(et), "(Array Ref "+sortOf(t)+")", "cell", t, et)
}

func (r *Registry) mapComps(mt types.Type) (*Comp, *Comp) {
	m := mt.Underlying().(*types.Map)
	k, v := tyOf(m.Key()), tyOf(m.Elem())
	n := typeName(m.Key()) + "__" + typeName(m.Elem())
	d := r.comp("MD_"+n, "(Array Ref (Array "+sortOf(k)+" Bool))", "mapdom", k, mt)
	w := r.comp("MV_"+n, "(Array Ref (Array "+sortOf(k)+" "+sortOf(v)+"))", "mapval", v, mt)
	return d, w
}

func (r *Registry) globalComp(pkg, name string, t types.Type) *Comp {
	ty := tyOf(t)
	return r.comp("G_"+mangle(pkg)+"_"+name, sortOf(ty), "global", ty, t)
}

func (r *Registry) subFn(st types.Type, i int) string {
	f := st.Underlying().(*types.Struct).Field(i)
	n := "sub_" + structTypeName(st) + "_" + f.Name()
	r.subs[n] = true
	return n
}

func (r *Registry) strLit(s string) string {
	if n, ok := r.lits[s]; ok {
		return n
	}
	n := fmt.Sprintf("str_%d", len(r.litN))
	if s == "" {
		n = "Seq_Int_empty"
	} else {
		r.litN = append(r.litN, s)
	}
	r.lits[s] = n
	return n
}

func (r *Registry) tag(t types.Type) int {
	n := types.TypeString(t, nil)
	if v, ok := r.tags[n]; ok {
		return v
	}
	r.tags[n] = len(r.tags) + 1
	return r.tags[n]
}

// ---------------------------------------------------------------- prelude

const preludeBase = `(set-logic ALL)
(declare-sort Ref 0)
(declare-sort Func 0)
(declare-sort Opaque 0)
(declare-datatypes ((Slice 0)) (((mkslice (sbase Ref) (soff Int) (slen Int) (scap Int)))))
(declare-datatypes ((Iface 0)) (((mkiface (itag Int) (ival Ref)))))
(declare-const nilref Ref)
(declare-const nilfunc Func)
(define-fun nilslice () Slice (mkslice nilref 0 0 0))
(declare-fun birth (Ref) Int)
(assert (= (birth nilref) (- 1)))
(declare-fun elemref (Ref Int) Ref)
(declare-fun eparent (Ref) Ref)
(declare-fun eidx (Ref) Int)
(declare-fun rkind (Ref) Int)
(assert (= (rkind nilref) (- 1)))
(declare-const opaque0 Opaque)
(assert (forall ((b Ref) (i Int)) (! (and (= (eparent (elemref b i)) b) (= (eidx (elemref b i)) i) (= (rkind (elemref b i)) 1) (= (birth (elemref b i)) (birth b)) (not (= (elemref b i) nilref))) :pattern ((elemref b i)))))
(define-fun wrapU8 ((x Int)) Int (mod x 256))
(define-fun wrapU16 ((x Int)) Int (mod x 65536))
(define-fun wrapU32 ((x Int)) Int (mod x 4294967296))
(define-fun wrapU64 ((x Int)) Int (mod x 18446744073709551616))
(define-fun wrapS8 ((x Int)) Int (- (mod (+ x 128) 256) 128))
(define-fun wrapS16 ((x Int)) Int (- (mod (+ x 32768) 65536) 32768))
(define-fun wrapS32 ((x Int)) Int (- (mod (+ x 2147483648) 4294967296) 2147483648))
(define-fun wrapS64 ((x Int)) Int (- (mod (+ x 9223372036854775808) 18446744073709551616) 9223372036854775808))
(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (ite (> b 0) (div a b) (- (div a (- b)))) (ite (> b 0) (- (div (- a) b)) (div (- a) (- b)))))
(define-fun tmod ((a Int) (b Int)) Int (- a (* b (tdiv a b))))
(define-fun imin ((a Int) (b Int)) Int (ite (<= a b) a b))
(define-fun imax ((a Int) (b Int)) Int (ite (>= a b) a b))
(define-fun pow2 ((n Int)) Int (ite (= n 0) 1 (ite (= n 1) 2 (ite (= n 2) 4 (ite (= n 3) 8 (ite (= n 4) 16 (ite (= n 5) 32 (ite (= n 6) 64 (ite (= n 7) 128 (ite (= n 8) 256 (ite (= n 9) 512 (ite (= n 10) 1024 (ite (= n 11) 2048 (ite (= n 12) 4096 (ite (= n 13) 8192 (ite (= n 14) 16384 (ite (= n 15) 32768 (ite (= n 16) 65536 (ite (= n 17) 131072 (ite (= n 18) 262144 (ite (= n 19) 524288 (ite (= n 20) 1048576 (ite (= n 21) 2097152 (ite (= n 22) 4194304 (ite (= n 23) 8388608 (ite (= n 24) 16777216 (ite (= n 25) 33554432 (ite (= n 26) 67108864 (ite (= n 27) 134217728 (ite (= n 28) 268435456 (ite (= n 29) 536870912 (ite (= n 30) 1073741824 (ite (= n 31) 2147483648 (ite (= n 32) 4294967296 (ite (= n 33) 8589934592 (ite (= n 34) 17179869184 (ite (= n 35) 34359738368 (ite (= n 36) 68719476736 (ite (= n 37) 137438953472 (ite (= n 38) 274877906944 (ite (= n 39) 549755813888 (ite (= n 40) 1099511627776 (ite (= n 41) 2199023255552 (ite (= n 42) 4398046511104 (ite (= n 43) 8796093022208 (ite (= n 44) 17592186044416 (ite (= n 45) 35184372088832 (ite (= n 46) 70368744177664 (ite (= n 47) 140737488355328 (ite (= n 48) 281474976710656 (ite (= n 49) 562949953421312 (ite (= n 50) 1125899906842624 (ite (= n 51) 2251799813685248 (ite (= n 52) 4503599627370496 (ite (= n 53) 9007199254740992 (ite (= n 54) 18014398509481984 (ite (= n 55) 36028797018963968 (ite (= n 56) 72057594037927936 (ite (= n 57) 144115188075855872 (ite (= n 58) 288230376151711744 (ite (= n 59) 576460752303423488 (ite (= n 60) 1152921504606846976 (ite (= n 61) 2305843009213693952 (ite (= n 62) 4611686018427387904 (ite (= n 63) 9223372036854775808 18446744073709551616)))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))
(declare-fun band (Int Int) Int)
(declare-fun bor (Int Int) Int)
(declare-fun bxor (Int Int) Int)
(declare-fun bandnot (Int Int) Int)
(declare-fun bnot32 (Int) Int)
(declare-fun strless (Seq_Int Seq_Int) Bool)
`

// axioms for general bit operations: two's complement semantics on integers.
// Each is proved over 64-bit vectors by bitSelfCheck, as obligations of every run that uses them.
const preludeBits = `
(assert (forall ((a Int) (b Int)) (! (=> (and (>= a 0) (>= b 0)) (and (>= (band a b) 0) (<= (band a b) a) (<= (band a b) b))) :pattern ((band a b)))))
(assert (forall ((a Int) (b Int)) (! (= (band a b) (band b a)) :pattern ((band a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (and (>= (bor a b) a) (>= (bor a b) b) (<= (bor a b) (+ a b)))) :pattern ((bor a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a 4294967295) (<= 0 b 4294967295)) (<= 0 (bor a b) 4294967295)) :pattern ((bor a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a 4294967295) (<= 0 b 4294967295)) (<= 0 (bxor a b) 4294967295)) :pattern ((bxor a b)))))
(assert (forall ((a Int) (b Int)) (! (= (bxor a b) (bxor b a)) :pattern ((bxor a b)))))
(assert (forall ((a Int) (b Int)) (! (= (bor a b) (bor b a)) :pattern ((bor a b)))))
(assert (forall ((a Int) (b Int) (c Int)) (! (= (bxor (bxor a b) c) (bxor a (bxor b c))) :pattern ((bxor (bxor a b) c)))))
(assert (forall ((a Int) (b Int) (c Int)) (! (= (bxor (bxor a b) c) (bxor a (bxor b c))) :pattern ((bxor a (bxor b c))))))
(assert (forall ((a Int)) (! (and (= (bxor a 0) a) (= (bxor a a) 0)) :pattern ((bxor a a)))))
(assert (forall ((a Int)) (! (= (bxor a 0) a) :pattern ((bxor a 0)))))
(assert (forall ((a Int)) (! (= (bxor 0 a) a) :pattern ((bxor 0 a)))))
(assert (forall ((a Int)) (! (= (bor a 0) a) :pattern ((bor a 0)))))
(assert (forall ((a Int)) (! (= (bor 0 a) a) :pattern ((bor 0 a)))))
(assert (forall ((a Int)) (! (= (band a 0) 0) :pattern ((band a 0)))))
(assert (forall ((a Int)) (! (= (band a a) a) :pattern ((band a a)))))
`

func seqModule(s, e string) string {
	t := `(declare-fun $_len ($) Int)
(declare-fun $_at ($ Int) @)
(declare-const $_empty $)
(declare-fun $_unit (@) $)
(declare-fun $_concat ($ $) $)
(declare-fun $_sub ($ Int Int) $)
(declare-fun $_of ((Array Int @) Int Int) $)
(declare-fun $_upd ($ Int @) $)
(declare-fun $_eq ($ $) Bool)
(assert (forall ((s $)) (! (>= ($_len s) 0) :pattern (($_len s)))))
(assert (= ($_len $_empty) 0))
(assert (forall ((s $)) (! (=> (= ($_len s) 0) (= s $_empty)) :pattern (($_len s)))))
(assert (forall ((x @)) (! (and (= ($_len ($_unit x)) 1) (= ($_at ($_unit x) 0) x)) :pattern (($_unit x)))))
(assert (forall ((a $) (b $)) (! (= ($_len ($_concat a b)) (+ ($_len a) ($_len b))) :pattern (($_concat a b)))))
(assert (forall ((a $) (b $) (i Int)) (! (and (=> (and (<= 0 i) (< i ($_len a))) (= ($_at ($_concat a b) i) ($_at a i))) (=> (and (<= ($_len a) i) (< i (+ ($_len a) ($_len b)))) (= ($_at ($_concat a b) i) ($_at b (- i ($_len a)))))) :pattern (($_at ($_concat a b) i)))))
(assert (forall ((a $)) (! (= ($_concat a $_empty) a) :pattern (($_concat a $_empty)))))
(assert (forall ((a $)) (! (= ($_concat $_empty a) a) :pattern (($_concat $_empty a)))))
(assert (forall ((s $) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j ($_len s))) (= ($_len ($_sub s i j)) (- j i))) :pattern (($_sub s i j)))))
(assert (forall ((s $) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j ($_len s)) (<= 0 k) (< k (- j i))) (= ($_at ($_sub s i j) k) ($_at s (+ i k)))) :pattern (($_at ($_sub s i j) k)))))
(assert (forall ((s $) (j Int)) (! (=> (= j ($_len s)) (= ($_sub s 0 j) s)) :pattern (($_sub s 0 j)))))
(assert (forall ((m (Array Int @)) (o Int) (n Int)) (! (=> (<= 0 n) (= ($_len ($_of m o n)) n)) :pattern (($_of m o n)))))
(assert (forall ((m (Array Int @)) (o Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n)) (= ($_at ($_of m o n) k) (select m (+ o k)))) :pattern (($_at ($_of m o n) k)))))
(assert (forall ((s $) (i Int) (x @)) (! (= ($_len ($_upd s i x)) ($_len s)) :pattern (($_upd s i x)))))
(assert (forall ((s $) (i Int) (x @) (k Int)) (! (=> (and (<= 0 k) (< k ($_len s))) (= ($_at ($_upd s i x) k) (ite (= k i) x ($_at s k)))) :pattern (($_at ($_upd s i x) k)))))
(declare-fun $_diff ($ $) Int)
(assert (forall ((a $) (b $)) (! (ite ($_eq a b) (= a b) (or (not (= ($_len a) ($_len b))) (and (<= 0 ($_diff a b)) (< ($_diff a b) ($_len a)) (not (= ($_at a ($_diff a b)) ($_at b ($_diff a b))))))) :pattern (($_eq a b)))))
`
	t = strings.ReplaceAll(t, "$", s)
	return strings.ReplaceAll(t, "@", e)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
