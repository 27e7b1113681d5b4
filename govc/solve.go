package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var cacheDir string
var jobs = 8
var baseTimeout = 8
var keepDir string
var queryNo int64
var bitsUsed bool // a query of this run relies on the bit axioms

func tokens(s string, f func(string)) {
	i := 0
	n := len(s)
	for i < n {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' {
			j := i + 1
			for j < n {
				c := s[j]
				if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '?' {
					j++
				} else {
					break
				}
			}
			f(s[i:j])
			i = j
			continue
		}
		i++
	}
}

var seqSuffix = []string{"_len", "_at", "_empty", "_unit", "_concat", "_sub", "_of", "_upd", "_eq"}

func seqSortOfToken(t string) string {
	for _, s := range seqSuffix {
		if strings.HasSuffix(t, s) {
			return strings.TrimSuffix(t, s)
		}
	}
	return t
}

func seqElemSort(s string) string {
	e := strings.TrimPrefix(s, "Seq_")
	return e
}

const utf8Prelude = `(declare-fun runesOf (Seq_Int) Seq_Int)
(declare-fun strOfRunes (Seq_Int) Seq_Int)
(declare-fun strOfRune (Int) Seq_Int)
(declare-fun runeAt (Seq_Int Int) Int)
(declare-fun runeLenAt (Seq_Int Int) Int)
(assert (forall ((s Seq_Int) (i Int)) (! (=> (and (<= 0 i) (< i (Seq_Int_len s))) (and (<= 1 (runeLenAt s i)) (<= (runeLenAt s i) 4) (<= (+ i (runeLenAt s i)) (Seq_Int_len s)) (<= 0 (runeAt s i) 1114111))) :pattern ((runeLenAt s i)))))
(assert (forall ((s Seq_Int) (i Int)) (! (=> (and (<= 0 i) (< i (Seq_Int_len s))) (<= 0 (runeAt s i) 1114111)) :pattern ((runeAt s i)))))
(assert (forall ((s Seq_Int) (i Int)) (! (=> (and (<= 0 i) (< i (Seq_Int_len s)) (< (Seq_Int_at s i) 128) (<= 0 (Seq_Int_at s i))) (and (= (runeAt s i) (Seq_Int_at s i)) (= (runeLenAt s i) 1))) :pattern ((runeAt s i)))))
(assert (forall ((a Seq_Int) (b Seq_Int)) (! (=> (Seq_Int_eq a b) (= (strOfRunes a) (strOfRunes b))) :pattern ((strOfRunes a) (strOfRunes b)))))
(assert (forall ((r Int)) (! (and (<= 1 (Seq_Int_len (strOfRune r))) (<= (Seq_Int_len (strOfRune r)) 4)) :pattern ((strOfRune r)))))
(assert (forall ((r Int)) (! (=> (and (<= 0 r) (< r 128)) (= (strOfRune r) (Seq_Int_unit r))) :pattern ((strOfRune r)))))
(assert (forall ((s Seq_Int)) (! (<= (Seq_Int_len (runesOf s)) (Seq_Int_len s)) :pattern ((runesOf s)))))
`

// autoText returns the quantified formula of an auto lemma or axiom and the symbols that trigger its inclusion.
func (v *Ver) autoText(l *Lemma) (string, []string) {
	c := &Ctx{w: v.w, v: v, pkg: l.Pkg, names: map[string]Val{}, now: "now!0", fuel: v.fuel}
	c.heap = func(cp *Comp) string { panic(unsupported("auto lemma " + l.Name + " depends on the heap")) }
	nb := map[string]Val{}
	var decls, guards []string
	for _, p := range l.Params {
		t := v.w.resolveType(p.T, l.Pkg)
		n := v.bound(p.Name)
		nb[p.Name] = mkv(t, n)
		decls = append(decls, "("+n+" "+sortOf(t)+")")
		if f := rangeFact(n, t); f != "" {
			guards = append(guards, f)
		}
	}
	c.bound = nb
	for _, r := range l.Req {
		guards = append(guards, c.formula(r.E))
	}
	var ens []string
	for _, e := range l.Ens {
		ens = append(ens, c.formula(e.E))
	}
	body := imp(and(guards...), and(ens...))
	pats := ""
	var syms []string
	for _, tr := range l.Trig {
		var ts []string
		for _, t := range tr {
			s := c.ev(t).S
			ts = append(ts, s)
			tokens(s, func(tk string) {
				if strings.HasPrefix(tk, "rf_") || strings.HasPrefix(tk, "sf_") || strings.HasPrefix(tk, "Seq_") {
					syms = append(syms, tk)
				}
				switch tk {
				case "runesOf", "strOfRunes", "strOfRune", "runeAt", "runeLenAt", "strless", "band", "bor", "bxor":
					syms = append(syms, tk)
				}
			})
		}
		pats += " :pattern (" + strings.Join(ts, " ") + ")"
	}
	if len(decls) == 0 {
		return body, syms
	}
	if pats != "" {
		body = "(! " + body + pats + ")"
	}
	return "(forall (" + strings.Join(decls, " ") + ") " + body + ")", syms
}

// hidden: the definition of a recursive spec function is not needed in this unit.
func (v *Ver) hidden(n string) bool {
	return v.c != nil && v.c.Hide[n] || v.lemma != nil && v.lemma.Hide[n]
}

type autoEntry struct {
	l    *Lemma
	text string
	syms []string
}

func (v *Ver) autos() []autoEntry {
	var out []autoEntry
	for _, l := range v.w.lemmaList {
		if !l.Auto {
			continue
		}
		if v.lemma != nil && v.w.declPos["lemma "+l.Name] >= v.w.declPos["lemma "+v.lemma.Name] {
			continue
		}
		t, s := v.autoText(l)
		out = append(out, autoEntry{l, t, s})
	}
	return out
}

func (v *Ver) query(o *Obl, autos []autoEntry) string {
	var facts []string
	for f := o.Facts; f != nil; f = f.parent {
		facts = append(facts, f.s)
	}
	used := map[string]bool{}
	var order []string
	var work []string
	add := func(s string) {
		tokens(s, func(t string) {
			if !used[t] {
				used[t] = true
				order = append(order, t)
				work = append(work, t)
			}
		})
	}
	for _, f := range facts {
		add(f)
	}
	add(o.Goal)
	add("now!0")
	autoIn := map[string]bool{}
	var autoTxt []string
	closure := func() {
		for len(work) > 0 {
			t := work[len(work)-1]
			work = work[:len(work)-1]
			if _, ok := v.declSort[t]; ok {
				add(v.declSort[t])
				for _, a := range v.declAx[t] {
					add(a)
				}
				continue
			}
			if strings.HasPrefix(t, "rf_") {
				n := t[3:strings.LastIndex(t, "__")]
				if r := v.recs[n]; r != nil {
					if !v.hidden(n) {
						add(r.body)
					}
					for _, p := range r.pars {
						add(p)
					}
					add(r.ret)
				}
			}
			if strings.HasPrefix(t, "sf_") {
				f := v.w.fns[t[3:]]
				if f != nil {
					for _, p := range f.Params {
						add(sortOf(v.w.resolveType(p.T, f.Pkg)))
					}
					add(sortOf(v.w.resolveType(f.Ret, f.Pkg)))
				}
			}
			if strings.HasPrefix(t, "Seq_") {
				add(seqElemSort(seqSortOfToken(t)))
			}
			if t == "strless" || strings.HasPrefix(t, "rune") || strings.HasPrefix(t, "strOf") || strings.HasPrefix(t, "str_") {
				add("Seq_Int")
			}
			if strings.HasPrefix(t, "box_") || strings.HasPrefix(t, "unbox_") {
				s := v.boxesU[t[strings.Index(t, "_")+1:]]
				add(s)
			}
		}
	}
	closure()
	for {
		n := 0
		for _, a := range autos {
			if autoIn[a.l.Name] {
				continue
			}
			ok := true
			for _, s := range a.syms {
				if strings.HasPrefix(s, "Seq_") {
					if !used[s] && !used[seqSortOfToken(s)] {
						ok = false
					}
					continue
				}
				if !used[s] {
					ok = false
				}
			}
			if ok {
				autoIn[a.l.Name] = true
				autoTxt = append(autoTxt, a.text)
				v.lemmasU[a.l.Name] = true
				add(a.text)
				n++
			}
		}
		closure()
		if n == 0 {
			break
		}
	}
	var b bytes.Buffer
	b.WriteString(strings.Replace(preludeBase, "(declare-fun strless (Seq_Int Seq_Int) Bool)\n", "", 1))
	if used["band"] || used["bor"] || used["bxor"] {
		b.WriteString(preludeBits)
		bitsUsed = true
	}
	// sequence sorts
	seqs := map[string]bool{"Seq_Int": true}
	for t := range used {
		if strings.HasPrefix(t, "Seq_") {
			s := seqSortOfToken(t)
			for strings.HasPrefix(s, "Seq_") {
				seqs[s] = true
				s = seqElemSort(s)
			}
		}
	}
	var ss []string
	for s := range seqs {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool {
		if len(ss[i]) != len(ss[j]) {
			return len(ss[i]) < len(ss[j])
		}
		return ss[i] < ss[j]
	})
	for _, s := range ss {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	for _, s := range ss {
		if s == "Seq_Int" && !anyPrefix(used, "Seq_Int", "str") {
			continue
		}
		b.WriteString(seqModule(s, seqElemSort(s)))
	}
	if used["strless"] {
		b.WriteString("(declare-fun strless (Seq_Int Seq_Int) Bool)\n")
	}
	for _, t := range []string{"runesOf", "strOfRunes", "strOfRune", "runeAt", "runeLenAt"} {
		if used[t] {
			b.WriteString(utf8Prelude)
			break
		}
	}
	// string literals
	for _, l := range v.reg.litN {
		n := v.reg.lits[l]
		if !used[n] {
			continue
		}
		fmt.Fprintf(&b, "(declare-const %s Seq_Int)\n(assert (= (Seq_Int_len %s) %d))\n", n, n, len(l))
		if len(l) <= 80 {
			for i := 0; i < len(l); i++ {
				fmt.Fprintf(&b, "(assert (= (Seq_Int_at %s %d) %d))\n", n, i, l[i])
			}
		}
	}
	for _, n := range sortedKeys(v.boxesU) {
		if used["box_"+n] || used["unbox_"+n] {
			s := v.boxesU[n]
			fmt.Fprintf(&b, "(declare-fun box_%s (%s) Ref)\n(declare-fun unbox_%s (Ref) %s)\n(assert (forall ((x %s)) (! (and (= (unbox_%s (box_%s x)) x) (= (birth (box_%s x)) 0) (= (rkind (box_%s x)) (- 3))) :pattern ((box_%s x)))))\n", n, s, n, s, s, n, n, n, n, n)
		}
	}
	k := 2
	for _, n := range sortedKeys(v.reg.subs) {
		k++
		if used[n] {
			fmt.Fprintf(&b, "(declare-fun %s (Ref) Ref)\n(declare-fun inv_%s (Ref) Ref)\n(assert (forall ((x Ref)) (! (and (= (inv_%s (%s x)) x) (= (birth (%s x)) (birth x)) (= (rkind (%s x)) %d) (not (= (%s x) nilref))) :pattern ((%s x)))))\n", n, n, n, n, n, n, k, n, n)
		}
	}
	for t := range used {
		if strings.HasPrefix(t, "mapcard_") {
			cp := v.reg.comps[strings.TrimPrefix(t, "mapcard_")]
			if cp != nil {
				in := strings.TrimSuffix(strings.TrimPrefix(cp.Sort, "(Array Ref "), ")")
				fmt.Fprintf(&b, "(declare-fun %s (%s) Int)\n", t, in)
			}
		}
	}
	// uninterpreted spec functions, in declaration order of use
	for _, t := range order {
		if strings.HasPrefix(t, "sf_") {
			f := v.w.fns[t[3:]]
			if f == nil {
				continue
			}
			var ps []string
			for _, p := range f.Params {
				ps = append(ps, sortOf(v.w.resolveType(p.T, f.Pkg)))
			}
			fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", t, strings.Join(ps, " "), sortOf(v.w.resolveType(f.Ret, f.Pkg)))
		}
	}
	// recursive spec functions (declare all before definitions)
	var decl, defs bytes.Buffer
	for _, n := range sortedKeys(v.recs) {
		r := v.recs[n]
		if !used["rf_"+n+"__TOP"] || r.text != "?" {
			continue
		}
		hidden := v.hidden(n)
		for _, ln := range strings.Split(r.smt(o.Fuel), "\n") {
			if hidden && !strings.HasPrefix(ln, "(declare-fun") {
				continue
			}
			if strings.HasPrefix(ln, "(declare-fun") {
				decl.WriteString(ln + "\n")
			} else {
				defs.WriteString(ln + "\n")
			}
		}
	}
	b.Write(decl.Bytes())
	// constants
	for _, d := range v.decls {
		if used[d] {
			fmt.Fprintf(&b, "(declare-const %s %s)\n", d, v.declSort[d])
		}
	}
	b.WriteString("(declare-const now!0 Int)\n(assert (< 0 now!0))\n")
	b.Write(defs.Bytes())
	for _, d := range v.decls {
		if used[d] {
			for _, a := range v.declAx[d] {
				fmt.Fprintf(&b, "(assert %s)\n", a)
			}
		}
	}
	for _, a := range autoTxt {
		fmt.Fprintf(&b, "(assert %s)\n", a)
	}
	for i := len(facts) - 1; i >= 0; i-- {
		fmt.Fprintf(&b, "(assert %s)\n", facts[i])
	}
	fmt.Fprintf(&b, "(assert (not %s))\n(check-sat)\n", o.Goal)
	return b.String()
}

func anyPrefix(m map[string]bool, ps ...string) bool {
	for t := range m {
		for _, p := range ps {
			if strings.HasPrefix(t, p) {
				return true
			}
		}
	}
	return false
}

func runSolver(ctx context.Context, bin string, args []string, timeout int, file string) (string, string) {
	c, cancel := context.WithTimeout(ctx, time.Duration(timeout)*time.Second+500*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(c, bin, append(args, file)...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := out.String()
	// the verdict is the first line; a warning about an ignored pattern may
	// precede it, an error may not
	first := ""
	for _, l := range strings.Split(s, "\n") {
		first = strings.TrimSpace(l)
		if !strings.HasPrefix(first, "WARNING") {
			break
		}
	}
	return first, s
}

type strategy struct {
	name string
	bin  string
	args func(to int) []string
	pre  string
}

var strategies = []strategy{
	{"z3-new/ematch", "z3-new", func(to int) []string {
		return []string{fmt.Sprintf("-T:%d", to), "smt.mbqi=false", "auto_config=false", "smt.case_split=3", "smt.delay_units=true"}
	}, ""},
	{"z3-new/ematch-arith2", "z3-new", func(to int) []string {
		return []string{fmt.Sprintf("-T:%d", to), "smt.mbqi=false", "auto_config=false", "smt.arith.solver=2"}
	}, ""},
	{"cvc5", "cvc5", func(to int) []string {
		return []string{fmt.Sprintf("--tlimit=%d", to*1000), "--lang=smt2"}
	}, ""},
	{"z3-4.8.12", "z3", func(to int) []string {
		return []string{fmt.Sprintf("-T:%d", to), "smt.mbqi=false", "auto_config=false"}
	}, ""},
	{"z3-new/seed", "z3-new", func(to int) []string {
		return []string{fmt.Sprintf("-T:%d", to), "smt.mbqi=false", "auto_config=false", "smt.random_seed=7", "sat.random_seed=7", "smt.qi.eager_threshold=30"}
	}, ""},
}

func solveOne(o *Obl, q string, dir string, idx int) {
	start := time.Now()
	var cf string
	if cacheDir != "" {
		h := sha256.Sum256([]byte(q))
		cf = filepath.Join(cacheDir, fmt.Sprintf("%x", h[:16]))
		if b, err := os.ReadFile(cf); err == nil {
			o.Status, o.Solver = "proved", strings.TrimSpace(string(b))
			return
		}
	}
	file := filepath.Join(dir, fmt.Sprintf("q%d.smt2", atomic.AddInt64(&queryNo, 1)))
	os.WriteFile(file, []byte(q), 0644)
	if keepDir == "" {
		defer os.Remove(file)
	}
	to := baseTimeout
	if o.Timeout > to {
		to = o.Timeout
	}
	if o.Cover {
		r, _ := runSolver(context.Background(), strategies[0].bin, strategies[0].args(2), 2, file)
		o.Secs = time.Since(start).Seconds()
		if r == "unsat" {
			o.Status = "vacuous"
			return
		}
		o.Status = "covered"
		o.Solver = strategies[0].name
		return
	}
	if o.Query != "" {
		r, out := runSolver(context.Background(), "z3-new", []string{fmt.Sprintf("-T:%d", 60)}, 60, file)
		o.Secs = time.Since(start).Seconds()
		o.Status, o.Solver = "failed", "z3-new/bv"
		if r == "unsat" {
			o.Status = "proved"
			if cf != "" {
				os.WriteFile(cf, []byte(o.Solver), 0644)
			}
		} else {
			o.Out += "z3-new/bv: " + out + "\n"
		}
		return
	}
	stage := func(ss []strategy, to int) bool {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		type res struct{ n, r, out string }
		ch := make(chan res, len(ss))
		for _, s := range ss {
			s := s
			go func() {
				r, out := runSolver(ctx, s.bin, s.args(to), to, file)
				ch <- res{s.name, r, out}
			}()
		}
		for range ss {
			r := <-ch
			if r.r == "unsat" {
				o.Status, o.Solver = "proved", r.n
				return true
			}
			if r.r == "sat" {
				o.Out += r.n + ": sat\n"
			} else if !strings.Contains(r.r, "unknown") && !strings.Contains(r.r, "timeout") && r.r != "" && !strings.Contains(r.out, "interrupted") {
				if len(r.out) > 600 {
					r.out = r.out[:600]
				}
				o.Out += r.n + ": " + r.out + "\n"
			} else {
				o.Out += r.n + ": " + r.r + "\n"
			}
		}
		return false
	}
	if !stage(strategies[:1], (to+2)/3) {
		if !stage(strategies[1:], to) {
			o.Status = "failed"
		}
	}
	o.Secs = time.Since(start).Seconds()
	if o.Status == "proved" && cf != "" {
		os.WriteFile(cf, []byte(o.Solver), 0644)
	}
}

func solveAll(obls []*Obl) {
	dir := keepDir
	if dir == "" {
		d, err := os.MkdirTemp("", "govc")
		if err != nil {
			fatal("%v", err)
		}
		dir = d
		defer os.RemoveAll(d)
	} else {
		os.MkdirAll(dir, 0755)
	}
	autos := map[*Ver][]autoEntry{}
	type job struct {
		o   *Obl
		idx int
	}
	for _, o := range obls {
		if _, ok := autos[o.V]; !ok {
			autos[o.V] = o.V.autos()
		}
	}
	// queries are built sequentially per Ver (maps), solved in parallel
	ch := make(chan struct {
		o *Obl
		q string
		i int
	}, 16)
	var wg sync.WaitGroup
	for i := 0; i < jobs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				solveOne(j.o, j.q, dir, j.i)
			}
		}()
	}
	for i, o := range obls {
		if o.Status != "" {
			continue
		}
		q := o.Query
		if q == "" {
			q = o.V.query(o, autos[o.V])
		}
		if keepDir != "" {
			q = "; " + o.Name + " " + o.Pos + "\n" + q
		}
		ch <- struct {
			o *Obl
			q string
			i int
		}{o, q, i}
	}
	close(ch)
	wg.Wait()
}
