package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (v *Ver) failUnit(kind, msg string) {
	v.obls = append(v.obls, &Obl{Unit: v.unit, Name: v.unit + "/" + kind, Kind: kind, Goal: "false", V: v, Status: "failed", Out: msg})
}

func guardUnit(v *Ver, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsup:
				v.failUnit("unsupported", e.msg)
			case nameErr:
				v.failUnit("unresolved-name", e.msg)
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				v.failUnit("internal", fmt.Sprint(r))
			}
		}
	}()
	f()
}

// verifyContract generates the obligations of one contract.
func (w *World) verifyContract(c *Contract) *Ver {
	key := c.Pkg + "." + c.Key
	v := newVer(w, key, c.Pkg)
	v.c = c
	if c.Fuel > 0 {
		v.fuel = c.Fuel
	}
	fn := w.fnByKey[key]
	if fn == nil {
		v.notes = append(v.notes, "function not present")
		if !token.IsExported(c.Key[strings.LastIndex(c.Key, ".")+1:]) {
			v.notes = append(v.notes, "unexported: obligations skipped, callers inline")
			return v
		}
		v.failUnit("missing", "function not found in the source")
		return v
	}
	v.fn = fn
	guardUnit(v, func() { v.runContract(fn, c) })
	for _, d := range v.dropped {
		_ = d
	}
	return v
}

func (v *Ver) runContract(fn *ssa.Function, c *Contract) {
	specs := append([]*LoopSpec{}, c.Loops...)
	v.assignLoops(fn, "", &specs, 0)
	st := &State{heap: map[string]string{}, env: map[ssa.Value]Val{}, names: map[string]Val{}, locals: map[int]Val{}, iters: map[ssa.Value]*Iter{},
		snaps: map[string]*Ctx{}, fresh: map[string]bool{}, calls: map[string]int{}, now: "now!0"}
	var args []Val
	for _, p := range fn.Params {
		args = append(args, v.havocVal(st, p.Type(), p.Name()))
	}
	if fn.Signature.Recv() != nil && len(args) > 0 && args[0].T.K == "ref" {
		st.assume(not(eq(args[0].S, "nilref")))
		st.names["$nn:"+args[0].S] = mkv(tyBool, "true")
	}
	// the captured variables of a function literal: cells of their own
	var bind []Val
	for i, f := range fn.FreeVars {
		b := v.havocVal(st, f.Type(), f.Name())
		if b.T.K == "ref" {
			st.assume(not(eq(b.S, "nilref")))
			for _, o := range bind[:i] {
				if o.T.K == "ref" {
					st.assume(not(eq(b.S, o.S)))
				}
			}
		}
		bind = append(bind, b)
	}
	names := contractNames(c, args)
	for i, f := range fn.FreeVars {
		if _, ok := names[f.Name()]; !ok {
			names[f.Name()] = bind[i]
		}
	}
	for i, p := range fn.Params {
		if _, ok := names[p.Name()]; !ok && p.Name() != "_" {
			names[p.Name()] = args[i]
		}
	}
	ent := &Ctx{w: v.w, v: v, pkg: c.Pkg, now: "now!0", names: names, fuel: v.fuel}
	ent.heap = func(cp *Comp) string { return v.heap0(cp) }
	ent.old = ent
	v.entry = ent
	for _, r := range c.Req {
		st.assume(ent.formula(r.E))
	}
	for i := range c.Params {
		if i < len(args) {
			st.names[c.Params[i]] = args[i]
		}
	}
	ms, every := v.modTerms(ent, c.Mod)
	v.mods, v.modAll = ms, every
	if c.Trusted {
		return
	}
	v.ghostAt(st, nil, "entry", "", 0, "", nil)
	nret := 0
	v.runFn(st, fn, "", nil, args, bind, func(s *State, rs []Val, pos token.Pos) {
		nret++
		post := v.ctx(s)
		pn := cloneMap(s.names)
		for k, x := range names {
			pn[k] = x
		}
		bindResults(c, pn, rs)
		post.names = pn
		post.old = ent
		// ghost statements see locals, contract results too
		sn := cloneMap(s.names)
		bindResults(c, sn, rs)
		s.names = sn
		v.ghostAt(s, nil, "return", "", 0, "", nil)
		post.heap = v.heapFn(s)
		if nret <= 32 {
			v.cover(s, fmt.Sprintf("return%d", nret))
		}
		for i, e := range c.Ens {
			lbl := e.Label
			if lbl == "" {
				lbl = fmt.Sprint(i + 1)
			}
			post.now = s.now
			v.check(s, "post", lbl, post.formula(e.E), pos)
		}
	})
	if nret == 0 && len(c.Ens) > 0 {
		v.failUnit("no-return", "no return reached")
	}
}

func (w *World) verifyLemma(l *Lemma) *Ver {
	v := newVer(w, "lemma."+l.Name, l.Pkg)
	v.lemma = l
	if l.Fuel > 0 {
		v.fuel = l.Fuel
	}
	if l.Axiom {
		return v
	}
	if l.BV {
		guardUnit(v, func() {
			for i, e := range l.Ens {
				lbl := e.Label
				if lbl == "" {
					lbl = fmt.Sprint(i + 1)
				}
				v.obls = append(v.obls, &Obl{Unit: v.unit, Name: v.unit + "/ensures[" + lbl + "]", Kind: "ensures", V: v, Query: w.bvQuery(l, e.E)})
			}
		})
		return v
	}
	guardUnit(v, func() {
		st := &State{heap: map[string]string{}, env: map[ssa.Value]Val{}, names: map[string]Val{}, locals: map[int]Val{}, iters: map[ssa.Value]*Iter{},
			snaps: map[string]*Ctx{}, fresh: map[string]bool{}, calls: map[string]int{}, now: "now!0"}
		names := map[string]Val{}
		for _, p := range l.Params {
			t := w.resolveType(p.T, l.Pkg)
			n := v.fresh(p.Name, sortOf(t))
			for _, f := range valFacts(n, t, "now!0") {
				st.assume(f)
			}
			names[p.Name] = mkv(t, n)
		}
		ent := &Ctx{w: w, v: v, pkg: l.Pkg, now: "now!0", names: names, fuel: v.fuel}
		ent.heap = func(cp *Comp) string { return v.heap0(cp) }
		ent.old = ent
		v.entry = ent
		st.names = cloneMap(names)
		for _, r := range l.Req {
			st.assume(ent.formula(r.E))
		}
		c := v.ctx(st)
		v.cover(st, "lemma")
		v.stmts(st, c, l.Body, "true")
		for i, e := range l.Ens {
			lbl := e.Label
			if lbl == "" {
				lbl = fmt.Sprint(i + 1)
			}
			c.heap = v.heapFn(st)
			v.check(st, "ensures", lbl, ent.formula(e.E), token.NoPos)
		}
	})
	return v
}

// verifyRec checks that a recursive specification function is well founded.
func (w *World) verifyRec(f *SpecFn) *Ver {
	v := newVer(w, "spec."+f.Name, f.Pkg)
	guardUnit(v, func() {
		if f.Dec == nil {
			panic(unsupported("recursive spec function without decreases: " + f.Name))
		}
		v.recInfoOf(f)
		st := &State{heap: map[string]string{}, names: map[string]Val{}, now: "now!0"}
		nb := map[string]Val{}
		for _, p := range f.Params {
			t := w.resolveType(p.T, f.Pkg)
			n := v.fresh(p.Name, sortOf(t))
			for _, x := range valFacts(n, t, "now!0") {
				st.assume(x)
			}
			nb[p.Name] = mkv(t, n)
		}
		c := &Ctx{w: w, v: v, pkg: f.Pkg, now: "now!0", names: nb, fuel: 1, recFn: f}
		c.heap = func(cp *Comp) string { return v.heap0(cp) }
		d0 := c.formula(f.Dec)
		n := 0
		c.onRec = func(args []Val, guards []string) {
			n++
			nb2 := map[string]Val{}
			for i, p := range f.Params {
				nb2[p.Name] = args[i]
			}
			c2 := &Ctx{w: w, v: v, pkg: f.Pkg, now: "now!0", names: nb2, fuel: 1}
			c2.heap = c.heap
			d1 := c2.formula(f.Dec)
			for k, a := range args {
				_ = k
				if strings.Contains(a.S, "?") {
					panic(unsupported("recursive call under a quantifier in " + f.Name))
				}
			}
			s2 := &State{facts: st.facts}
			for _, g := range guards {
				s2.assume(g)
			}
			v.check(s2, "well-founded", fmt.Sprint(n), and("(<= 0 "+d0+")", "(< "+d1+" "+d0+")", "(<= 0 (+ 1 "+d1+"))"), token.NoPos)
		}
		c.ev(f.Body)
	})
	return v
}

type unitRep struct {
	Unit      string   `json:"unit"`
	Kind      string   `json:"kind"`
	Proved    int      `json:"proved"`
	Trivial   int      `json:"trivial"`
	Failed    int      `json:"failed"`
	Covers    int      `json:"covers"`
	Secs      float64  `json:"solver_seconds"`
	Pos       string   `json:"pos,omitempty"`
	Inlined   []string `json:"inlined,omitempty"`
	Callees   []string `json:"callees,omitempty"`
	Lemmas    []string `json:"lemmas,omitempty"`
	Assumes   []string `json:"assumptions,omitempty"`
	Notes     []string `json:"notes,omitempty"`
	Loops     int      `json:"loops"`
	LoopsTerm int      `json:"loops_with_measure"`
}

type failRep struct {
	Name   string `json:"name"`
	Pos    string `json:"pos"`
	Status string `json:"status"`
	Goal   string `json:"goal"`
	Out    string `json:"solver_output"`
}

type report struct {
	Property string             `json:"property"`
	Units    []unitRep          `json:"units"`
	Failures []failRep          `json:"failures"`
	Total    int                `json:"obligations"`
	Proved   int                `json:"proved"`
	Trivial  int                `json:"trivial"`
	Covers   int                `json:"covers"`
	BySolver map[string]int     `json:"by_solver"`
	Secs     float64            `json:"solver_seconds"`
	Wall     float64            `json:"wall_seconds"`
	Trusted  []string           `json:"trusted"`
	Axioms   []string           `json:"axioms"`
	Assumes  []string           `json:"assumptions"`
	Slowest  []string           `json:"slowest"`
	Missing  []string           `json:"skipped_missing"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	specDir := flag.String("specs", "/verif/contracts", "")
	prop := flag.String("prop", "", "property id (empty: everything)")
	only := flag.String("only", "", "substring of units")
	out := flag.String("out", "", "json report")
	verbose := flag.Bool("v", false, "")
	dump := flag.String("ssa", "", "dump ssa of functions")
	flag.StringVar(&cacheDir, "cache", "", "")
	flag.IntVar(&jobs, "j", 8, "")
	flag.IntVar(&baseTimeout, "t", 10, "")
	flag.StringVar(&keepDir, "keep", "", "")
	list := flag.Bool("list", false, "")
	noclosure := flag.Bool("noclosure", false, "")
	flag.Parse()
	start := time.Now()
	files, _ := filepath.Glob(filepath.Join(*specDir, "*.spec"))
	// the assumed library contracts first, then the packages from the bottom up
	rank := func(f string) int {
		b, _ := os.ReadFile(f)
		for i, p := range []string{"package std\n", "package lnreader\n", "package dartsclone\n", "package dictionary\n"} {
			if strings.Contains(string(b), p) {
				return i
			}
		}
		return 9
	}
	sort.Slice(files, func(i, j int) bool {
		a, b := rank(files[i]), rank(files[j])
		if a != b {
			return a < b
		}
		return files[i] < files[j]
	})
	func() {
		defer func() {
			if r := recover(); r != nil && os.Getenv("GOVC_PANIC") == "" {
				fatal("%v", r)
			}
		}()
	}()
	w := loadWorld(*repo, files)
	if cacheDir != "" {
		os.MkdirAll(cacheDir, 0755)
	}
	if *dump != "" {
		for _, k := range sortedFnKeys(w.fnByKey) {
			if strings.Contains(k, *dump) {
				fmt.Println("//", k)
				w.fnByKey[k].WriteTo(os.Stdout)
			}
		}
		return
	}
	if *list {
		for _, k := range sortedFnKeys(w.fnByKey) {
			c := w.contracts[k]
			s := "-"
			if c != nil {
				s = strings.Join(c.Props, ",")
				if c.Trusted {
					s += " trusted"
				}
				if c.Inline {
					s += " inline"
				}
			}
			fmt.Println(k, s)
		}
		return
	}
	// units
	var vers []*Ver
	done := map[string]bool{}
	var queue []string
	for _, k := range sortedKeys(w.contracts) {
		c := w.contracts[k]
		if c.Extern {
			continue
		}
		if *prop != "" {
			ok := false
			for _, p := range c.Props {
				if p == *prop {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		if *only != "" && !strings.Contains(k, *only) {
			continue
		}
		queue = append(queue, k)
	}
	if *prop != "" {
		for _, l := range w.lemmaList {
			for _, p := range l.Props {
				if p == *prop && (*only == "" || strings.Contains("lemma."+l.Name, *only)) {
					queue = append(queue, "lemma "+l.Name)
				}
			}
		}
	}
	if *only != "" || *prop == "" {
		for _, l := range w.lemmaList {
			if *only == "" || strings.Contains("lemma."+l.Name, *only) {
				queue = append(queue, "lemma "+l.Name)
			}
		}
		for _, n := range sortedKeys(w.fns) {
			if w.fns[n].Rec && (*only == "" || strings.Contains("spec."+n, *only)) {
				queue = append(queue, "spec "+n)
			}
		}
	}
	trusted := map[string]bool{}
	axioms := map[string]bool{}
	var missing []string
	solved := map[*Ver]bool{}
	var all []*Obl
	for len(queue) > 0 {
		for len(queue) > 0 {
			k := queue[0]
			queue = queue[1:]
			if done[k] {
				continue
			}
			done[k] = true
			var v *Ver
			switch {
			case strings.HasPrefix(k, "lemma "):
				l := w.lemmas[k[6:]]
				if l.Axiom {
					axioms[l.Name+": "+l.Note] = true
					continue
				}
				v = w.verifyLemma(l)
			case strings.HasPrefix(k, "spec "):
				v = w.verifyRec(w.fns[k[5:]])
			case strings.HasPrefix(k, "extern "):
				trusted[k] = true
				continue
			default:
				c := w.contracts[k]
				if c == nil {
					continue
				}
				if c.Trusted {
					trusted["assumed contract of "+k] = true
					continue
				}
				if c.Inline {
					continue
				}
				v = w.verifyContract(c)
				if v.fn == nil {
					missing = append(missing, k)
				}
			}
			vers = append(vers, v)
			if *noclosure {
				continue
			}
			for ck := range v.callees {
				queue = append(queue, ck)
			}
		}
		// solve what is new, learn the lemmas used
		var batch []*Obl
		for _, v := range vers {
			if !solved[v] {
				solved[v] = true
				batch = append(batch, v.obls...)
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsup); ok {
						fatal("%s", u.msg)
					}
					panic(r)
				}
			}()
			solveAll(batch)
			// a way to return, or to go round a loop, that cannot happen is no fault of the contract while another can
			group := func(o *Obl) string {
				if i := strings.Index(o.Name, "/reachable[return"); i >= 0 {
					return o.Name[:i+len("/reachable[return")]
				}
				return o.Name
			}
			live := map[string]bool{}
			for _, o := range batch {
				if o.Cover && o.Status != "vacuous" {
					live[group(o)] = true
				}
			}
			for _, o := range batch {
				if o.Cover && o.Status == "vacuous" && live[group(o)] {
					o.Status = "covered"
				}
			}
		}()
		all = append(all, batch...)
		if !*noclosure {
			for _, v := range vers {
				for _, l := range sortedKeys(v.lemmasU) {
					if !done["lemma "+l] {
						queue = append(queue, "lemma "+l)
					}
				}
				for _, n := range sortedKeys(v.recs) {
					if f := w.fns[n]; f != nil && f.Rec && !done["spec "+n] {
						queue = append(queue, "spec "+n)
					}
				}
			}
		}
	}
	if bitsUsed {
		v := newVer(w, "prelude.bits", "")
		for i, q := range bitSelfCheck() {
			v.obls = append(v.obls, &Obl{Unit: v.unit, Name: fmt.Sprintf("prelude.bits/axiom[%d]", i+1), Kind: "ensures", V: v, Query: q})
		}
		solveAll(v.obls)
		vers = append(vers, v)
		all = append(all, v.obls...)
	}
	rep := report{Property: *prop, BySolver: map[string]int{}, Missing: missing}
	assumes := map[string]bool{}
	type slow struct {
		n string
		s float64
	}
	var slows []slow
	for _, v := range vers {
		u := unitRep{Unit: v.unit, Trivial: v.trivial, Inlined: sortedModKeys(v.inlined), Callees: sortedModKeys(v.callees), Lemmas: sortedModKeys(v.lemmasU), Notes: v.notes}
		u.Kind = "function"
		if v.lemma != nil {
			u.Kind = "lemma"
		} else if v.c == nil {
			u.Kind = "specfn"
		}
		if v.fn != nil {
			u.Pos = v.pos(v.fn.Pos())
		}
		for a := range v.assumes {
			assumes[a] = true
			u.Assumes = append(u.Assumes, a)
		}
		for _, d := range v.dropped {
			u.Notes = append(u.Notes, "dropped clause: "+d)
		}
		u.Loops = len(v.loopNum)
		for _, s := range v.loopKeys {
			if s.Dec != nil {
				u.LoopsTerm++
			}
		}
		sort.Strings(u.Assumes)
		for _, o := range v.obls {
			u.Secs += o.Secs
			slows = append(slows, slow{o.Name + " " + o.Pos + " " + o.Solver, o.Secs})
			switch o.Status {
			case "proved":
				u.Proved++
				rep.BySolver[o.Solver]++
			case "covered":
				u.Covers++
			default:
				u.Failed++
				g := o.Goal
				if len(g) > 1500 {
					g = g[:1500] + "..."
				}
				rep.Failures = append(rep.Failures, failRep{o.Name, o.Pos, o.Status, g, o.Out})
			}
		}
		rep.Total += u.Proved + u.Failed
		rep.Proved += u.Proved
		rep.Trivial += u.Trivial
		rep.Covers += u.Covers
		rep.Secs += u.Secs
		rep.Units = append(rep.Units, u)
		if *verbose || u.Failed > 0 {
			st := "ok"
			if u.Failed > 0 {
				st = "FAILED"
			}
			fmt.Printf("%-7s %-60s proved %4d trivial %4d failed %3d %.1fs\n", st, v.unit, u.Proved, u.Trivial, u.Failed, u.Secs)
			for _, d := range v.dropped {
				fmt.Println("    dropped:", d)
			}
		}
	}
	for t := range trusted {
		rep.Trusted = append(rep.Trusted, t)
	}
	for t := range axioms {
		rep.Axioms = append(rep.Axioms, t)
	}
	for t := range assumes {
		rep.Assumes = append(rep.Assumes, t)
	}
	sort.Strings(rep.Trusted)
	sort.Strings(rep.Axioms)
	sort.Strings(rep.Assumes)
	sort.Slice(slows, func(i, j int) bool { return slows[i].s > slows[j].s })
	for i := 0; i < len(slows) && i < 10; i++ {
		rep.Slowest = append(rep.Slowest, fmt.Sprintf("%.1fs %s", slows[i].s, slows[i].n))
	}
	rep.Wall = time.Since(start).Seconds()
	seen := map[string]int{}
	for _, f := range rep.Failures {
		seen[f.Name]++
		if seen[f.Name] <= 3 {
			fmt.Printf("  FAIL %s %s %s\n", f.Name, f.Pos, f.Status)
			if *verbose {
				fmt.Printf("       goal: %.400s\n       %s\n", f.Goal, strings.ReplaceAll(strings.TrimSpace(f.Out), "\n", " | "))
			}
		}
	}
	fmt.Printf("govc %s: units %d obligations %d proved %d trivial %d failed %d covers %d solver %.1fs wall %.1fs\n", *prop, len(vers), rep.Total, rep.Proved, rep.Trivial, len(rep.Failures), rep.Covers, rep.Secs, rep.Wall)
	if *verbose {
		for _, s := range rep.Slowest[:min(3, len(rep.Slowest))] {
			fmt.Println("   slow:", s)
		}
	}
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0644)
	}
	if len(rep.Failures) > 0 {
		os.Exit(1)
	}
}
