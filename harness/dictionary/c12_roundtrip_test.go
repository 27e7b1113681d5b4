package dictionary

//verif:use dict
//verif:use lex

import (
	"fmt"
	"strings"
	"testing"
)

func v12find(s string, pos [6]string, reading string, own, sys []vsrcword, user bool) int32 {
	for i, x := range own {
		if x.W.surface == s && x.W.pos == pos && x.W.reading == reading {
			if user {
				return int32(i) | 1<<28
			}
			return int32(i)
		}
	}
	for i, x := range sys {
		if x.W.surface == s && x.W.pos == pos && vor(x.W.reading, x.W.surface) == reading {
			return int32(i)
		}
	}
	return -1
}

// v12inline writes some entries of split lists as words.
func v12inline(r *vrng, own, sys []vsrcword, user bool) {
	for i := range own {
		for k := 0; k < 3; k++ {
			if !r.p(12) {
				continue
			}
			l := []*string{&own[i].W.a, &own[i].W.b, &own[i].W.ws}[k]
			v := []*[]int32{&own[i].A, &own[i].B, &own[i].S}[k]
			x := own[r.n(len(own))]
			reading := x.W.reading
			if user && len(sys) > 0 && r.p(50) {
				x = sys[r.n(len(sys))]
				reading = vor(x.W.reading, x.W.surface)
			}
			ref := x.W.surface + "," + strings.Join(x.W.pos[:], ",") + "," + reading
			if strings.Contains(ref, "/") || (strings.HasPrefix(ref, "U") && !strings.Contains(ref, ",")) {
				continue
			}
			id := v12find(x.W.surface, x.W.pos, reading, own, sys, user)
			ref = strings.Replace(ref, ",", vpickS(r, `\u002c`, `\u{2c}`), -1)
			if *l == "*" {
				*l, *v = ref, []int32{id}
			} else if len(*v) < 127 {
				*l, *v = *l+"/"+ref, append(*v, id)
			}
			if own[i].W.mode == "A" {
				own[i].W.mode = "B"
			}
		}
	}
}

func v12ids(xs []int32) string { return fmt.Sprint(append([]int32{}, xs...)) }

// v12words compares the words of a dictionary with their source.
func v12words(c *vcase, kind string, ws []vsrcword, g func(int16) []string, l *DoubleArrayLexicon) {
	if int(l.Size()) != len(ws) {
		c.Failf("%s: %d words of %d", kind, l.Size(), len(ws))
	}
	heads := map[string][]int32{}
	for i, x := range ws {
		id := int32(i)
		w := x.W
		is := func(what string, got, want interface{}) {
			if got != want {
				c.Failf("%s: word %d (%q): %s is %v, in the source %v", kind, i, w.surface, what, got, want)
			}
		}
		wi := l.GetWordInfo(id)
		is("left id", int(l.GetLeftId(id)), w.left)
		is("right id", int(l.GetRightId(id)), w.right)
		is("cost", int(l.GetCost(id)), w.cost)
		is("surface", wi.Surface, w.surface)
		is("length", int(wi.HeadwordLength), len(w.head))
		is("reading", wi.ReadingForm, vor(w.reading, w.surface))
		is("normalised form", wi.NormalizedForm, vor(w.norm, w.surface))
		is("dictionary form id", wi.DictionaryFormWordId, x.Dicform)
		df := w.surface
		if x.Dicform >= 0 {
			df = ws[x.Dicform].W.surface
		}
		is("dictionary form", wi.DictionaryForm, df)
		is("part of speech", strings.Join(g(wi.PosId), ","), strings.Join(w.pos[:], ","))
		is("A units", v12ids(wi.AUnitSplit), v12ids(x.A))
		is("B units", v12ids(wi.BUnitSplit), v12ids(x.B))
		is("word structure", v12ids(wi.WordStructure), v12ids(x.S))
		if _, ok := heads[w.head]; !ok {
			heads[w.head] = nil
		}
		if w.left != -1 {
			heads[w.head] = append(heads[w.head], id)
		}
	}
	for h, want := range heads {
		if h == "" {
			continue
		}
		for _, text := range []string{h, h + "x", h + "東京"} {
			var got []int32
			for it := l.Lookup([]byte(text), 0); it.Next(); {
				id, n := it.Get()
				if n == len(h) {
					got = append(got, id)
				}
				if int(id) < 0 || int(id) >= len(ws) || ws[id].W.head != text[:n] || ws[id].W.left == -1 {
					c.Failf("%s: looking up %q gives word %d with length %d", kind, text, id, n)
				}
			}
			if v12ids(got) != v12ids(want) {
				c.Failf("%s: looking up %q in %q gives words %v, the source has %v", kind, h, text, got, want)
			}
		}
	}
}

// v12matrix writes a matrix source.
func v12matrix(r *vrng, left, right int) (string, map[[2]int]int) {
	var b strings.Builder
	m := map[[2]int]int{}
	fmt.Fprintf(&b, "%d %d\n", left, right)
	for k := r.n(left*right*2 + 1); k > 0; k-- {
		i, j, v := r.n(left), r.n(right), vpickI(r, r.rng(-32768, 32767), -32768, 32767, 0, -1, 255, 256)
		m[[2]int{i, j}] = v
		fmt.Fprintf(&b, "%s%d%s%d%s%d%s", vpickS(r, "", " ", "\t"), i, vpickS(r, " ", "\t", "  "), j, vpickS(r, " ", "\t"), v, vpickS(r, "\n", "\n", "\r\n", "\n\n", " \n", "\n \t\n"))
	}
	return b.String(), m
}

func TestVerifC12RoundTrip(t *testing.T) {
	vrun(t, "C12", "C12RoundTrip", "random system and user dictionary sources, built and read back, give every word, part of speech and connection cost of the source; lookup finds exactly the words with that headword", 300, 0, func(c *vcase) {
		r := c.R
		u16 := r.p(40)
		nw := r.rng(1, 12)
		if r.p(3) {
			nw = r.rng(100, 500)
		}
		left, right := r.rng(1, 6), r.rng(1, 6)
		if r.p(3) {
			left, right = r.rng(100, 300), r.rng(1, 4)
		}
		sys := vrandlex(r, nw, vposSet(r, r.rng(1, 5)), left, 0, false)
		if r.p(2) {
			// as many homographs as there can be
			sys = vrandlex(r, 255, vposSet(r, 2), left, 0, false)
			for i := range sys {
				sys[i].W.head = "かな"
			}
		}
		if r.p(2) {
			x := &sys[r.n(len(sys))]
			s := strings.Repeat(vpickS(r, "a", "あ"), 32767/3)
			switch r.n(3) {
			case 0:
				x.W.surface = s
			case 1:
				x.W.reading = s
			default:
				x.W.norm = strings.Repeat("z", 32767)
			}
		}
		v12inline(r, sys, nil, false)
		ms, m := v12matrix(r, left, right)
		c.Input(map[string]interface{}{"utf16": u16, "lexicon": vsrclines(sys), "matrix": ms})
		var sb []byte
		var err error
		if p := vpanics(func() { sb, err = vsysdict(vsrclines(sys), ms, u16) }); p != nil {
			c.Failf("building the system dictionary crashes: %v", p)
		}
		if err != nil {
			c.Failf("a valid system source is rejected: %s", err)
		}
		var g *Grammar
		var l *DoubleArrayLexicon
		if p := vpanics(func() { g, l = vload(sb, u16) }); p != nil {
			c.Failf("opening the system dictionary crashes: %v", p)
		}
		chk := func(kind string, f func()) {
			if p := vpanics(f); p != nil {
				if _, ok := p.(vfailed); ok {
					panic(p)
				}
				c.Failf("%s: reading the dictionary crashes: %v", kind, p)
			}
		}
		chk("system", func() { v12words(c, "system", sys, g.GetPartOfSpeechString, l) })
		chk("matrix", func() {
			for i := 0; i < left; i++ {
				for j := 0; j < right; j++ {
					if got := int(g.GetConnectCost(int16(i), int16(j))); got != m[[2]int{i, j}] {
						c.Failf("the connection cost of %d and %d is %d, in the source %d", i, j, got, m[[2]int{i, j}])
					}
				}
			}
		})
		if r.p(40) {
			return
		}
		poss := vposSet(r, r.rng(1, 3))
		for i := 0; i < 3; i++ {
			poss = append(poss, sys[r.n(len(sys))].W.pos)
		}
		user := vrandlex(r, r.rng(1, 8), poss, left, len(sys), true)
		v12inline(r, user, sys, true)
		c.Input(map[string]interface{}{"utf16": u16, "lexicon": vsrclines(sys), "user": vsrclines(user)})
		var ub []byte
		if p := vpanics(func() { ub, err = vuserdict(vsrclines(user), g, l, u16) }); p != nil {
			c.Failf("building the user dictionary crashes: %v", p)
		}
		if err != nil {
			c.Failf("a valid user source is rejected: %s", err)
		}
		chk("user", func() {
			ug, ul := vload(ub, u16)
			n := g.GetPartOfSpeechSize()
			v12words(c, "user", user, func(id int16) []string {
				if int(id) < n {
					return g.GetPartOfSpeechString(id)
				}
				return ug.GetPartOfSpeechString(id - int16(n))
			}, ul)
			v12words(c, "system", sys, g.GetPartOfSpeechString, l)
		})
	})
}

func TestVerifC12Invalid(t *testing.T) {
	vrun(t, "C12", "C12Invalid", "a valid source with one number, string, split, dictionary form, matrix number or column made invalid is rejected with an error", 200, 0, func(c *vcase) {
		r := c.R
		u16 := r.p(40)
		n := r.rng(1, 6)
		ws := vrandlex(r, n, vposSet(r, 2), 3, 0, false)
		ms, _ := v12matrix(r, 3, 3)
		var f [][]string
		for _, x := range ws {
			f = append(f, strings.Split(x.W.line(), ","))
		}
		w := f[r.n(n)]
		badnum := func() string {
			return vpickS(r, "32768", "-32769", "65536", "99999999999999999999", "x", "", "1.5", "0x1", "1 ", " 1", "--1", "1e3", "4294967296", "１")
		}
		badsplit := func() string {
			s := vpickS(r, fmt.Sprint(n), "-1", fmt.Sprint("U", n), "U-1", "x", "", "99999999999", "2147483648", "U99999999999", `nosuch\u002ca\u002cb\u002cc\u002cd\u002ce\u002cf\u002cg`, `a\u002cb`)
			if r.p(50) {
				s = vpickS(r, "0/"+s, s+"/0", "0/"+s+"/0")
			}
			return s
		}
		what := ""
		switch r.n(12) {
		case 0:
			what = "the number of columns"
			i := r.n(n)
			if r.p(50) {
				f[i] = f[i][:len(f[i])-1-r.n(3)]
			} else {
				f[i] = append(f[i], "")
			}
		case 1, 2:
			i := r.rng(1, 3)
			what = fmt.Sprint("the number in column ", i)
			w[i] = badnum()
		case 3:
			i := vpickI(r, 0, 4, 11, 12)
			what = fmt.Sprint("the length of column ", i)
			k := 32768 + r.n(3)*r.n(40000)
			w[i] = strings.Repeat("x", k)
			if r.p(25) && !u16 {
				w[i] = strings.Repeat("あ", 10923)
			}
			if r.p(25) && u16 && i != 0 {
				w[i] = strings.Repeat("𠮟", 16384)
			}
		case 4, 5, 6:
			i := vpickI(r, 15, 16, 17)
			what = fmt.Sprint("the split in column ", i)
			w[i] = badsplit()
			w[14] = "B"
		case 7:
			i := vpickI(r, 15, 16, 17)
			what = fmt.Sprint("the number of units in column ", i)
			w[i] = strings.Repeat("0/", 127+r.n(200)) + "0"
			w[14] = "B"
		case 8:
			what = "an A unit with splits"
			w[14] = "A"
			w[15+r.n(2)] = "0"
		case 9:
			what = "the dictionary form"
			w[13] = vpickS(r, fmt.Sprint(n), fmt.Sprint(n+7), "2147483648", "x", "", "1.0", "99999999999", "U0")
		default:
			what = "the matrix"
			switch r.n(6) {
			case 0:
				ms = vpickS(r, "", "\n", "3\n", "x 3\n", "3 x\n", "-1 3\n", "3 -1\n", "32768 1\n", "3 99999\n", " \n3 3\n", "-1 -1\n", "3.0 3\n")
			case 1, 2:
				ms += vpickS(r, "3 0 5", "0 3 5", "-1 0 5", "0 -1 5", "32767 0 5", "0 32767 5", "1 3 5", "3 1 5", "2 3 5") + vpickS(r, "", "\n", "\n0 0 1\n")
			case 3:
				ms += "0 0 " + vpickS(r, "32768", "-32769", "x", "1.5", "65536", "99999999999") + "\n"
			case 4:
				ms += vpickS(r, "x 0", "0 x", "32768 0", "0 32768", "65536 0", "0 65537") + " 5\n"
			default:
				ms = "3 3\n" + vpickS(r, "3 3 1\n", "5 0 1\n", "0 4 1", "2 3 1\n")
			}
		}
		var b strings.Builder
		for _, x := range f {
			b.WriteString(strings.Join(x, ",") + "\n")
		}
		c.Input(map[string]interface{}{"utf16": u16, "lexicon": b.String(), "matrix": ms, "invalid": what})
		var err error
		if p := vpanics(func() { _, err = vsysdict(b.String(), ms, u16) }); p != nil {
			c.Failf("building from a source in which %s is invalid crashes: %v", what, p)
		}
		if err == nil {
			c.Failf("a source in which %s is invalid is accepted", what)
		}
	})
}

func TestVerifC12Limits(t *testing.T) {
	vrun(t, "C12", "C12Limits", "more homographs or parts of speech than can be numbered are rejected, as many as can be are kept", 2, 6, func(c *vcase) {
		r := c.R
		u16 := r.p(50)
		var ws []vsrcword
		n := 0
		one := func(head string, pos int) {
			ws = append(ws, vsrcword{W: vword{head: head, cost: n % 1000, surface: fmt.Sprint("w", n), pos: [6]string{"p", fmt.Sprint(pos), "*", "*", "*", "*"}, dicform: "*", mode: "A", a: "*", b: "*", ws: "*"}, Dicform: -1})
			n++
		}
		bad := false
		if c.I%2 == 0 {
			k := vpickI(r, 255, 256, 300, 512)
			bad = k > 255
			for i := 0; i < k; i++ {
				one("か", 0)
			}
		} else {
			k := vpickI(r, 32767, 32768, 32769, 33000)
			bad = k > 32768
			for i := 0; i < k; i++ {
				one("か"+fmt.Sprint(i), i)
			}
		}
		c.Input(map[string]interface{}{"words": n, "homographs": c.I%2 == 0})
		var b []byte
		var err error
		if p := vpanics(func() { b, err = vsysdict(vsrclines(ws), "1 1\n0 0 3\n", u16) }); p != nil {
			c.Failf("building crashes: %v", p)
		}
		if bad != (err != nil) {
			if !bad && c.I%2 == 1 && n == 32768 {
				return // the last id may be refused
			}
			c.Failf("%d words: the result of building is %v", n, err)
		}
		if err == nil {
			g, l := vload(b, u16)
			v12words(c, "system", ws, g.GetPartOfSpeechString, l)
		}
	})
}
