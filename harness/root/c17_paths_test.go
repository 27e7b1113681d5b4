package gosudachi

//verif:use cat
//verif:use dict
//verif:use tok
//verif:use num

import (
	"fmt"
	"strings"
	"testing"

	"github.com/msnoigrs/gosudachi/dictionary"
)

type vnode17 struct {
	Begin, End, Pos, Len  int
	Surf, Norm, Dic, Read string
	Oov                   bool
	Cost                  int
	n                     *LatticeNode
}

func (x *vnode17) String() string {
	return fmt.Sprintf("%d..%d %q/%q/%q/%q len %d pos %d oov %v cost %d", x.Begin, x.End, x.Surf, x.Norm, x.Dic, x.Read, x.Len, x.Pos, x.Oov, x.Cost)
}

func vsay17(n *LatticeNode) *vnode17 {
	wi := n.GetWordInfo()
	return &vnode17{n.Begin, n.End, int(wi.PosId), int(wi.HeadwordLength), wi.Surface, wi.NormalizedForm, wi.DictionaryForm, wi.ReadingForm, n.IsOov, int(n.cost), n}
}

// same says whether the node is the one there was, and says the same.
func (x *vnode17) same(n *LatticeNode) bool {
	return n == x.n && vsay17(n).String() == x.String()
}

func vmk17(b, e int, surf, norm, dic, read string, pos, cost int, oov bool) *LatticeNode {
	n := &LatticeNode{}
	n.SetRange(b, e)
	n.SetWordInfo(&dictionary.WordInfo{Surface: surf, HeadwordLength: len(surf), PosId: int16(pos), NormalizedForm: norm, DictionaryForm: dic, ReadingForm: read})
	n.SetParameter(0, 0, int16(cost))
	n.IsOov = oov
	return n
}

// vcase17 cuts the text into morphemes and gives a lattice with some other candidates.
func vcase17(r *vrng, text string, g *dictionary.Grammar, cut int, norm func(s string) string) (*InputText, *[]*LatticeNode, *Lattice, []*vnode17, string) {
	b := NewInputTextBuilder(text, g)
	it := b.Build()
	l := NewLattice(g)
	l.resize(len(it.Bytea))
	rs := []rune(text)
	offs := []int{0}
	for _, ch := range rs {
		offs = append(offs, offs[len(offs)-1]+len(string(ch)))
	}
	path := []*LatticeNode{}
	for i := 0; i < len(rs); {
		k := 1
		for i+k < len(rs) && r.p(cut) {
			k++
		}
		s := string(rs[i : i+k])
		path = append(path, vmk17(offs[i], offs[i+k], s, norm(s), s+"d", strings.ToUpper(s), r.n(4), r.rng(-99, 99), r.p(30)))
		i += k
	}
	cands := ""
	for k := r.n(len(rs) + 1); k > 0; k-- {
		i := r.n(len(rs))
		j := r.rng(i+1, len(rs))
		s := string(rs[i:j])
		for q := r.rng(1, 3); q > 0; q-- {
			n := vmk17(offs[i], offs[j], s, "c"+s, s, s, r.n(4), r.rng(-9, 9), false)
			l.endLists[offs[j]] = append(l.endLists[offs[j]], n)
			cands += fmt.Sprintf("%d..%d %d; ", n.Begin, n.End, n.cost)
		}
	}
	var was []*vnode17
	for _, n := range path {
		was = append(was, vsay17(n))
	}
	if r.p(50) { // room behind the path
		path = append(make([]*LatticeNode, 0, len(path)+r.n(4)), path...)
	}
	return it, &path, l, was, cands
}

func vpath17(p []*LatticeNode) string {
	var ss []string
	for _, n := range p {
		ss = append(ss, vsay17(n).String())
	}
	return strings.Join(ss, " | ")
}

func vwas17(p []*vnode17) string {
	var ss []string
	for _, n := range p {
		ss = append(ss, n.String())
	}
	return strings.Join(ss, " | ")
}

// vjoined17 is the word the range becomes, made from scratch.
func vjoined17(was []*vnode17) *vnode17 {
	x := &vnode17{Begin: was[0].Begin, End: was[len(was)-1].End, Pos: was[0].Pos}
	for _, w := range was {
		x.Surf += w.Surf
		x.Norm += w.Norm
		x.Dic += w.Dic
		x.Read += w.Read
		x.Len += w.Len
	}
	return x
}

// vcheap17 gives the cost of the cheapest candidate with the span.
func vcheap17(l *Lattice, b, e int) (int, bool) {
	best, ok := 0, false
	for _, n := range l.endLists[e] {
		if n.Begin == b && (!ok || int(n.cost) < best) {
			best, ok = int(n.cost), true
		}
	}
	return best, ok
}

// voov17 says whether n is the unknown word (or reused candidate) that the range was[b:e] becomes.
func voov17(l *Lattice, n *LatticeNode, was []*vnode17, pos int) string {
	w := vjoined17(was)
	if c, ok := vcheap17(l, w.Begin, w.End); ok {
		for _, k := range l.endLists[w.End] {
			if k == n && n.Begin == w.Begin && int(n.cost) == c {
				return ""
			}
		}
		return fmt.Sprintf("not the cheapest candidate between %d and %d (cost %d) but %s", w.Begin, w.End, c, vsay17(n))
	}
	g := vsay17(n)
	if g.Surf != w.Surf || g.Norm != w.Surf || g.Dic != w.Surf || g.Len != w.Len || g.Pos != pos || g.Begin != w.Begin || g.End != w.End || !g.Oov {
		return fmt.Sprintf("not the unknown word over %s but %s", vwas17(was), g)
	}
	return ""
}

func TestVerifC17Concat(t *testing.T) {
	vrun(t, "C17", "C17Concat", "texts of 1-9 characters cut at random, up to 9 spans with other candidates, every kind of range, both ways of joining", 60, 0, func(c *vcase) {
		r := c.R
		def, _ := vrandcat(r)
		text := vanytext(r, 9)
		if text == "" {
			text = "a"
		}
		_, path, l, was, cands := vcase17(r, text, vcatGrammar(def), 35, func(s string) string { return s + "n" })
		b := r.n(len(was))
		e := r.rng(b+1, len(was))
		if r.p(5) {
			e = b
		}
		kind := r.n(3)
		c.Input(fmt.Sprintf("path %s; candidates %s; range %d..%d, kind %d", vwas17(was), cands, b, e, kind))
		var n *LatticeNode
		var err error
		pos := r.n(9)
		vpanics17(c, func() {
			switch kind {
			case 0:
				n, err = ConcatenateOov(path, b, e, int16(pos), l)
			case 1:
				n, err = ConcatenateNodes(path, b, e, l, "")
			default:
				n, err = ConcatenateNodes(path, b, e, l, "四二")
			}
		})
		if e == b {
			if err == nil {
				c.Failf("an empty range is joined")
			}
			if len(*path) != len(was) {
				c.Failf("an empty range changes the path")
			}
			c.Trivial()
			return
		}
		if err != nil {
			c.Failf("not joined: %v", err)
		}
		got := *path
		if len(got) != len(was)-(e-b)+1 {
			c.Failf("%d words are left of %d: %s", len(got), len(was), vpath17(got))
		}
		for i, g := range got {
			switch {
			case i < b && !was[i].same(g), i > b && !was[i+e-b-1].same(g):
				c.Failf("word %d outside the range changed: %s", i, vpath17(got))
			case i == b && g != n:
				c.Failf("the node returned is not the one in the path")
			}
		}
		if kind == 0 {
			if m := voov17(l, n, was[b:e], pos); m != "" {
				c.Failf("%s", m)
			}
			return
		}
		w := vjoined17(was[b:e])
		if kind == 2 {
			w.Norm = "四二"
		}
		if g := vsay17(n); g.String() != w.String() {
			c.Failf("joined as %s, want %s", g, w)
		}
	})
}

func vpanics17(c *vcase, f func()) {
	if p := vpanics(f); p != nil {
		c.Failf("panics: %v", p)
	}
}

func TestVerifC17Katakana(t *testing.T) {
	vrun(t, "C17", "C17Katakana", "texts of 1-12 characters, random category definitions, cut at random, unknown and known words, minimal lengths 0-5, other candidates", 60, 0, func(c *vcase) {
		r := c.R
		def := vcatdefault + "0x30E1 NOOOVBOW KATAKANA\n0x30FC NOOOVBOW KATAKANA\n"
		al := []rune("アイーメメアカ漢aあー")
		if r.p(30) {
			def, _ = vrandcat(r)
			al = vcatAlphabet
		}
		rs := []rune{}
		for k := r.rng(1, 12); k > 0; k-- {
			rs = append(rs, al[r.n(len(al))])
		}
		text := string(rs)
		it, path, l, was, cands := vcase17(r, text, vcatGrammar(def), 30, func(s string) string { return s + "n" })
		min := r.n(6)
		p := &JoinKatakanaOovPlugin{minLength: min, oovPosId: 7}
		c.Input(fmt.Sprintf("path %s; candidates %s; minLength %d; categories:\n%s", vwas17(was), cands, min, def))
		kata := make([]bool, len(was))
		bow := make([]bool, len(was))
		for i, w := range was {
			k := it.GetCharCategoryTypesRange(w.Begin, w.End)
			kata[i] = k&128 != 0
			bow[i] = k&32768 == 0
		}
		// the words as they should come out: [b,e) of the words there were
		type span struct{ b, e int }
		var want []span
		for i := 0; i < len(was); {
			if !kata[i] {
				want = append(want, span{i, i + 1})
				i++
				continue
			}
			j := i
			trig := false
			for ; j < len(was) && kata[j]; j++ {
				trig = trig || was[j].Oov || len([]rune(text[was[j].Begin:was[j].End])) < min
			}
			b := i
			for b < j && !bow[b] {
				b++
			}
			if !trig || j-b < 2 {
				b = j
			}
			for k := i; k < b; k++ {
				want = append(want, span{k, k + 1})
			}
			if b < j {
				want = append(want, span{b, j})
			}
			i = j
		}
		var err error
		vpanics17(c, func() { err = p.Rewrite(it, path, l) })
		if err != nil {
			c.Failf("refused: %v", err)
		}
		got := *path
		if len(got) != len(want) {
			c.Failf("%d words, want %d (%v): %s", len(got), len(want), want, vpath17(got))
		}
		for i, s := range want {
			if s.e-s.b == 1 {
				if !was[s.b].same(got[i]) {
					c.Failf("word %d should be left alone: %s", i, vpath17(got))
				}
				continue
			}
			if m := voov17(l, got[i], was[s.b:s.e], 7); m != "" {
				c.Failf("word %d: %s", i, m)
			}
		}
	})
}

func TestVerifC17Numeric(t *testing.T) {
	vrun(t, "C17", "C17Numeric", "paths over numerals and other characters, of up to 30 characters, words of 1-3 characters, with and without normalisation, numerals before and after each other", 60, 0, func(c *vcase) {
		r := c.R
		def := vcatdefault + "0x4E8C KANJINUMERIC KANJI\n0x4E09 KANJINUMERIC KANJI\n0x56DB KANJINUMERIC KANJI\n0x4E94 KANJINUMERIC KANJI\n0x516D KANJINUMERIC KANJI\n0x4E03 KANJINUMERIC KANJI\n0x516B KANJINUMERIC KANJI\n0x4E5D KANJINUMERIC KANJI\n0x3007 KANJINUMERIC\n0x5341 KANJINUMERIC KANJI\n0x767E KANJINUMERIC KANJI\n0x5343 KANJINUMERIC KANJI\n0x4E07 KANJINUMERIC KANJI\n0x5104 KANJINUMERIC KANJI\n0x5146 KANJINUMERIC KANJI\n"
		var rs []rune
		for k := r.rng(1, 3); k > 0; k-- {
			rs = append(rs, vnumGen(r)...)
			for q := r.n(3); q > 0; q-- {
				rs = append(rs, []rune("円あ,.漢")[r.n(5)])
			}
		}
		if len(rs) == 0 {
			rs = []rune("1")
		}
		if len(rs) > 30 {
			rs = rs[:30]
		}
		posNum := 3
		if r.p(50) {
			posNum = -1 // the first words of a numeral are numerals more often than not
		}
		it, path, l, was, cands := vcase17(r, string(rs), vcatGrammar(def), r.n(30), func(s string) string { return s })
		for i, w := range was {
			if posNum < 0 && !r.p(8) || r.p(10) {
				(*path)[i].extraWordInfo.PosId = 3
				w.Pos = 3
			}
		}
		norm := r.p(70)
		p := &JoinNumericPlugin{numericPosId: 3, enableNormalize: norm}
		c.Input(fmt.Sprintf("path %s; candidates %s; normalize %v", vwas17(was), cands, norm))
		num := make([]bool, len(was))
		for i, w := range was {
			k := it.GetCharCategoryTypesRange(w.Begin, w.End)
			num[i] = k&(16|256) != 0 || w.Norm == "," || w.Norm == "."
		}
		cat := func(b, e int) []rune { return []rune(vjoined17(was[b:e]).Norm) }
		var err error
		vpanics17(c, func() { err = p.Rewrite(it, path, l) })
		if err != nil {
			c.Failf("refused: %v", err)
		}
		got := *path
		// whatever was joined is a numeral, the rest is left alone
		at := map[int]*LatticeNode{}
		i := 0
		for k, n := range got {
			if i >= len(was) {
				c.Failf("%d words too many: %s", len(got)-k, vpath17(got))
			}
			b := i
			if was[i].same(n) {
				i++
				at[b*100+i] = n
				continue
			}
			for i < len(was) && was[i].End != n.End {
				i++
			}
			if i == len(was) || n.Begin != was[b].Begin {
				c.Failf("word %d covers no whole words: %s", k, vpath17(got))
			}
			i++
			at[b*100+i] = n
			w := vjoined17(was[b:i])
			g := vsay17(n)
			for q := b; q < i; q++ {
				if !num[q] {
					c.Failf("word %d is joined with others than numerals: %s", k, vpath17(got))
				}
			}
			v, ok := vnumRead(cat(b, i))
			if !ok {
				c.Failf("word %d is joined, but %q is no numeral: %s", k, string(cat(b, i)), vpath17(got))
			}
			if was[b].Pos != 3 {
				c.Failf("word %d is joined, but its first word is no numeral: %s", k, vpath17(got))
			}
			if norm {
				if !vnumDenotes(g.Norm, v) && !(strings.HasPrefix(w.Norm, "0") || strings.HasPrefix(w.Norm, "〇") || g.Norm != "" && g.Norm[0] == '0') {
					c.Failf("word %d (%q) is normalised to %q", k, w.Norm, g.Norm)
				}
				w.Norm = g.Norm
			} else if i-b < 2 {
				c.Failf("word %d is changed, but nothing was joined", k)
			}
			if g.String() != w.String() {
				c.Failf("word %d is %s, want %s", k, g, w)
			}
		}
		if i != len(was) {
			c.Failf("words are missing at the end: %s", vpath17(got))
		}
		// a run that is one numeral (perhaps with one comma or point behind it) is joined
		for b := 0; b < len(was); {
			if !num[b] {
				b++
				continue
			}
			e := b
			for e < len(was) && num[e] {
				e++
			}
			end := e
			if _, ok := vnumRead(cat(b, e)); !ok {
				end = 0
				if x := was[e-1].Norm; e-1 > b && (x == "," || x == ".") && !strings.ContainsAny(string(cat(b, e-1)), ",.") {
					if _, ok := vnumRead(cat(b, e-1)); ok {
						end = e - 1
					}
				}
			}
			if end > 0 && was[b].Pos == 3 && len(cat(b, end)) > 0 {
				n := at[b*100+end]
				if n == nil {
					c.Failf("the numeral %q is not joined: %s", string(cat(b, end)), vpath17(got))
				}
			}
			b = e
		}
	})
}
