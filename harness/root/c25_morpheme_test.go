package gosudachi

//verif:use dict
//verif:use tok
//verif:use src

import (
	"strings"
	"testing"

	"github.com/msnoigrs/gosudachi/dictionary"
)

// What morphemes say against the source lines of their words.
func TestVerifC25Morpheme(t *testing.T) {
	vrun(t, "C25", "C25Morpheme", "random dictionaries (user dictionaries too) and plugins, texts made of their words and of others, modes A, B, C; every accessor read twice, in turn", 40, 0, func(c *vcase) {
		var texts []string
		for k := c.R.rng(1, 3); k > 0; k-- {
			texts = append(texts, vtext(c.R, 10))
		}
		tk := vmakeTok(c, texts)
		for k := 2; k > 0; k-- {
			texts = append(texts, tk.vsrcText(c.R))
		}
		c.Input(vtokIn{tk, texts, nil})
		tok := tk.mk()
		var kept []*MorphemeList
		var said [][]vmorph
		for _, text := range texts {
			for _, mode := range []string{"A", "B", "C"} {
				ml, err := tok.Tokenize(mode, text)
				if err != nil {
					continue
				}
				ms := vdump(ml)
				kept, said = append(kept, ml), append(said, ms)
				for i, m := range ms {
					if x := ml.Get(i); x.ReadingForm() != m.Read || x.NormalizedForm() != m.Norm || x.DictionaryForm() != m.Dict || x.ReadingForm() != m.Read || strings.Join(x.PartOfSpeech(), ",") != m.Pos || x.GetWordInfo() != x.GetWordInfo() {
						c.Failf("%q mode %s: reading a morpheme again changes it: %s", text, mode, vword25(m))
						return
					}
					if m.Did < 0 { // unknown or joined
						if m.Oov && (m.Wid != 0 || m.Norm != m.Dict || m.Read != "") {
							c.Failf("%q mode %s: unknown word %s", text, mode, vword25(m))
							return
						}
						if m.Oov && len(tk.In) == 0 && (!tk.odd || len(tk.Path) == 0) && m.Norm != m.Surf {
							c.Failf("%q mode %s: unknown word %s", text, mode, vword25(m))
							return
						}
						continue
					}
					if m.Did > 1 || m.Wid>>28 != m.Did {
						c.Failf("%q mode %s: dictionary and word id: %s", text, mode, vword25(m))
						return
					}
					f := tk.vsrc(m.Did, m.Wid&0xfffffff)
					if f == nil || m.Oov {
						c.Failf("%q mode %s: no such word: %s", text, mode, vword25(m))
						return
					}
					read, norm, pos, _ := ventry(f)
					if m.Read != read || m.Norm != norm || m.Pos != pos || m.Dict != f[4] {
						c.Failf("%q mode %s: morpheme %s, its line is %v", text, mode, vword25(m), f)
						return
					}
					if len(tk.In) == 0 && m.Surf != f[0] {
						c.Failf("%q mode %s: morpheme %s, the word's key is %q", text, mode, vword25(m), f[0])
						return
					}
				}
			}
		}
		// later calls leave earlier results alone
		for i := range kept {
			now := vdump(kept[i])
			if len(now) != len(said[i]) {
				c.Failf("a later call changed an earlier result")
				return
			}
			for k := range now {
				if now[k] != said[i][k] {
					c.Failf("a later call changed %s to %s", vword25(said[i][k]), vword25(now[k]))
					return
				}
			}
		}
	})
}

// Dictionary ids with as many user dictionaries as fit.
func TestVerifC25Many(t *testing.T) {
	vrun(t, "C25", "C25Many", "a system and up to 15 small user dictionaries, a text of words of random ones", 6, 0, func(c *vcase) {
		r := c.R
		one := func(s string, cost int) vword {
			return vword{head: s, cost: cost, surface: s, pos: vpos[0], reading: s + "よ", norm: s, dicform: "*", mode: "A", a: "*", b: "*", ws: "*"}
		}
		img, err := vsysdict(vlines([]vword{one("s", 10), one("東", 10)}), vmatrix(1, 1, func(i, j int) int { return 0 }), false)
		if err != nil {
			panic(err)
		}
		g, l := vload(img, false)
		g.CharCategory = dictionary.NewCharacterCategory()
		if err := g.CharCategory.ReadCharacterDefinition(strings.NewReader(vchardef)); err != nil {
			panic(err)
		}
		set := dictionary.NewLexiconSet(l)
		n := r.rng(1, 15)
		for d := 1; d <= n; d++ {
			u, err := vuserdict(vlines([]vword{one("zz", 10), one(string(rune(0x4E10+d)), 10)}), g, l, false)
			if err != nil {
				panic(err)
			}
			_, ul := vload(u, false)
			set.Add(ul, int32(g.GetPartOfSpeechSize()))
		}
		tok := NewJapaneseTokenizer(g, set, nil, nil, nil)
		var want []int
		text := ""
		for k := r.rng(1, 6); k > 0; k-- {
			d := r.n(n + 1)
			if r.p(40) {
				d = n
			}
			want = append(want, d)
			if d == 0 {
				text += "東"
			} else {
				text += string(rune(0x4E10 + d))
			}
		}
		c.Input(map[string]interface{}{"user dictionaries": n, "text": text})
		ml, err := tok.Tokenize(vpickS(r, "A", "B", "C"), text)
		if err != nil {
			c.Failf("%v", err)
			return
		}
		ms := vdump(ml)
		if len(ms) != len(want) {
			c.Failf("%v", ms)
			return
		}
		for i, m := range ms {
			if m.Did != want[i] || m.Wid != want[i]<<28|1 || m.Read != m.Surf+"よ" || m.Oov {
				c.Failf("%s should be word 1 of dictionary %d", vword25(m), want[i])
				return
			}
		}
	})
}
