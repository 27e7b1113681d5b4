package gosudachi

//verif:use cat
//verif:use dict
//verif:use tok

import (
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"
)

type voovIn struct {
	Def, Char, Unk, Text string
	Pos                  int
	Other                bool
}

type voovEntry struct{ l, r, c, p int }

// vgrammarPos gives a grammar that has the parts of speech of vpos and their ids.
var vg18img []byte

func vpos18() []byte {
	if vg18img == nil {
		var ws []vword
		for i, p := range vpos {
			ws = append(ws, vword{head: fmt.Sprintf("zz%d", i), surface: fmt.Sprintf("zz%d", i), pos: p, reading: "ゼ", norm: "z", dicform: "*", mode: "A", a: "*", b: "*", ws: "*"})
		}
		b, err := vsysdict(vlines(ws), vmatrix(1, 1, func(i, j int) int { return 0 }), false)
		if err != nil {
			panic(err)
		}
		vg18img = b
	}
	return vg18img
}

func vword18(n *LatticeNode) string {
	wi := n.GetWordInfo()
	return fmt.Sprintf("%q len %d ids %d/%d cost %d pos %d norm %q dict %q reading %q oov %v", wi.Surface, wi.HeadwordLength, n.leftId, n.rightId, n.cost, wi.PosId, wi.NormalizedForm, wi.DictionaryForm, wi.ReadingForm, n.IsOov)
}

func vwant18(s string, e voovEntry) string {
	return fmt.Sprintf("%q len %d ids %d/%d cost %d pos %d norm %q dict %q reading %q oov %v", s, len(s), e.l, e.r, e.c, e.p, s, s, "", true)
}

func TestVerifC18Mecab(t *testing.T) {
	vrun(t, "C18", "C18Mecab", "texts of 1-10 characters, random category definitions, unknown-word definitions over them (0-3 entries, prefix lengths 0-4), every character, with and without other words", 50, 0, func(c *vcase) {
		r := c.R
		def, cats := vrandcat(r)
		text := vanytext(r, 10)
		if text == "" {
			text = "あ"
		}
		type info struct {
			invoke, group bool
			n             int
			es            []voovEntry
		}
		infos := map[uint32]*info{}
		var char, unk strings.Builder
		for _, name := range vcatNames {
			if r.p(35) {
				continue
			}
			x := &info{r.p(50), r.p(50), r.n(5), nil}
			infos[vcatBits[name]] = x
			b := map[bool]int{true: 1}
			fmt.Fprintf(&char, "%s %d %d %d\n", name, b[x.invoke], b[x.group], x.n)
			if r.p(15) {
				char.WriteString("# nothing\n\n0x0041..0x0042 ALPHA\n")
			}
		}
		for k := r.n(20); k > 0; k-- {
			name := vcatNames[r.n(len(vcatNames))]
			x := infos[vcatBits[name]]
			if x == nil {
				continue
			}
			e := voovEntry{r.rng(-5, 300), r.rng(0, 300), r.rng(-32768, 32767), r.n(4)}
			x.es = append(x.es, e)
			fmt.Fprintf(&unk, "%s,%d,%d,%d,%s\n", name, e.l, e.r, e.c, strings.Join(vpos[e.p][:], ","))
		}
		cf := vscratchFile("c18-char.def", []byte(char.String()))
		uf := vscratchFile("c18-unk.def", []byte(unk.String()))
		g, _ := vload(vpos18(), false)
		g.CharCategory = vcatGrammar(def).CharCategory
		p := NewMeCabOovProviderPlugin(&MeCabOovProviderPluginConfig{CharDef: &cf, UnkDef: &uf})
		in := voovIn{Def: def, Char: char.String(), Unk: unk.String(), Text: text}
		if err := p.SetUp(g); err != nil {
			c.Input(in)
			c.Failf("definitions refused: %v", err)
			return
		}
		it := NewInputTextBuilder(text, g).Build()
		rs := []rune(text)
		pos := make([]int, len(rs)+1)
		for i, ch := range rs {
			pos[i+1] = pos[i] + utf8.RuneLen(ch)
		}
		runEnd := make([]int, len(rs))
		for i := 0; i < len(rs); {
			and := cats(rs[i])
			j := i + 1
			for j < len(rs) && and&cats(rs[j]) != 0 {
				and &= cats(rs[j])
				j++
			}
			for k := i; k < j; k++ {
				runEnd[k] = j
			}
			i = j
		}
		for i := range rs {
			for _, other := range []bool{false, true} {
				in.Pos, in.Other = pos[i], other
				c.Input(in)
				var want []string
				for bit := uint32(1); bit <= 32768; bit *= 2 {
					x := infos[bit]
					if cats(rs[i])&bit == 0 || x == nil || (!x.invoke && other) {
						continue
					}
					end := runEnd[i]
					if x.group {
						for _, e := range x.es {
							want = append(want, vwant18(text[pos[i]:pos[end]], e))
						}
						end--
					}
					for k := 1; k <= x.n && i+k <= end; k++ {
						for _, e := range x.es {
							want = append(want, vwant18(text[pos[i]:pos[i+k]], e))
						}
					}
				}
				nodes, err := p.ProvideOOV(it, pos[i], other)
				if err != nil {
					c.Failf("error %v", err)
					return
				}
				var got []string
				for _, n := range nodes {
					got = append(got, vword18(n))
				}
				if strings.Join(vsorted(got), "\n") != strings.Join(vsorted(want), "\n") {
					c.Failf("proposes\n%s\nexpected\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
					return
				}
			}
		}
	})
}

func vsorted(xs []string) []string {
	ys := append([]string{}, xs...)
	for i := range ys {
		for j := i; j > 0 && ys[j] < ys[j-1]; j-- {
			ys[j], ys[j-1] = ys[j-1], ys[j]
		}
	}
	return ys
}

func TestVerifC18Simple(t *testing.T) {
	vrun(t, "C18", "C18Simple", "texts of 1-10 characters, every character, with and without other words; through GetOOV also the span", 50, 0, func(c *vcase) {
		r := c.R
		text := vanytext(r, 10)
		if text == "" {
			text = "😀"
		}
		e := voovEntry{r.rng(-300, 300), r.rng(-300, 300), r.rng(-32768, 32767), r.n(4)}
		in := voovIn{Text: text, Unk: fmt.Sprint(e)}
		c.Input(in)
		g, _ := vload(vpos18(), false)
		g.CharCategory = vcatGrammar(vcatdefault).CharCategory
		ps := append([]string{}, vpos[e.p][:]...)
		l, rr, cc := int16(e.l), int16(e.r), int16(e.c)
		p := NewSimpleOovProviderPlugin(&SimpleOovProviderPluginConfig{OovPos: &ps, LeftId: &l, RightId: &rr, Cost: &cc})
		if err := p.SetUp(g); err != nil {
			c.Failf("set-up failed: %v", err)
			return
		}
		it := NewInputTextBuilder(text, g).Build()
		b := 0
		for _, ch := range text {
			n := utf8.RuneLen(ch)
			in.Pos = b
			c.Input(in)
			ns, err := GetOOV(p, it, b, true)
			if err != nil || len(ns) != 0 {
				c.Failf("%d words where there are other words (%v)", len(ns), err)
				return
			}
			ns, err = GetOOV(p, it, b, false)
			if err != nil || len(ns) != 1 {
				c.Failf("%d words where there is no other (%v)", len(ns), err)
				return
			}
			if got, want := vword18(ns[0]), vwant18(text[b:b+n], e); got != want {
				c.Failf("proposes %s, expected %s", got, want)
			}
			if ns[0].GetBegin() != b || ns[0].GetEnd() != b+n {
				c.Failf("word at [%d,%d), expected [%d,%d)", ns[0].GetBegin(), ns[0].GetEnd(), b, b+n)
			}
			b += n
		}
	})
}

// Definitions that cannot be read are refused, others are not.
func TestVerifC18SetUp(t *testing.T) {
	vrun(t, "C18", "C18SetUp", "category and unknown-word definitions with one broken line at a random place (or none), settings of the simple provider with one missing or wrong", 100, 0, func(c *vcase) {
		r := c.R
		g, _ := vload(vpos18(), false)
		good := strings.Join(vpos[r.n(4)][:], ",")
		if r.p(35) {
			ps := append([]string{}, vpos[r.n(4)][:]...)
			l, rr, cc := int16(r.rng(-3, 300)), int16(r.rng(-3, 300)), int16(r.rng(-32768, 32767))
			cfg := &SimpleOovProviderPluginConfig{OovPos: &ps, LeftId: &l, RightId: &rr, Cost: &cc}
			broken := r.n(8)
			switch broken {
			case 0:
				cfg.OovPos = nil
			case 1:
				cfg.LeftId = nil
			case 2:
				cfg.RightId = nil
			case 3:
				cfg.Cost = nil
			case 4:
				ps = []string{}
			case 5:
				ps[r.n(6)] += "x"
			case 6:
				ps = ps[:5]
			}
			c.Input(fmt.Sprintf("simple provider, broken %d (7: nothing) %v", broken, ps))
			err := NewSimpleOovProviderPlugin(cfg).SetUp(g)
			if (err == nil) != (broken == 7) {
				c.Failf("set-up gave %v", err)
			}
			return
		}
		char := []string{"DEFAULT 0 1 0", "ALPHA 1 1 2", "# KANJI", "", "KANJI 0 0 3", "0x0041 ALPHA"}
		unk := []string{"DEFAULT,1,2,3," + good, "KANJI,-1,0,-32768," + good, "ALPHA,32767,32767,32767," + good}
		for i := range unk {
			if r.p(20) {
				unk[i] += ",more"
			}
		}
		put := func(ls []string, x string) []string {
			i := r.n(len(ls) + 1)
			ys := append([]string{}, ls[:i]...)
			return append(append(ys, x), ls[i:]...)
		}
		ok, what := false, ""
		switch r.n(3) {
		case 0:
			what = vpickS(r, "GREEK 1 1", "GREEK", "GREKK 1 1 1", "KANJI 0 0 3", "GREEK 1 1 x", "GREEK 1 1 1.5", "0 1 1 1")
			char = put(char, what)
		case 1:
			n := fmt.Sprint(vpickI(r, 32768, -32769, 65535, 100000, 65536, 99999999999))
			if r.p(30) {
				n = vpickS(r, "", "x", "1.5", "0x10", "1 ")
			}
			k := r.n(8)
			switch k {
			case 0:
				what = "KANJI," + n + ",0,0," + good
			case 1:
				what = "KANJI,0," + n + ",0," + good
			case 2:
				what = "KANJI,0,0," + n + "," + good
			case 3:
				what = "KANJI,0,0,0,a,b,c,d,e,f"
			case 4:
				what = "KANJI,0,0,0,a,b,c,d,e"
			case 5:
				what = "KANJII,0,0,0," + good
			case 6:
				what = "GREEK,0,0,0," + good
			case 7:
				what = "KANJI,0,0,0," + strings.Join(strings.Split(good, ",")[:5], ",")
			}
			unk = put(unk, what)
		default:
			ok = true
		}
		cf := vscratchFile("c18s-char.def", []byte(strings.Join(char, "\n")+"\n"))
		uf := vscratchFile("c18s-unk.def", []byte(strings.Join(unk, "\n")+"\n"))
		if r.p(5) {
			ok, what = false, "no char.def"
			cf += "-not-there"
		} else if r.p(5) {
			ok, what = false, "no unk.def"
			uf += "-not-there"
		}
		c.Input(fmt.Sprintf("broken %q (set-up should succeed: %v) in %q %q", what, ok, char, unk))
		err := NewMeCabOovProviderPlugin(&MeCabOovProviderPluginConfig{CharDef: &cf, UnkDef: &uf}).SetUp(g)
		if (err == nil) != ok {
			c.Failf("set-up gave %v", err)
		}
	})
}
