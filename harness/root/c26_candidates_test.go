package gosudachi

//verif:use dict
//verif:use tok
//verif:use src

import (
	"fmt"
	"strconv"
	"strings"
	"testing"

	"github.com/msnoigrs/gosudachi/dictionary"
)

type vcand26 struct {
	B, E, L, R, Cost int
	What             string // the word's id, or the unknown word's text and part of speech
}

func vnode26(n *LatticeNode, b, e int) vcand26 {
	x := vcand26{b, e, int(n.leftId), int(n.rightId), int(n.cost), fmt.Sprint("word ", uint32(n.wordId))}
	if n.IsOov {
		wi := n.GetWordInfo()
		x.What = fmt.Sprintf("unknown %q %d", wi.Surface, wi.PosId)
	}
	return x
}

// A provider that proposes up to max words, of n characters and more, when the flag is as it likes (0, 1: that value; 2, 3: any).
type vprov26 struct {
	When, N, Max, Id, Cost int
}

func (p *vprov26) GetConfigStruct() interface{}      { return nil }
func (p *vprov26) SetUp(g *dictionary.Grammar) error { return nil }
func (p *vprov26) ProvideOOV(in *InputText, offset int, has bool) ([]*LatticeNode, error) {
	if p.When == 0 && has || p.When == 1 && !has {
		return nil, nil
	}
	var ns []*LatticeNode
	for k := 0; k < p.Max; k++ {
		s := []rune(in.GetSubstring(offset, len(in.Bytea)))
		if len(s) < p.N+k {
			break
		}
		w := string(s[:p.N+k])
		n := CreateNodeOfOOV()
		n.SetParameter(int16(p.Id), int16(p.Id), int16(p.Cost+k))
		n.SetWordInfo(&dictionary.WordInfo{Surface: w, HeadwordLength: len(w), NormalizedForm: w, DictionaryForm: w})
		ns = append(ns, n)
	}
	return ns, nil
}

// The segmentation of a text against the minimum over the words of the sources and the unknown words proposed.
func TestVerifC26Candidates(t *testing.T) {
	vrun(t, "C26", "C26Candidates", "random dictionaries (user dictionaries too), input plugins and 0-2 unknown-word providers, texts made of the dictionary's words and of others; mode C without path plugins", 40, 0, func(c *vcase) {
		r := c.R
		var texts []string
		for k := r.rng(1, 3); k > 0; k-- {
			texts = append(texts, vtext(r, 8))
		}
		tk := vmakeTok(c, texts)
		tk.Path = nil
		if r.p(20) {
			tk.Oov = nil
		} else if r.p(20) {
			tk.Oov = []string{"mecab"}
		}
		texts = append(texts, tk.vsrcText(r))
		var more []string
		d := tk.dict()
		if r.p(50) { // providers from elsewhere, before, between or after those of the repository
			for k := r.rng(1, 2); k > 0; k-- {
				x := &vprov26{r.n(4), r.rng(1, 3), r.rng(1, 2), r.n(tk.Ids), r.rng(-500, 9000)}
				ps := d.oovProviderPlugins
				at := r.n(len(ps) + 1)
				d.oovProviderPlugins = append(append(append([]OovProviderPlugin{}, ps[:at]...), x), ps[at:]...)
				more = append(more, fmt.Sprintf("%+v at %d", *x, at))
			}
		}
		c.Input(map[string]interface{}{"tokenizer": vtokIn{tk, texts, nil}, "further providers": more})
		tok := d.Create()
		g := d.grammar
		for _, text := range texts {
			if text == "" {
				continue
			}
			// the text words are looked up in
			b := NewInputTextBuilder(text, g)
			for _, p := range d.inputTextPlugins {
				if err := p.Rewrite(b); err != nil {
					panic(err)
				}
			}
			in := b.Build()
			s := string(in.Bytea)
			var cands []vcand26
			ends := map[int]bool{0: true}
			bad := -1
			for i := 0; i < len(s) && bad < 0; i++ {
				if !in.CanBow(i) || !ends[i] {
					continue
				}
				has := false
				add := func(x vcand26) {
					has = true
					ends[x.E] = true
					cands = append(cands, x)
				}
				for dict, src := range []string{tk.Lex, tk.User} {
					for id, l := range strings.Split(strings.TrimSuffix(src, "\n"), "\n") {
						f := strings.Split(l, ",")
						if len(f) < 18 || !strings.HasPrefix(s[i:], f[0]) {
							continue
						}
						n := func(k int) int {
							x, err := strconv.Atoi(f[k])
							if err != nil {
								panic(err)
							}
							return x
						}
						if n(1) >= 0 {
							add(vcand26{i, i + len(f[0]), n(1), n(2), n(3), fmt.Sprint("word ", dict<<28|id)})
						}
					}
				}
				ask := func(p OovProviderPlugin) {
					ns, err := p.ProvideOOV(in, i, has)
					if err != nil {
						panic(err)
					}
					for _, n := range ns {
						add(vnode26(n, i, i+n.GetWordInfo().HeadwordLength))
					}
				}
				if in.GetCharCategoryTypes(i)&dictionary.NOOOVBOW == 0 {
					for _, p := range d.oovProviderPlugins {
						ask(p)
					}
				}
				if !has && len(d.oovProviderPlugins) > 0 {
					ask(d.oovProviderPlugins[0])
				}
				if !has {
					bad = i
				}
			}
			ml, err := tok.Tokenize("C", text)
			if bad >= 0 {
				if err == nil {
					c.Failf("%q: a result although no word stands at byte %d", text, bad)
					return
				}
				continue
			}
			conn := func(l, r int) (int, bool) {
				x := g.GetConnectCost(int16(l), int16(r))
				return int(x), x != dictionary.InhibitedConnection
			}
			const inf = int(1) << 60
			best := make([]int, len(cands))
			min := inf
			for i, x := range cands { // sorted by begin
				best[i] = inf
				if k, ok := conn(0, x.L); x.B == 0 && ok {
					best[i] = k + x.Cost
				}
				for j, y := range cands[:i] {
					if k, ok := conn(y.R, x.L); y.E == x.B && best[j] < inf && ok && best[j]+k+x.Cost < best[i] {
						best[i] = best[j] + k + x.Cost
					}
				}
				if k, ok := conn(x.R, 0); x.E == len(s) && ok && best[i] < inf && best[i]+k < min {
					min = best[i] + k
				}
			}
			if (err == nil) != (min < inf) {
				c.Failf("%q: error %v, the minimum is %d (%d means none)", text, err, min, inf)
				return
			}
			if err != nil {
				continue
			}
			set := map[vcand26]bool{}
			for _, x := range cands {
				set[x] = true
			}
			sum, last, at := 0, 0, 0
			for _, n := range ml.path {
				x := vnode26(n, n.Begin, n.End)
				if !set[x] {
					c.Failf("%q: %+v is none of the candidates %+v", text, x, cands)
					return
				}
				if x.B != at {
					c.Failf("%q: %+v follows byte %d", text, x, at)
					return
				}
				k, ok := conn(last, x.L)
				if !ok {
					c.Failf("%q: inhibited connection before %+v", text, x)
					return
				}
				sum += k + x.Cost
				last, at = x.R, x.E
			}
			k, ok := conn(last, 0)
			if !ok || at != len(s) {
				c.Failf("%q: the segmentation ends at byte %d of %d", text, at, len(s))
				return
			}
			if sum+k != min {
				c.Failf("%q: a segmentation of cost %d, the minimum is %d; candidates %+v", text, sum+k, min, cands)
				return
			}
		}
	})
}
