package gosudachi

//verif:use dict
//verif:use tok

import (
	"fmt"
	"os"
	"testing"
)

var v15seq int

func TestVerifC15Cost(t *testing.T) {
	vrun(t, "C15", "C15Cost", "a random dictionary set-up, one to three user dictionaries loaded in turn, words marked for the automatic cost among others; every parameter before and after", 25, 0, func(c *vcase) {
		defer vquiet()()
		r := c.R
		texts := []string{vtext(r, 12), vtext(r, 12)}
		tk := vmakeTok(c, texts)
		tk.user = nil
		if r.p(40) {
			// costs that leave the 16-bit range
			var ws []vword
			for _, s := range []string{"あ", "い", "ー", "一", "ア", "漢", "a"} {
				ws = append(ws, vword{head: s, surface: s, left: r.n(tk.Ids), right: r.n(tk.Ids), cost: vpickI(r, 32767, -32767, 32767, -32767, 32760, -32760, 0), pos: vpos[0], reading: "ヨ", norm: s, dicform: "*", mode: "A", a: "*", b: "*", ws: "*"})
			}
			img, err := vsysdict(vlines(ws)+tk.Lex, vmatrix(tk.Ids, tk.Ids, func(i, j int) int { return vpickI(r, 0, 5, -5, 32766, -32768) }), tk.Utf16)
			if err == nil {
				tk.img = img
				tk.Lex = vlines(ws) + tk.Lex
			}
		}
		d := tk.dict()
		var files []string
		defer func() {
			d.Close()
			for _, f := range files {
				os.Remove(f)
			}
		}()
		g, l := vload(tk.img, tk.Utf16)
		src := fmt.Sprintf("oov %v in %v path %v\n%s", tk.Oov, tk.In, tk.Path, tk.Lex)
		auto := 0
		for u := r.rng(1, 3); u > 0; u-- {
			var us []vword
			for k := r.rng(1, 5); k > 0; k-- {
				s := vcut(r, texts[r.n(2)], 8)
				if r.p(20) {
					s = vpickS(r, "あい", "ああああ", "一ア", "漢", "aーい", "xyz", "い")
				}
				if !vokWord(s) {
					continue
				}
				w := vword{head: s, left: r.n(tk.Ids), right: r.n(tk.Ids), cost: vpickI(r, -32768, -32768, -32768, -32767, 0, 32767, 5), surface: s, pos: vpos[r.n(4)], reading: "ユ", norm: s, dicform: "*", mode: "A", a: "*", b: "*", ws: "*"}
				if r.p(20) {
					w.surface = vpickS(r, "い", "漢字", "アア", "ab")
				}
				us = append(us, w)
			}
			if len(us) == 0 {
				continue
			}
			src += fmt.Sprintf("user %d:\n%s", len(files)+1, vlines(us))
			c.Input(src)
			img, err := vuserdict(vlines(us), g, l, tk.Utf16)
			if err != nil {
				c.Failf("user source refused: %v", err)
			}
			v15seq++
			f := vscratchFile(fmt.Sprintf("c15-%d.dic", v15seq), img)
			files = append(files, f)
			// what the words cost, by their segmentation with the dictionaries before
			want := make([]int, len(us))
			type pk struct{ a, b, k int16 }
			before := map[int32]pk{}
			for x := int32(0); x < l.Size(); x++ {
				before[x] = pk{d.lexicon.GetLeftId(x), d.lexicon.GetRightId(x), d.lexicon.GetCost(x)}
			}
			bad := false
			for i, w := range us {
				want[i] = w.cost
				if w.cost != -32768 {
					continue
				}
				auto++
				tz := NewJapaneseTokenizer(d.grammar, d.lexicon, d.inputTextPlugins, d.oovProviderPlugins, []PathRewritePlugin{})
				ms, err := tz.Tokenize("C", w.surface)
				if err != nil {
					bad = true
					break
				}
				path := ms.path
				k := 0
				if len(path) > 0 {
					k = int(path[len(path)-1].cost) - int(path[0].cost)
				}
				k -= 20 * len(path)
				if g := ms.GetInternalCost() - 20*ms.Length(); g != k {
					c.Failf("%q: GetInternalCost() - 20*Length() = %d, want %d", w.surface, g, k)
				}
				if k > 32767 {
					k = 32767
				} else if k < -32768 {
					k = -32768
				}
				want[i] = k
			}
			ld := len(d.dictionaries) + 1
			err = d.ReadUserDictionary(f, tk.Utf16)
			if bad {
				if err == nil {
					c.Failf("ReadUserDictionary succeeds although a word has no segmentation")
				}
				return
			}
			if err != nil {
				c.Failf("ReadUserDictionary: %v", err)
			}
			for i, w := range us {
				id := int32(uint32(ld)<<28 | uint32(i))
				if a, b, k := d.lexicon.GetLeftId(id), d.lexicon.GetRightId(id), d.lexicon.GetCost(id); int(a) != w.left || int(b) != w.right || int(k) != want[i] {
					c.Failf("word %d (%q) of user dictionary %d has parameters %d %d %d, want %d %d %d", i, w.surface, ld, a, b, k, w.left, w.right, want[i])
				}
				if wi := d.lexicon.GetWordInfo(id); wi.Surface != w.surface || wi.ReadingForm != w.reading {
					c.Failf("word %d of user dictionary %d reads %q %q, want %q %q", i, ld, wi.Surface, wi.ReadingForm, w.surface, w.reading)
				}
			}
			for x, p := range before {
				if q := (pk{d.lexicon.GetLeftId(x), d.lexicon.GetRightId(x), d.lexicon.GetCost(x)}); q != p {
					c.Failf("system word %d has parameters %v, before loading %v", x, q, p)
				}
			}
			got, err := os.ReadFile(f)
			if err != nil || string(got) != string(img) {
				c.Failf("the dictionary file changed by loading it")
			}
		}
		if auto == 0 {
			c.Trivial()
		}
	})
}
