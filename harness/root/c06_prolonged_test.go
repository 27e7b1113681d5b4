package gosudachi

//verif:use cat

import "testing"

type vprolIn struct {
	Marks       []string
	Symbol, Txt string
}

func TestVerifC06Prolonged(t *testing.T) {
	vrun(t, "C06", "C06Prolonged", "1-4 configured marks, replacement of 0-3 characters, texts of 0-16 characters rich in marks", 50, 0, func(c *vcase) {
		r := c.R
		pool := []rune("ー-〜ｰ〰𠮟")
		var marks []string
		isMark := map[rune]bool{}
		for k := r.rng(1, 4); k > 0; k-- {
			m := pool[r.n(len(pool))]
			s := string(m)
			if r.p(10) {
				s += "x"
			}
			marks = append(marks, s)
			isMark[m] = true
		}
		sym := vpickS(r, "ー", "-", "〜", "ab", "ーー", "", "xyz", "𠮟")
		var text []rune
		for k := r.n(17); k > 0; k-- {
			if r.p(65) {
				text = append(text, pool[r.n(len(pool))])
			} else {
				text = append(text, []rune("あxé")[r.n(3)])
			}
		}
		c.Input(vprolIn{marks, sym, string(text)})
		p := NewProlongedSoundMarkInputTextPlugin(&ProlongedSoundMarkInputTextPluginConfig{ProlongedSoundMarks: &marks, ReplacementSymbol: &sym})
		if err := p.SetUp(); err != nil {
			c.Failf("SetUp: %v", err)
		}
		for round := 0; round < 2; round++ {
			b := NewInputTextBuilder(string(text), vcatGrammar(vcatdefault))
			if err := p.Rewrite(b); err != nil {
				c.Failf("Rewrite: %v", err)
			}
			var want []rune
			for i := 0; i < len(text); {
				j := i
				for j < len(text) && isMark[text[j]] {
					j++
				}
				if j-i >= 2 {
					want = append(want, []rune(sym)...)
				} else {
					if j == i {
						j++
					}
					want = append(want, text[i:j]...)
				}
				i = j
			}
			if string(b.GetText()) != string(want) {
				c.Failf("text %q became %q, expected %q", string(text), string(b.GetText()), string(want))
			}
		}
	})
}
