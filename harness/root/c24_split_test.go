package gosudachi

//verif:use dict
//verif:use tok
//verif:use src

import "testing"

// Modes A and B against the units the sources list.
func TestVerifC24Split(t *testing.T) {
	vrun(t, "C24", "C24Split", "random dictionaries (user dictionaries too) with words of two or three units, texts made of their words, modes A and B of the tokenizer and of each single morpheme", 40, 0, func(c *vcase) {
		var texts []string
		for k := c.R.rng(1, 3); k > 0; k-- {
			texts = append(texts, vtext(c.R, 8))
		}
		tk := vmakeTok(c, texts)
		for k := 3; k > 0; k-- {
			texts = append(texts, tk.vsrcText(c.R))
		}
		c.Input(vtokIn{tk, texts, nil})
		tok := tk.mk()
		some := false
		for _, text := range texts {
			ml, err := tok.Tokenize("C", text)
			if err != nil {
				continue
			}
			whole := vdump(ml)
			for _, mode := range []string{"A", "B"} {
				cut, err := tk.mk().Tokenize(mode, text)
				if err != nil {
					c.Failf("mode %s of %q: %v", mode, text, err)
					return
				}
				got := vdump(cut)
				at := 0
				for i, m := range whole {
					var us [][2]int
					if m.Did >= 0 {
						f := tk.vsrc(m.Did, m.Wid&0xfffffff)
						if f == nil {
							c.Failf("%q: no such word: %s", text, vword25(m))
							return
						}
						_, _, _, units := ventry(f)
						us = units[mode]
					}
					single := vdump(ml.Get(i).Split(mode))
					if len(us) < 2 {
						us = nil
						if len(single) != 1 || single[0] != m {
							c.Failf("%q: morpheme %s split alone in mode %s gives %v", text, vword25(m), mode, single)
							return
						}
						if at >= len(got) || got[at] != m {
							c.Failf("%q: in mode %s morpheme %s is not kept: %v", text, mode, vword25(m), got)
							return
						}
						at++
						continue
					}
					some = true
					if len(single) != len(us) || at+len(us) > len(got) {
						c.Failf("%q: morpheme %s has units %v in mode %s, alone it gives %v, the text %v", text, vword25(m), us, mode, single, got)
						return
					}
					begin := m.B
					for k, u := range us {
						x := got[at]
						at++
						if x != single[k] {
							c.Failf("%q mode %s: unit %d of %s is %s in the text and %s alone", text, mode, k, vword25(m), vword25(x), vword25(single[k]))
							return
						}
						read, norm, pos, _ := ventry(tk.vsrc(u[0], u[1]))
						if x.Did != u[0] || x.Wid != u[0]<<28|u[1] || x.Read != read || x.Norm != norm || x.Pos != pos || x.Oov || x.B != begin {
							c.Failf("%q mode %s: unit %d of %s is %s, expected word %v at %d, %s %s %s", text, mode, k, vword25(m), vword25(x), u, begin, read, norm, pos)
							return
						}
						if len(tk.In) == 0 && x.Surf != tk.vsrc(u[0], u[1])[0] {
							c.Failf("%q mode %s: unit %s should be %q", text, mode, vword25(x), tk.vsrc(u[0], u[1])[0])
							return
						}
						begin = x.E
					}
					if begin != m.E {
						c.Failf("%q mode %s: the units of %s end at %d", text, mode, vword25(m), begin)
						return
					}
				}
				if at != len(got) {
					c.Failf("%q mode %s: %d morphemes, expected %d: %v", text, mode, len(got), at, got)
					return
				}
			}
			for i, m := range whole {
				if x := vdump(ml.Get(i).Split("C")); len(x) != 1 || x[0] != m {
					c.Failf("%q: morpheme %s split alone in mode C gives %v", text, vword25(m), x)
					return
				}
			}
		}
		if !some {
			c.Trivial()
		}
	})
}
