package gosudachi

//verif:use dict
//verif:use tok

import "testing"

func vtileCheck(c *vcase, what string, text string, ml *MorphemeList, begin, end int) {
	rs := []rune(text)
	at := begin
	all := ""
	for i := 0; i < ml.Length(); i++ {
		m := ml.Get(i)
		if m.Begin() != at {
			c.Failf("%s: morpheme %d begins at %d, expected %d: %+v", what, i, m.Begin(), at, vdump(ml))
		}
		if m.End() < m.Begin() || m.End() > len(rs) {
			c.Failf("%s: morpheme %d ends at %d (begin %d, text length %d)", what, i, m.End(), m.Begin(), len(rs))
		}
		if m.Surface() != string(rs[m.Begin():m.End()]) {
			c.Failf("%s: morpheme %d has surface %q, text %q", what, i, m.Surface(), string(rs[m.Begin():m.End()]))
		}
		all += m.Surface()
		at = m.End()
	}
	if at != end {
		c.Failf("%s: the last morpheme ends at %d, expected %d: %+v", what, at, end, vdump(ml))
	}
	if all != string(rs[begin:end]) {
		c.Failf("%s: surfaces give %q, text is %q", what, all, string(rs[begin:end]))
	}
}

func TestVerifC02Tile(t *testing.T) {
	vrun(t, "C02", "C02Tile", "random dictionaries, plugins and texts of 0-14 characters, modes A, B, C and splits of each morpheme", 20, 0, func(c *vcase) {
		var texts []string
		for k := c.R.rng(1, 4); k > 0; k-- {
			texts = append(texts, vtext(c.R, 14))
		}
		tk := vmakeTok(c, texts)
		c.Input(vtokIn{tk, texts, nil})
		tok := tk.mk()
		for _, text := range texts {
			for _, mode := range []string{"A", "B", "C"} {
				ml, err := tok.Tokenize(mode, text)
				if err != nil {
					continue
				}
				vtileCheck(c, "mode "+mode+" text "+text, text, ml, 0, len([]rune(text)))
				for i := 0; i < ml.Length(); i++ {
					m := ml.Get(i)
					for _, sm := range []string{"A", "B", "C"} {
						vtileCheck(c, "mode "+mode+" split "+sm+" text "+text, text, m.Split(sm), m.Begin(), m.End())
					}
				}
			}
		}
	})
}
