package dictionary

//verif:use dict
//verif:use lex

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"testing"
)

func v23ids(xs []int32) string {
	if len(xs) == 0 {
		return "*"
	}
	var ss []string
	for _, x := range xs {
		ss = append(ss, fmt.Sprint(x))
	}
	return strings.Join(ss, "/")
}

func v23rows(ws []vsrcword) string {
	var b strings.Builder
	for _, x := range ws {
		w := x.W
		u := "C"
		if len(x.A) == 0 {
			u = "A"
		} else if len(x.B) == 0 {
			u = "B"
		}
		df := "*"
		if x.Dicform >= 0 {
			df = fmt.Sprint(x.Dicform)
		}
		b.WriteString(strings.Join([]string{w.surface, fmt.Sprint(w.left), fmt.Sprint(w.right), fmt.Sprint(w.cost), w.surface,
			strings.Join(w.pos[:], ","), vor(w.reading, w.surface), vor(w.norm, w.surface), df, u, v23ids(x.A), v23ids(x.B), v23ids(x.S)}, ","))
		b.WriteByte('\n')
	}
	return b.String()
}

func v23diff(c *vcase, kind, got, want string) {
	if got == want {
		return
	}
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		a, b := "(none)", "(none)"
		if i < len(g) {
			a = g[i]
		}
		if i < len(w) {
			b = w[i]
		}
		if a != b {
			c.Failf("%s: line %d printed as %q, stored as %q", kind, i, a, b)
		}
	}
}

func TestVerifC23Print(t *testing.T) {
	n := 0
	vrun(t, "C23", "C23Print", "for random system and user dictionaries written from sources, the printed rows are the words of the source in id order", 300, 0, func(c *vcase) {
		r := c.R
		u16 := r.p(40)
		nw := r.rng(1, 12)
		if r.p(4) {
			nw = r.rng(100, 400)
		}
		sys := vrandlex(r, nw, vposSet(r, r.rng(1, 5)), 3, 0, false)
		c.Input(map[string]interface{}{"utf16": u16, "system": vsrclines(sys)})
		sb, err := vsysdict(vsrclines(sys), "3 3\n", u16)
		if err != nil {
			c.Failf("a valid system source is rejected: %s", err)
		}
		n++
		sf := vscratchFile(fmt.Sprintf("c23-sys-%d", n), sb)
		defer os.Remove(sf)
		var out bytes.Buffer
		if p := vpanics(func() { err = PrintDictionary(sf, u16, nil, &out) }); p != nil {
			c.Failf("printing the system dictionary crashes: %v", p)
		}
		if err != nil {
			c.Failf("printing the system dictionary fails: %s", err)
		}
		v23diff(c, "system", out.String(), v23rows(sys))
		if r.p(40) {
			return
		}
		// a user dictionary over it
		g, l := vload(sb, u16)
		un := r.rng(1, 6)
		poss := vposSet(r, r.rng(1, 3))
		for i := 0; i < 3; i++ {
			poss = append(poss, sys[r.n(len(sys))].W.pos)
		}
		old := r.p(25)
		if old {
			poss = poss[len(poss)-3:]
		}
		user := vrandlex(r, un, poss, 3, len(sys), true)
		c.Input(map[string]interface{}{"utf16": u16, "system": vsrclines(sys), "user": vsrclines(user), "without grammar": old})
		var ub []byte
		if old {
			ub, err = v23olduser(vsrclines(user), g, l, u16)
		} else {
			ub, err = vuserdict(vsrclines(user), g, l, u16)
		}
		if err != nil {
			c.Failf("a valid user source is rejected: %s", err)
		}
		uf := vscratchFile(fmt.Sprintf("c23-user-%d", n), ub)
		defer os.Remove(uf)
		out.Reset()
		if p := vpanics(func() { err = PrintDictionary(uf, u16, nil, &out) }); p != nil {
			c.Failf("printing the user dictionary without its system dictionary crashes: %v", p)
		}
		if err == nil {
			c.Failf("a user dictionary is printed without its system dictionary")
		}
		if out.Len() != 0 {
			c.Failf("rows are printed although the system dictionary is missing")
		}
		sd, err := ReadSystemDictionary(sf, u16)
		if err != nil {
			c.Failf("the system dictionary cannot be opened: %s", err)
		}
		defer sd.Close()
		before := sd.Grammar.GetPartOfSpeechSize()
		for k := 0; k < 2; k++ {
			out.Reset()
			if p := vpanics(func() { err = PrintDictionary(uf, u16, sd, &out) }); p != nil {
				c.Failf("printing the user dictionary crashes: %v", p)
			}
			if err != nil {
				c.Failf("printing the user dictionary fails: %s", err)
			}
			v23diff(c, "user", out.String(), v23rows(user))
		}
		if sd.Grammar.GetPartOfSpeechSize() != before {
			c.Failf("printing changes the system dictionary")
		}
	})
}

func v23olduser(lex string, g *Grammar, sys *DoubleArrayLexicon, u16 bool) ([]byte, error) {
	defer vquiet()()
	hb, err := NewDictionaryHeader(UserDictVersion, 1, "u").ToBytes()
	if err != nil {
		return nil, err
	}
	w := &vseek{}
	w.Write(hb)
	b := NewDictionaryBuilder(int64(len(hb)), sys, u16)
	st := NewPosTableUser(g)
	if err := b.BuildLexicon(st, strings.NewReader(lex)); err != nil {
		return nil, err
	}
	if err := b.WriteLexicon(w, st); err != nil {
		return nil, err
	}
	return w.b, nil
}
