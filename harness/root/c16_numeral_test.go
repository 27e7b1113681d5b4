package gosudachi

//verif:use num

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC16Numeral(t *testing.T) {
	vrun(t, "C16", "C16Numeral", "character sequences over the numeral alphabet, parsed in turn by one parser that is cleared in between, and by fresh ones", 2000, 0, func(c *vcase) {
		r := c.R
		p := newNumericParser()
		var hist []string
		for k := r.rng(1, 5); k > 0; k-- {
			s := vnumGen(r)
			if len(s) == 0 {
				continue
			}
			hist = append(hist, string(s))
			c.Input(hist)
			var got string
			var ok bool
			if x := vpanics(func() { p.clear(); got, ok = vnumParse(p, s) }); x != nil {
				c.Failf("parsing %q panics: %v", string(s), x)
			}
			fgot, fok := vnumParse(newNumericParser(), s)
			if got != fgot || ok != fok {
				c.Failf("%q gives %q, %v, but %q, %v in a fresh parser", string(s), got, ok, fgot, fok)
			}
			v, want := vnumRead(s)
			if ok != want {
				c.Failf("%q accepted: %v, want %v", string(s), ok, want)
			}
			if ok && !vnumDenotes(got, v) {
				c.Failf("%q is normalised to %q, it denotes %s", string(s), got, v.FloatString(12))
			}
			if ok && !strings.ContainsAny(string(s), ".,十百千万億兆") {
				w := ""
				for _, ch := range s {
					w += fmt.Sprint(vnumDigits[ch])
				}
				if got != w {
					c.Failf("%q is normalised to %q", string(s), got)
				}
			}
		}
	})
}
