package gosudachi

//verif:use dict
//verif:use cat

import (
	"io/ioutil"
	"os"
	"strings"
	"testing"
	"unicode"

	"github.com/msnoigrs/gosudachi/data"
	"golang.org/x/text/unicode/norm"
)

type vnormIn struct{ Table, Text string }

var vnormAlphabet = []rune("abAzÀé㍿ﬃΣИｱﾞ１①Ⅳ　々𠮷𝐀½ー")

func vnormWord(r *vrng, max int) string {
	var b []rune
	for k := r.rng(1, max); k > 0; k-- {
		b = append(b, vnormAlphabet[r.n(len(vnormAlphabet))])
	}
	return strings.Replace(string(b), "　", "x", -1)
}

// a table: exempt characters, keys with their values, and whether the table must be refused
func vnormTable(r *vrng) (string, map[rune]bool, map[string]string, bool) {
	var lines []string
	exempt := map[rune]bool{}
	keys := map[string]string{}
	bad := false
	for k := r.n(10); k > 0; k-- {
		switch r.n(12) {
		case 0:
			lines = append(lines, "# a b c")
		case 1:
			lines = append(lines, vpickS(r, "", "  ", "\t"))
		case 2, 3, 4:
			w := []rune(vnormWord(r, 1))[0]
			exempt[w] = true
			lines = append(lines, string(w))
		default:
			w := vnormWord(r, 3)
			if r.p(40) && len(keys) > 0 {
				for x := range keys { // a key that begins like another one
					rs := []rune(x)
					w = string(rs[:1+r.n(len(rs))]) + vnormWord(r, 2)
					break
				}
			}
			if w[0] == '#' {
				continue
			}
			if _, ok := keys[w]; ok {
				if !r.p(10) {
					continue
				}
				bad = true
			}
			keys[w] = vnormWord(r, 4)
			lines = append(lines, w+vpickS(r, " ", "\t", "  ")+keys[w]+vpickS(r, "", "", " "))
		}
	}
	if r.p(6) {
		bad = true
		at := r.n(len(lines) + 1)
		l := vpickS(r, "a b c", "ab", "あx", "a b c d")
		lines = append(lines[:at], append([]string{l}, lines[at:]...)...)
	}
	t := strings.Join(lines, vpickS(r, "\n", "\n", "\r\n"))
	if r.p(50) {
		t += "\n"
	}
	return t, exempt, keys, bad
}

func vnormWant(exempt map[rune]bool, keys map[string]string, text []rune) []rune {
	var want []rune
	for i := 0; i < len(text); {
		l := len(text) - i
		for ; l > 0; l-- {
			if v, ok := keys[string(text[i:i+l])]; ok {
				want = append(want, []rune(v)...)
				break
			}
		}
		if l > 0 {
			i += l
			continue
		}
		low := unicode.ToLower(text[i])
		if exempt[low] {
			want = append(want, low)
		} else {
			want = append(want, []rune(norm.NFKC.String(string(low)))...)
		}
		i++
	}
	return want
}

func TestVerifC05Normalise(t *testing.T) {
	vrun(t, "C05", "C05Normalise", "tables of 0-10 lines (exemptions, keys of 1-5 characters sharing prefixes, malformed lines, double keys), texts of 0-14 characters whose normal forms shrink and grow", 60, 0, func(c *vcase) {
		r := c.R
		table, exempt, keys, bad := vnormTable(r)
		var text []rune
		for k := r.n(15); k > 0; k-- {
			if r.p(30) && len(keys) > 0 {
				n := r.n(len(keys))
				for x := range keys {
					if n--; n < 0 {
						text = append(text, []rune(x)...)
						break
					}
				}
			} else {
				text = append(text, vnormAlphabet[r.n(len(vnormAlphabet))])
			}
		}
		c.Input(vnormIn{table, string(text)})
		fn := vscratchFile("rewrite.def", []byte(table))
		defer os.Remove(fn)
		if table == "" {
			c.Trivial()
		}
		p := NewDefaultInputTextPlugin(&DefaultInputTextPluginConfig{RewriteDef: fn})
		err := p.SetUp()
		if bad {
			if err == nil {
				c.Failf("a malformed table is accepted")
			}
			return
		}
		if err != nil {
			c.Failf("SetUp: %v", err)
		}
		for round := 0; round < 2; round++ {
			b := NewInputTextBuilder(string(text), vcatGrammar(vcatdefault))
			if err := p.Rewrite(b); err != nil {
				c.Failf("Rewrite: %v", err)
			}
			if want := vnormWant(exempt, keys, text); string(b.GetText()) != string(want) {
				c.Failf("text %q became %q, expected %q", string(text), string(b.GetText()), string(want))
			}
		}
	})
}

// the table that comes with the program, read here line by line
func TestVerifC05Default(t *testing.T) {
	p := NewDefaultInputTextPlugin(nil)
	serr := p.SetUp()
	exempt := map[rune]bool{}
	keys := map[string]string{}
	f, err := data.Assets.Open("rewrite.def")
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	b, err := ioutil.ReadAll(f)
	if err != nil {
		t.Fatal(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		cols := strings.Fields(l)
		switch {
		case strings.HasPrefix(l, "#"):
		case len(cols) == 1:
			exempt[[]rune(cols[0])[0]] = true
		case len(cols) == 2:
			keys[cols[0]] = cols[1]
		}
	}
	vrun(t, "C05", "C05Default", "the built-in table, every character below U+30000 in short texts", 20, 0, func(c *vcase) {
		r := c.R
		if serr != nil {
			c.Failf("SetUp: %v", serr)
		}
		var text []rune
		for k := r.rng(1, 6); k > 0; k-- {
			x := rune(r.n(0x30000))
			if r.p(50) {
				x = vpickR(r, []rune("あいカがﾞｶﾞアＡＺα①㌔㍍々〆ⅠΩώ")...)
			}
			if x >= 0xd800 && x <= 0xdfff {
				x = 'A'
			}
			text = append(text, x)
		}
		c.Input(vnormIn{"", string(text)})
		b := NewInputTextBuilder(string(text), vcatGrammar(vcatdefault))
		if err := p.Rewrite(b); err != nil {
			c.Failf("Rewrite: %v", err)
		}
		if want := vnormWant(exempt, keys, text); string(b.GetText()) != string(want) {
			c.Failf("text %q became %q, expected %q", string(text), string(b.GetText()), string(want))
		}
	})
}
