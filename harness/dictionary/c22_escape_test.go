package dictionary

//verif:use dict
//verif:use lex

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"
)

var v22re = regexp.MustCompile(`\\u([0-9A-Fa-f]{4})|\\u\{([0-9A-Fa-f]+)\}`)

// v22decode is the statement of the property.
func v22decode(s string) string {
	var b strings.Builder
	for {
		m := v22re.FindStringSubmatchIndex(s)
		if m == nil {
			return b.String() + s
		}
		d := ""
		if m[2] >= 0 {
			d = s[m[2]:m[3]]
		} else {
			d = s[m[4]:m[5]]
		}
		b.WriteString(s[:m[0]])
		x, err := strconv.ParseUint(strings.TrimLeft(d, "0")+"", 16, 64)
		if strings.TrimLeft(d, "0") == "" {
			x, err = 0, nil
		}
		if err == nil && x <= 0x10ffff && !(0xd800 <= x && x <= 0xdfff) {
			b.WriteString(string(rune(x)))
		} else {
			b.WriteString(s[m[0]:m[1]])
		}
		s = s[m[1]:]
	}
}

func v22field(r *vrng, utf8only, nul bool) string {
	for {
		var b strings.Builder
		k := r.rng(0, 6)
		if r.p(3) {
			k = r.rng(100, 1500)
		}
		for ; k > 0; k-- {
			switch r.n(14) {
			case 0, 1, 2:
				b.WriteString(fmt.Sprintf("\\u%04x", vpickI(r, 0x2c, 0x41, 0x3042, 0x6771, 0xd800, 0xdfff, 0xd7ff, 0xe000, 0xffff, 0x0a, 0x5c, 0x75, 0x7f, 0x80, 0x7ff, 0x800, 0xABCD, r.n(0x10000))))
			case 3, 4, 5:
				b.WriteString(fmt.Sprintf("\\u{%s%x}", vpickS(r, "", "", "0", "000000"), vpickI(r, 0x2c, 0x41, 0x3042, 0x1f600, 0x20b9f, 0x10ffff, 0x110000, 0xd800, 0x7fffffff, 0x80000000, 0x100000041, 0x0a, r.n(0x120000))))
			case 6:
				b.WriteString("\\")
			case 7:
				b.WriteString(vpickS(r, "\\u", "\\u{", "\\u{}", "\\U0041", "\\\\u0041", "\\uu0041", "\\u12", "\\u{12", "\\u{12\\u0042", "\\u{{41}", "\\u12{41}", "\\u{4 1}", "\\u{+41}", "\\u{-41}", "\\u{4_1}", "\\u+041", "\\u{0x41}"))
			case 8, 9:
				b.WriteString(vpickS(r, "u", "{", "}", "0", "4", "a", "F", "u0041", "{41}"))
			case 10:
				s := v22one(r)
				// an escape with one thing changed
				i := r.n(len(s))
				b.WriteString(s[:i] + vpickS(r, "", "g", "あ", "}", "{", "u", "\\") + s[i+r.n(2):])
			case 11:
				if !utf8only && r.p(20) {
					b.WriteString("\xe3\x81")
				} else {
					b.WriteString(vpickS(r, "あ", "東", "𠮟"))
				}
			default:
				b.WriteString(vpickS(r, "x", "z", " ", "é", "京", "/"))
			}
		}
		s := b.String()
		d := v22decode(s)
		if strings.Contains(s, "\n") || strings.HasSuffix(s, "\r") || (!nul && strings.Contains(d, "\x00")) {
			continue
		}
		return s
	}
}

func v22one(r *vrng) string {
	if r.p(50) {
		return fmt.Sprintf("\\u%04X", r.n(0x3100))
	}
	return fmt.Sprintf("\\u{%x}", r.n(0x20000)+1)
}

func TestVerifC22Fields(t *testing.T) {
	vrun(t, "C22", "C22Fields", "for random fields written with escapes, unfinished escapes and other characters, the words of the built dictionary hold the fields with exactly the escapes replaced; lines are accepted exactly with 18 comma-separated parts", 400, 0, func(c *vcase) {
		r := c.R
		u16 := r.p(25)
		n := r.rng(1, 4)
		var cols [][]string
		bad := -1
		var src strings.Builder
		for i := 0; i < n; i++ {
			f := []string{v22field(r, u16, false), "0", "0", "5", v22field(r, u16, true)}
			for j := 0; j < 6; j++ {
				f = append(f, v22field(r, u16, true))
			}
			f = append(f, v22field(r, u16, true), v22field(r, u16, true), "*", "A", "*", "*", "*")
			if r.p(10) {
				f[1] = v22escnum("0")
			}
			if bad < 0 && r.p(6) {
				bad = i
				if r.p(50) {
					f = f[:len(f)-r.rng(1, 3)]
				} else {
					f = append(f, v22field(r, u16, true))
				}
			}
			cols = append(cols, f)
			src.WriteString(strings.Join(f, ","))
			if i < n-1 || r.p(60) {
				src.WriteString(vpickS(r, "\n", "\n", "\r\n"))
			}
		}
		c.Input(map[string]interface{}{"source": src.String(), "utf16": u16})
		var b []byte
		var err error
		if p := vpanics(func() { b, err = vsysdict(src.String(), "1 1\n", u16) }); p != nil {
			c.Failf("building the dictionary crashes: %v", p)
		}
		if bad >= 0 {
			if err == nil {
				c.Failf("line %d has %d parts and is accepted", bad+1, len(cols[bad]))
			}
			return
		}
		long := false
		for _, f := range cols {
			for _, s := range f {
				long = long || len(v22decode(s)) > 2000
			}
		}
		if err != nil {
			if long {
				c.Trivial()
				return
			}
			c.Failf("a valid source is rejected: %s", err)
		}
		g, l := vload(b, u16)
		if int(l.Size()) != n {
			c.Failf("%d words of %d lines", l.Size(), n)
		}
		for i, f := range cols {
			wi := l.GetWordInfo(int32(i))
			d := make([]string, len(f))
			for j := range f {
				d[j] = v22decode(f[j])
			}
			same := func(what string, col int, got, want string) {
				if got != want {
					c.Failf("word %d: the %s written %q is %q, not %q", i, what, f[col], got, want)
				}
			}
			same("surface", 4, wi.Surface, d[4])
			same("reading", 11, wi.ReadingForm, vor(d[11], d[4]))
			same("normalised form", 12, wi.NormalizedForm, vor(d[12], d[4]))
			if int(wi.HeadwordLength) != len(d[0]) {
				c.Failf("word %d: the headword written %q has %d bytes, not %d", i, f[0], wi.HeadwordLength, len(d[0]))
			}
			pos := g.GetPartOfSpeechString(wi.PosId)
			for j := 0; j < 6; j++ {
				same("part of speech", 5+j, pos[j], d[5+j])
			}
			if d[0] != "" {
				found := false
				for it := l.Lookup([]byte(d[0]), 0); it.Next(); {
					id, k := it.Get()
					found = found || (id == int32(i) && k == len(d[0]))
				}
				if !found {
					c.Failf("word %d: the headword written %q is not found under %q", i, f[0], d[0])
				}
			}
		}
	})
}

func v22escnum(s string) string {
	return fmt.Sprintf("\\u%04x", s[0])
}
