package dictionary

import (
	"fmt"
	"strings"
	"testing"
)

var vc07names = []string{"DEFAULT", "SPACE", "KANJI", "SYMBOL", "NUMERIC", "ALPHA", "HIRAGANA", "KATAKANA", "KANJINUMERIC", "GREEK", "CYRILLIC", "USER1", "USER2", "USER3", "USER4", "NOOOVBOW"}

type vc07range struct {
	lo, hi int
	cats   uint32
}

func vc07point(r *vrng) int {
	switch r.n(5) {
	case 0:
		return r.n(0x80)
	case 1:
		return r.n(0x10000)
	case 2:
		return r.n(0x110000)
	case 3:
		return 0x3040 + r.n(16)
	}
	return 0x20 + r.n(8)
}

func vc07hex(r *vrng, n int) string {
	if r.p(50) {
		return fmt.Sprintf("0x%04X", n)
	}
	return fmt.Sprintf("0x%x", n)
}

// vc07line gives a definition line, and its range if it defines one.
func vc07line(r *vrng) (string, *vc07range) {
	sep := func() string { return vpickS(r, " ", "\t", "  ", " \t ") }
	switch r.n(10) {
	case 0:
		return vpickS(r, "", "   ", "\t", "# 0x20 KANJI", "#", "#0x0 BAD", " \t "), nil
	case 1: // a category's own definition line
		return vpickS(r, "DEFAULT 0 1 0", "KANJI\t0 0 2", "FOO 1", "0X20 KANJI", "0 x"), nil
	}
	lo := vc07point(r)
	hi := lo
	s := vc07hex(r, lo)
	if r.p(60) {
		hi = vc07point(r)
		if r.p(10) {
			hi = lo
		}
		if hi < lo {
			lo, hi = hi, lo
		}
		s = vc07hex(r, lo) + ".." + vc07hex(r, hi)
	}
	if r.p(10) {
		s = sep() + s
	}
	var cats uint32
	for k := r.rng(1, 4); k > 0; k-- {
		i := r.n(16)
		cats |= uint32(1) << uint(i)
		s += sep() + vc07names[i]
	}
	if r.p(20) {
		s += sep() + vpickS(r, "# KANJI", "#KANJI BAD", "#")
	}
	if r.p(3) {
		s += strings.Repeat(" ", 5000) + "USER4"
		if !strings.Contains(s, "#") {
			cats |= USER4
		}
	}
	if r.p(10) {
		s += sep()
	}
	return s, &vc07range{lo, hi, cats}
}

func vc07want(rs []vc07range, cp int) uint32 {
	var c uint32
	for _, x := range rs {
		if x.lo <= cp && cp <= x.hi {
			c |= x.cats
		}
	}
	if c == 0 {
		return 1
	}
	return c
}

func TestVerifC07Union(t *testing.T) {
	vrun(t, "C07", "C07Union", "definition files of up to 40 lines (ranges, single characters, comments, blank and category lines, one or two files); characters at, next to and between the bounds", 200, 0, func(c *vcase) {
		r := c.R
		cc := NewCharacterCategory()
		var rs []vc07range
		var srcs []string
		for f := r.rng(1, 2); f > 0; f-- {
			var b strings.Builder
			n := r.n(12)
			if r.p(10) {
				n = r.n(40)
			}
			for i := 0; i < n; i++ {
				l, g := vc07line(r)
				b.WriteString(l)
				if i+1 < n || r.p(70) {
					b.WriteString(vpickS(r, "\n", "\n", "\r\n"))
				}
				if g != nil {
					rs = append(rs, *g)
				}
			}
			srcs = append(srcs, b.String())
		}
		c.Input(srcs)
		for _, s := range srcs {
			var err error
			if p := vpanics(func() { err = cc.ReadCharacterDefinition(strings.NewReader(s)) }); p != nil {
				c.Failf("reading the definition panics: %v", p)
			}
			if err != nil {
				c.Failf("valid definition refused: %v", err)
			}
		}
		check := func(cp int) {
			if cp < 0 || cp > 0x10ffff {
				return
			}
			if got, want := cc.GetCategoryTypes(rune(cp)), vc07want(rs, cp); got != want {
				c.Failf("categories of U+%04X: %#x, want %#x", cp, got, want)
			}
		}
		for _, x := range rs {
			for d := -1; d <= 1; d++ {
				check(x.lo + d)
				check(x.hi + d)
			}
			check((x.lo + x.hi) / 2)
		}
		for k := 0; k < 30; k++ {
			check(vc07point(r))
		}
		check(0)
		check(0x10ffff)
	})
}

func TestVerifC07Reject(t *testing.T) {
	vrun(t, "C07", "C07Reject", "definition files with one bad line (unknown category, malformed or reversed range, too few fields) at any place", 200, 0, func(c *vcase) {
		r := c.R
		n := r.n(10)
		at := r.n(n + 1)
		bad := ""
		kind := r.n(8)
		cat := vc07names[r.n(16)]
		switch kind {
		case 0:
			bad = vc07hex(r, vc07point(r)) + " " + vpickS(r, "FOO", "kanji", "KANJI2", "KANJ", "0x20", "*", "USER5", "USER", "KANJI,ALPHA", "Katakana")
			if r.p(50) {
				bad += " " + cat
			}
		case 1:
			lo := vc07point(r)
			hi := r.n(lo + 1)
			if hi == lo {
				lo++
			}
			bad = vc07hex(r, lo) + ".." + vc07hex(r, hi) + " " + cat
		case 2:
			bad = vc07hex(r, vc07point(r))
			if r.p(40) {
				bad += ".." + vc07hex(r, 0x10ffff)
			}
			bad += vpickS(r, "", " ", "\t")
		case 3:
			bad = vpickS(r, "0x", "0xG", "0x1_0", "0x-1", "0x+1", "0x1.", "0x 1", "0x0x1", "0x80000000", "0xFFFFFFFF", "0x100000000", "0xFFFFFFFFFFFFFFFFFF", "0x12..", "0x12..13", "0x12..0x", "0x12..0xZZ", "0x12..0X13", "0x12..0x13..0x14", "0x1..0x2..", "0x12...0x13", "0x12-0x13", "0x12..0x80000000", "0x12..0x100000012", "0x12,0x13") + " " + cat
			if strings.HasPrefix(bad, "0x 1") {
				bad = "0x " + cat
			}
		case 4:
			bad = vpickS(r, "DEFAULT", "x", "0x20", "  KANJI", "\u3042")
		case 5:
			bad = vc07hex(r, vc07point(r)) + " " + cat + " " + vpickS(r, "BAD", "x#", "-")
		case 6:
			bad = vc07hex(r, vc07point(r)) + " " + cat + " " + cat + " " + "DEFAUL"
		case 7:
			bad = vc07hex(r, 0x30ff) + ".." + vc07hex(r, 0x30a0+r.n(0x5f)) + " " + cat
		}
		var b strings.Builder
		for i := 0; i <= n; i++ {
			if i == at {
				b.WriteString(bad)
			} else {
				l, _ := vc07line(r)
				b.WriteString(l)
			}
			b.WriteString(vpickS(r, "\n", "\r\n"))
		}
		c.Input(b.String())
		cc := NewCharacterCategory()
		var err error
		if p := vpanics(func() { err = cc.ReadCharacterDefinition(strings.NewReader(b.String())) }); p != nil {
			c.Failf("reading the definition panics: %v", p)
		}
		if err == nil {
			c.Failf("bad line %q accepted", bad)
		}
		want := fmt.Sprintf("line %d", at+1)
		s := err.Error()
		i := strings.Index(s, want)
		if i < 0 || (i+len(want) < len(s) && s[i+len(want)] >= '0' && s[i+len(want)] <= '9') {
			c.Failf("error %q does not name line %d", s, at+1)
		}
	})
}
