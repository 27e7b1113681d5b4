package gosudachi

import (
	"fmt"
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
)

const vcatdefault = `0x0020 SPACE
0x0021..0x002F SYMBOL
0x0030..0x0039 NUMERIC
0x0041..0x005A ALPHA
0x0061..0x007A ALPHA
0x3041..0x309F HIRAGANA
0x30A1..0x30FF KATAKANA
0x30FC HIRAGANA KATAKANA
0x4E00..0x9FFF KANJI
0x4E00 KANJINUMERIC KANJI
0x0370..0x03FF GREEK
0x0400..0x04FF CYRILLIC
`

var vcatNames = []string{"DEFAULT", "SPACE", "KANJI", "SYMBOL", "NUMERIC", "ALPHA", "HIRAGANA", "KATAKANA", "KANJINUMERIC", "GREEK", "CYRILLIC", "USER1", "USER2", "USER3", "USER4", "NOOOVBOW"}

var vcatBits = map[string]uint32{"DEFAULT": 1, "SPACE": 2, "KANJI": 4, "SYMBOL": 8, "NUMERIC": 16, "ALPHA": 32, "HIRAGANA": 64, "KATAKANA": 128, "KANJINUMERIC": 256, "GREEK": 512, "CYRILLIC": 1024, "USER1": 2048, "USER2": 4096, "USER3": 8192, "USER4": 16384, "NOOOVBOW": 32768}

func vcatGrammar(def string) *dictionary.Grammar {
	cat := dictionary.NewCharacterCategory()
	if err := cat.ReadCharacterDefinition(strings.NewReader(def)); err != nil {
		panic("character definition refused: " + err.Error() + "\n" + def)
	}
	return &dictionary.Grammar{CharCategory: cat}
}

var vcatAlphabet = []rune("aAbzéΩжあいアー漢一二0.𠮟😀 ")

func vanytext(r *vrng, max int) string {
	n := r.n(max + 1)
	rs := make([]rune, 0, n)
	for len(rs) < n {
		switch {
		case r.p(80):
			rs = append(rs, vcatAlphabet[r.n(len(vcatAlphabet))])
		case r.p(50):
			rs = append(rs, rune(r.n(0xD800)))
		default:
			rs = append(rs, rune(0xE000+r.n(0x102000)))
		}
	}
	return string(rs)
}

// vrandcat gives a character definition over the characters of vcatAlphabet and the categories by character.
func vrandcat(r *vrng) (string, func(rune) uint32) {
	type rg struct {
		lo, hi rune
		c      uint32
	}
	var rs []rg
	var b strings.Builder
	for k := r.n(14); k > 0; k-- {
		lo := vcatAlphabet[r.n(len(vcatAlphabet))]
		hi := lo
		if r.p(50) {
			hi = vcatAlphabet[r.n(len(vcatAlphabet))]
			if hi < lo {
				lo, hi = hi, lo
			}
		}
		var cs []string
		var c uint32
		for q := r.rng(1, 3); q > 0; q-- {
			n := vcatNames[r.n(len(vcatNames))]
			cs = append(cs, n)
			c |= vcatBits[n]
		}
		if lo == hi && r.p(70) {
			fmt.Fprintf(&b, "0x%X %s\n", lo, strings.Join(cs, " "))
		} else {
			fmt.Fprintf(&b, "0x%X..0x%X %s\n", lo, hi, strings.Join(cs, " "))
		}
		rs = append(rs, rg{lo, hi, c})
	}
	return b.String(), func(ch rune) uint32 {
		var c uint32
		for _, x := range rs {
			if x.lo <= ch && ch <= x.hi {
				c |= x.c
			}
		}
		if c == 0 {
			return 1
		}
		return c
	}
}
