package gosudachi

//verif:use cat

import (
	"fmt"
	"testing"
	"unicode/utf8"
)

type veditIn struct {
	Text  string
	Edits []string
}

func TestVerifC04Edits(t *testing.T) {
	vrun(t, "C04", "C04Edits", "texts of 0-12 characters of 1-4 bytes, 0-6 in-range replacements by 0-6 characters each, then the byte view", 50, 0, func(c *vcase) {
		r := c.R
		g := vcatGrammar(vcatdefault)
		text := vanytext(r, 12)
		in := &veditIn{Text: text}
		orig := []rune(text)
		b := NewInputTextBuilder(text, g)
		cur := append([]rune{}, orig...)
		own := make([]int, len(orig))
		off := make([]int, len(orig))
		for i := range own {
			own[i] = i
			off[i] = i
		}
		for k := r.n(7); k > 0; k-- {
			bg := r.n(len(cur) + 1)
			en := bg + r.n(len(cur)-bg+1)
			if r.p(40) && en > bg+2 {
				en = bg + 2
			}
			rep := []rune(vanytext(r, 6))
			in.Edits = append(in.Edits, fmt.Sprintf("[%d,%d) <- %q", bg, en, string(rep)))
			c.Input(*in)
			b.Replace(bg, en, append([]rune{}, rep...))
			o := len(orig)
			if bg < len(off) {
				o = off[bg]
			}
			var nc []rune
			var no, nf []int
			nc = append(append(append(nc, cur[:bg]...), rep...), cur[en:]...)
			no = append(no, own[:bg]...)
			nf = append(nf, off[:bg]...)
			for range rep {
				no = append(no, -1)
				nf = append(nf, o)
			}
			no = append(no, own[en:]...)
			nf = append(nf, off[en:]...)
			cur, own, off = nc, no, nf
			if string(b.GetText()) != string(cur) {
				c.Failf("text is %q, expected %q", string(b.GetText()), string(cur))
			}
		}
		c.Input(*in)
		it := b.Build()
		if it.OriginalText != text || it.GetText() != string(cur) || string(it.GetByteText()) != string(cur) {
			c.Failf("Build gave texts %q %q %q, expected %q and %q", it.OriginalText, it.GetText(), it.GetByteText(), text, string(cur))
		}
		last := 0
		pos := 0
		for i, ch := range cur {
			n := utf8.RuneLen(ch)
			for j := 0; j < n; j++ {
				if x := it.GetOffsetTextLength(pos + j); x != i {
					c.Failf("byte %d belongs to character %d, reported %d", pos+j, i, x)
				}
				x := it.GetOriginalIndex(pos + j)
				if own[i] >= 0 && x != own[i] || own[i] < 0 && x != off[i] {
					c.Failf("byte %d (character %d) maps to %d, expected %d", pos+j, i, x, off[i])
				}
				if x < last {
					c.Failf("map decreases at byte %d: %d after %d", pos+j, x, last)
				}
				last = x
				if it.IsCharAlignment(pos+j) != (j == 0) {
					c.Failf("byte %d: IsCharAlignment %v", pos+j, j != 0)
				}
				for cp := 1; cp <= 3; cp++ {
					want := 0
					for q := i; q < i+cp && q < len(cur); q++ {
						want += utf8.RuneLen(cur[q])
					}
					want -= j
					if x := it.GetCodePointsOffsetLength(pos+j, cp); x != want {
						c.Failf("GetCodePointsOffsetLength(%d, %d) = %d, expected %d", pos+j, cp, x, want)
					}
				}
			}
			pos += n
		}
		if it.GetOriginalIndex(pos) != len(orig) || it.GetOffsetTextLength(pos) != len(cur) {
			c.Failf("the end maps to %d (character %d), expected %d (%d)", it.GetOriginalIndex(pos), it.GetOffsetTextLength(pos), len(orig), len(cur))
		}
		if len(cur) > 0 {
			i := r.n(len(cur))
			j := i + r.n(len(cur)-i+1)
			bi, bj := len(string(cur[:i])), len(string(cur[:j]))
			if s := it.GetSubstring(bi, bj); s != string(cur[i:j]) {
				c.Failf("GetSubstring(%d,%d) = %q, expected %q", bi, bj, s, string(cur[i:j]))
			}
			if n := it.CodePointCount(bi, bj); n != j-i {
				c.Failf("CodePointCount(%d,%d) = %d, expected %d", bi, bj, n, j-i)
			}
		}
	})
}

// The facts about UTF-8 the contracts assume, for every character.
func TestVerifC04Utf8Facts(t *testing.T) {
	vrun(t, "C04", "C04Utf8Facts", "all Unicode scalar values, one block of 4096 each case: encoded length, decoding, continuation bytes, conversions", 272, 272, func(c *vcase) {
		c.Input(fmt.Sprintf("block %d", c.I))
		for ch := rune(c.I * 4096); ch < rune(c.I+1)*4096; ch++ {
			if ch >= 0xD800 && ch <= 0xDFFF {
				continue
			}
			n := 1
			if ch >= 0x10000 {
				n = 4
			} else if ch >= 0x800 {
				n = 3
			} else if ch >= 0x80 {
				n = 2
			}
			s := string([]rune{'a', ch, ch, 'あ'})
			if len(s) != 1+2*n+3 || string([]rune(s)) != s || s != "a"+string(ch)+string(ch)+"あ" {
				c.Failf("conversion of U+%X", ch)
			}
			for k := 0; k < 2; k++ {
				x, m := utf8.DecodeRune([]byte(s)[1+k*n:])
				if x != ch || m != n {
					c.Failf("decoding U+%X gives U+%X of %d bytes", ch, x, m)
				}
			}
			for k := 0; k < n; k++ {
				if (s[1+k]&0xC0 == 0x80) != (k > 0) {
					c.Failf("byte %d of U+%X", k, ch)
				}
			}
		}
	})
}
