package gosudachi

//verif:use cat

import (
	"testing"
	"unicode/utf8"
)

type vrunIn struct{ Def, Text string }

func TestVerifC08Runs(t *testing.T) {
	vrun(t, "C08", "C08Runs", "texts of 0-12 characters, random category definitions over them (0-14 lines of 1-3 categories)", 50, 0, func(c *vcase) {
		r := c.R
		def, cats := vrandcat(r)
		text := vanytext(r, 12)
		c.Input(vrunIn{def, text})
		it := NewInputTextBuilder(text, vcatGrammar(def)).Build()
		rs := []rune(text)
		pos := make([]int, len(rs)+1)
		for i, ch := range rs {
			pos[i+1] = pos[i] + utf8.RuneLen(ch)
		}
		end := make([]int, len(rs)) // run ends, in characters
		for i := 0; i < len(rs); {
			and := cats(rs[i])
			j := i + 1
			for j < len(rs) && and&cats(rs[j]) != 0 {
				and &= cats(rs[j])
				j++
			}
			for k := i; k < j; k++ {
				end[k] = j
			}
			i = j
		}
		for i, ch := range rs {
			if x := it.GetCharCategoryTypes(pos[i]); x != cats(ch) {
				c.Failf("character %d has categories %x, expected %x", i, x, cats(ch))
			}
			for b := pos[i]; b < pos[i+1]; b++ {
				if x := it.GetCharCategoryContinuousLength(b); x != pos[end[i]]-b {
					c.Failf("continuous length at byte %d is %d, expected %d", b, x, pos[end[i]]-b)
				}
				want := b == pos[i]
				if want && i > 0 && cats(ch)&(32|512|1024) != 0 && cats(rs[i-1])&cats(ch) != 0 {
					want = false
				}
				if it.CanBow(b) != want {
					c.Failf("CanBow(%d) = %v", b, !want)
				}
			}
			and := cats(ch)
			for j := i + 1; j <= len(rs); j++ {
				want := and
				if j > end[i] {
					want = 0
				}
				if x := it.GetCharCategoryTypesRange(pos[i], pos[j]); x != want {
					c.Failf("categories of characters [%d,%d) are %x, expected %x", i, j, x, want)
				}
				if j < len(rs) {
					and &= cats(rs[j])
				}
			}
		}
	})
}
