// UTF-8: facts about Go's string conversions and unicode/utf8 (assumed; the C04 harness evaluates them on every code point).
package std
spec func validRune(r int) bool = (0 <= r && r < 55296) || (57343 < r && r <= 1114111)
spec func validRunes(s seq[int]) bool = forall i int {s[i]} :: 0 <= i && i < len(s) ==> validRune(s[i])
// bytes of one character
spec func rlen(r int) int = r < 128 ? 1 : (r < 2048 ? 2 : (r < 65536 ? 3 : 4))
// where character i begins in the encoding of s
spec rec func boff(s seq[int], i int) int decreases i = i <= 0 ? 0 : boff(s, i-1) + rlen(s[i-1])
spec func validStr(s seq[int]) bool = validRunes(runes(s)) && strOfRunes(runes(s)) == s

axiom encLen(s seq[int])
  requires validRunes(s)
  ensures len(strOfRunes(s)) == boff(s, len(s)) && runes(strOfRunes(s)) == s
  note "string(runes) of valid runes is as long as their encodings, and []rune gives them back"
axiom encAt(s seq[int], i int)
  requires validRunes(s) && 0 <= i && i < len(s)
  ensures runeAt(strOfRunes(s), boff(s,i)) == s[i] && runeLenAt(strOfRunes(s), boff(s,i)) == rlen(s[i])
  note "decoding at a character's first byte gives that character"
axiom encLead(s seq[int], i int)
  requires validRunes(s) && 0 <= i && i < len(s)
  ensures band(strOfRunes(s)[boff(s,i)], 192) != 128
  note "a character's first byte is no continuation byte"
axiom encCont(s seq[int], i int, k int)
  requires validRunes(s) && 0 <= i && i < len(s) && boff(s,i) < k && k < boff(s,i+1)
  ensures band(strOfRunes(s)[k], 192) == 128
  note "a character's other bytes are continuation bytes"
axiom encSub(s seq[int], i int, j int)
  requires validRunes(s) && 0 <= i && i <= j && j <= len(s)
  ensures strOfRunes(seq(s, i, j)) == seq(strOfRunes(s), boff(s,i), boff(s,j))
  note "encoding goes character by character"
axiom decodeSuffix(s seq[int], t seq[int], k int)
  requires 0 <= k && k < len(s) && len(t) == len(s) - k && (forall i int {t[i]} :: 0 <= i && i < len(t) ==> t[i] == s[k+i])
  ensures runeAt(t, 0) == runeAt(s, k) && runeLenAt(t, 0) == runeLenAt(s, k)
  note "decoding looks at the bytes from the position on only"

lemma boffStep(s seq[int], i int)
  requires 0 <= i
  ensures boff(s, i+1) == boff(s, i) + rlen(s[i])
lemma boffZero(s seq[int])
  ensures boff(s, 0) == 0
lemma boffMono(s seq[int], i int, j int)
  requires 0 <= i && i <= j
  ensures boff(s, i) + (j - i) <= boff(s, j)
  decreases j
  proof { if i < j { use boffMono(s, i, j-1) } }

extern func "unicode/utf8.DecodeRune"(p) (r, size)
  modifies nothing
  ensures len(p) > 0 ==> r == runeAt(seq(p), 0) && size == runeLenAt(seq(p), 0)
  ensures len(p) == 0 ==> size == 0
