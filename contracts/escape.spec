// C22: the fields of a lexicon line and the characters they escape.
package dictionary
properties C22

spec func isHex(c int) bool = (48 <= c && c <= 57) || (97 <= c && c <= 102) || (65 <= c && c <= 70)
spec func hexDigit(c int) int = c <= 57 ? c - 48 : (c <= 70 ? c - 55 : c - 87)
// the number written in s
spec rec func hexNum(s seq[int]) int decreases len(s) =
  len(s) == 0 ? 0 : 16 * hexNum(seq(s, 0, len(s)-1)) + hexDigit(s[len(s)-1])
spec func allHex(s seq[int]) bool = forall j int {s[j]} :: 0 <= j && j < len(s) ==> isHex(s[j])
// where the hexadecimal digits from k on end
spec rec func hexEnd(s seq[int], k int) int decreases len(s) - k =
  (k < 0 || k >= len(s) || !isHex(s[k])) ? k : hexEnd(s, k+1)
spec func scalar(v int) bool = (0 <= v && v < 55296) || (57343 < v && v <= 1114111)
// an escape of s at p: where it ends (p: there is none) and the character it stands for
spec func escEnd(s seq[int], p int) int =
  p + 2 >= len(s) || s[p] != 92 || s[p+1] != 117 ? p :
  (s[p+2] == 123 ?
    (let e := hexEnd(s, p+3) :: (e > p+3 && e < len(s) && s[e] == 125 && scalar(hexNum(seq(s, p+3, e))) ? e + 1 : p)) :
    (p + 6 <= len(s) && isHex(s[p+2]) && isHex(s[p+3]) && isHex(s[p+4]) && isHex(s[p+5]) && scalar(hexNum(seq(s, p+2, p+6))) ? p + 6 : p))
spec func escChar(s seq[int], p int) int = s[p+2] == 123 ? hexNum(seq(s, p+3, hexEnd(s, p+3))) : hexNum(seq(s, p+2, p+6))
spec rec func escAt(s seq[int], p int) int decreases 0 = escEnd(s, p)
spec rec func charAt(s seq[int], p int) int decreases 0 = escChar(s, p)
// s from p on with its escapes replaced
spec rec func decodeFrom(s seq[int], p int) seq[int] decreases len(s) - p =
  (p < 0 || p >= len(s)) ? seq(s, 0, 0) :
  (escAt(s, p) > p ? strOfRune(charAt(s, p)) ++ decodeFrom(s, escAt(s, p)) : [s[p]] ++ decodeFrom(s, p+1))

lemma hexEndIs(s seq[int], k int, e int)
  requires 0 <= k && k <= e && e <= len(s) && (forall j int {s[j]} :: k <= j && j < e ==> isHex(s[j])) && (e == len(s) || !isHex(s[e]))
  ensures hexEnd(s, k) == e
  decreases e - k
  proof { if k < e { use hexEndIs(s, k+1, e) } }

// no escape begins in s[p..q)
lemma decodePlain(s seq[int], p int, q int)
  requires 0 <= p && p <= q && q <= len(s) && (forall j int {escAt(s, j)} :: p <= j && j < q ==> escAt(s, j) <= j)
  ensures decodeFrom(s, p) == seq(s, p, q) ++ decodeFrom(s, q)
  decreases q - p
  proof { if p < q { use decodePlain(s, p+1, q)
    use restStep(seq(s, 0, q), p)
    use concatAssoc([s[p]], seq(s, p+1, q), decodeFrom(s, q)) } }
lemma decodeEnd(s seq[int])
  ensures decodeFrom(s, len(s)) == seq(s, 0, 0)
lemma noBackslash(s seq[int], p int)
  requires 0 <= p && p < len(s) && s[p] != 92
  ensures escAt(s, p) == p

extern func "strconv.ParseInt"(s, b, bits) (v, err)
  modifies nothing
  ensures b == 16 && bits == 32 && len(s) > 0 && allHex(seq(s)) ==> (err == nil) == (hexNum(seq(s)) <= 2147483647) && (err == nil ==> v == hexNum(seq(s)))
  ensures b == 16 && len(s) == 0 ==> err != nil
  ensures err == nil && bits == 32 ==> 0 - 2147483648 <= v && v <= 2147483647
  ensures err == nil && bits == 16 ==> 0 - 32768 <= v && v <= 32767
  ensures b == 10 ==> (err == nil) == (isDec(seq(s)) && 0 - (bits == 16 ? 32768 : 2147483648) <= decNum(seq(s)) && decNum(seq(s)) < (bits == 16 ? 32768 : 2147483648)) || (bits != 16 && bits != 32)
  ensures b == 10 && err == nil ==> v == decNum(seq(s))
// a decimal number and its value
spec func isDec(s seq[int]) bool
spec func decNum(s seq[int]) int
extern func "unicode/utf8.ValidRune"(r) (b)
  modifies nothing
  ensures b == scalar(r)
axiom decodeAscii(s seq[int], i int)
  requires 0 <= i && i < len(s)
  ensures s[i] < 128 ==> runeAt(s, i) == s[i] && runeLenAt(s, i) == 1
  ensures s[i] >= 128 ==> runeAt(s, i) >= 128 && 1 <= runeLenAt(s, i) && i + runeLenAt(s, i) <= len(s) && (forall k int {s[k]} :: i <= k && k < i + runeLenAt(s, i) ==> s[k] >= 128)
  note "ASCII characters are single bytes, and no other character has such a byte"
spec rec func pendingTail(s seq[int], b int, i int, brace bool) bool decreases 0 =
  b + 2 <= i && s[b] == 92 && s[b+1] == 117 && (brace ? b + 3 <= i && s[b+2] == 123 : i < b + 6) && (forall j int {s[j]} :: b + (brace ? 3 : 2) <= j && j < i ==> isHex(s[j]))

lemma pendBrace(s seq[int], b int, i int)
  requires 0 <= b && i <= len(s) && pendingTail(s, b, i, true) && (i == len(s) || !isHex(s[i]))
  ensures escAt(s, b) == (i > b+3 && i < len(s) && s[i] == 125 && scalar(hexNum(seq(s, b+3, i))) ? i + 1 : b)
  ensures i > b+3 ==> charAt(s, b) == hexNum(seq(s, b+3, i))
  proof { use hexEndIs(s, b+3, i) }
lemma pendPlain(s seq[int], b int, i int)
  requires 0 <= b && i <= len(s) && pendingTail(s, b, i, false) && (i == len(s) || (!isHex(s[i]) && !(i == b+2 && s[i] == 123)))
  ensures escAt(s, b) == b
lemma pendFull(s seq[int], b int)
  requires 0 <= b && b + 6 <= len(s) && pendingTail(s, b, b+5, false) && isHex(s[b+5])
  ensures escAt(s, b) == (scalar(hexNum(seq(s, b+2, b+6))) ? b + 6 : b) && charAt(s, b) == hexNum(seq(s, b+2, b+6))
lemma allHexSub(s seq[int], a int, b int)
  requires 0 <= a && a <= b && b <= len(s) && (forall j int {s[j]} :: a <= j && j < b ==> isHex(s[j]))
  ensures allHex(seq(s, a, b))

func (r *lexiconReader).decode(s) (res)
  requires base(r.fieldBuffer) != base(s) || r.fieldBuffer == nil
  modifies r.fieldBuffer, elems(r.fieldBuffer)
  at loop 1 begin {
    if i < len(s) { use decodeAscii(old(seq(s)), i)
      use decodeSuffix(old(seq(s)), seq(s, i, len(s)), i) }
    if nmark >= 0 && brace && (i == len(s) || !isHex(old(seq(s))[i])) {
      use pendBrace(old(seq(s)), last, i)
      use allHexSub(old(seq(s)), last+3, i) }
    if nmark >= 0 && !brace && (i == len(s) || (!isHex(old(seq(s))[i]) && !(i == last+2 && old(seq(s))[i] == 123))) { use pendPlain(old(seq(s)), last, i) }
    if nmark >= 0 && !brace && i == last+5 && i < len(s) && isHex(old(seq(s))[i]) {
      use pendFull(old(seq(s)), last)
      use allHexSub(old(seq(s)), last+2, last+6) }
    letv L := last
    letv F := seq(r.fieldBuffer)
    letv I := i
    if i >= len(s) { use decodePlain(old(seq(s)), last, len(s))
      use decodeEnd(old(seq(s))) }
    if i < len(s) && old(seq(s))[i] == 92 { use decodePlain(old(seq(s)), last, i) }
  }
  at call ParseInt before {
    assert[number] seq($arg0) == (brace ? seq(old(seq(s)), L+3, I) : seq(old(seq(s)), L+2, L+6))
  }
  at loop 1 end {
    use concatAssoc(F, seq(old(seq(s)), L, I), decodeFrom(old(seq(s)), I))
    if last > L && old(seq(s))[I] != 92 {
      assert[end] last == escAt(old(seq(s)), L)
      assert[unfold] decodeFrom(old(seq(s)), L) == strOfRune(charAt(old(seq(s)), L)) ++ decodeFrom(old(seq(s)), last)
      assert[char] seq(r.fieldBuffer) == F ++ strOfRune(charAt(old(seq(s)), L)) }
    use concatAssoc(F, strOfRune(charAt(old(seq(s)), L)), decodeFrom(old(seq(s)), escAt(old(seq(s)), L)))
  }
  loop 1:
    invariant[where] 0 <= last && last <= i && i <= len(s) && 0 <= runecount
    invariant[kept] seq(s) == old(seq(s))
    invariant[own] isfresh(r.fieldBuffer) || base(r.fieldBuffer) == base(old(r.fieldBuffer))
    invariant[decoded] decodeFrom(old(seq(s)), 0) == seq(r.fieldBuffer) ++ decodeFrom(old(seq(s)), last)
    invariant[first] last == 0 ==> len(r.fieldBuffer) == 0
    invariant[latest] forall j int {old(seq(s))[j]} :: last < j && j < i ==> old(seq(s))[j] != 92
    invariant[slash] umark >= 0 ==> nmark < 0 && last < i && old(seq(s))[last] == 92 && umark <= runecount && ((umark == runecount) == (last == i-1))
    invariant[number] nmark >= 0 ==> pendingTail(old(seq(s)), last, i, brace) && ncount == i - numstart && numstart == last + (brace ? 3 : 2)
    invariant[none] nmark < 0 && !(umark >= 0 && umark == runecount) && last < i ==> escAt(old(seq(s)), last) == last
    decreases len(s) - i
  ensures[decoded] seq(res) == decodeFrom(old(seq(s)), 0)
  ensures isfresh(r.fieldBuffer) || base(r.fieldBuffer) == base(old(r.fieldBuffer)) 
