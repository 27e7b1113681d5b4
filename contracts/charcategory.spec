package dictionary
properties C07


spec func inRange(r *categoryRange, cp int) bool = r.low <= cp && cp <= r.high

func (r *categoryRange).contains(cp) (res)
  ensures res == inRange(r, cp)

// union of the categories of the first n ranges that contain cp
spec rec func catUnion(rl []*categoryRange, n int, cp int) int decreases n =
  n <= 0 ? 0 : (inRange(rl[n-1], cp) ? bor(catUnion(rl, n-1, cp), rl[n-1].categories) : catUnion(rl, n-1, cp))

spec func wfCat(cc *CharacterCategory) bool =
  forall i int {cc.rangeList[i]} :: 0 <= i && i < len(cc.rangeList) ==> cc.rangeList[i] != nil

// the categories of a character: of all ranges that contain it, or the default
spec func catOf(cc *CharacterCategory, cp int) int = catUnion(cc.rangeList, len(cc.rangeList), cp) == 0 ? 1 : catUnion(cc.rangeList, len(cc.rangeList), cp)

func (cc *CharacterCategory).GetCategoryTypes(cp) (res)
  requires wfCat(cc)
  loop 1:
    invariant categories == catUnion(cc.rangeList, $i, cp)
  ensures[union] res == catOf(cc, cp)

// ---- category names
func GetCategoryType(s) (t, err)
  modifies nothing
  ensures[names] err == nil ==> t == (s == "DEFAULT" ? 1 : (s == "SPACE" ? 2 : (s == "KANJI" ? 4 : (s == "SYMBOL" ? 8 : (s == "NUMERIC" ? 16 : (s == "ALPHA" ? 32 : (s == "HIRAGANA" ? 64 : (s == "KATAKANA" ? 128 : (s == "KANJINUMERIC" ? 256 : (s == "GREEK" ? 512 : (s == "CYRILLIC" ? 1024 : (s == "USER1" ? 2048 : (s == "USER2" ? 4096 : (s == "USER3" ? 8192 : (s == "USER4" ? 16384 : 32768)))))))))))))))
  ensures[unknown] err == nil ==> s == "DEFAULT" || s == "SPACE" || s == "KANJI" || s == "SYMBOL" || s == "NUMERIC" || s == "ALPHA" || s == "HIRAGANA" || s == "KATAKANA" || s == "KANJINUMERIC" || s == "GREEK" || s == "CYRILLIC" || s == "USER1" || s == "USER2" || s == "USER3" || s == "USER4" || s == "NOOOVBOW"
  ensures[known] s == "DEFAULT" || s == "SPACE" || s == "KANJI" || s == "SYMBOL" || s == "NUMERIC" || s == "ALPHA" || s == "HIRAGANA" || s == "KATAKANA" || s == "KANJINUMERIC" || s == "GREEK" || s == "CYRILLIC" || s == "USER1" || s == "USER2" || s == "USER3" || s == "USER4" || s == "NOOOVBOW" ==> err == nil

// ---- the definition parser
spec func hexVal(s seq[int]) int
spec rec func startsWith(s seq[int], p seq[int]) bool decreases 0 = len(p) <= len(s) && (forall i int {p[i]} :: 0 <= i && i < len(p) ==> s[i] == p[i])
func decodeHexStrToInt32(s) (v, err)
  modifies nothing
  ensures[refused] (err == nil) == numOk(seq(s))
  ensures[value] err == nil ==> startsWith(seq(s), seq("0x")) && v == hexVal(seq(s, 2, len(s)))
  ensures[range] 0 <= v && v <= 2147483647

spec func catName(s seq[int]) bool = s == "DEFAULT" || s == "SPACE" || s == "KANJI" || s == "SYMBOL" || s == "NUMERIC" || s == "ALPHA" || s == "HIRAGANA" || s == "KATAKANA" || s == "KANJINUMERIC" || s == "GREEK" || s == "CYRILLIC" || s == "USER1" || s == "USER2" || s == "USER3" || s == "USER4" || s == "NOOOVBOW"
spec func catCode(s seq[int]) int = s == "DEFAULT" ? 1 : (s == "SPACE" ? 2 : (s == "KANJI" ? 4 : (s == "SYMBOL" ? 8 : (s == "NUMERIC" ? 16 : (s == "ALPHA" ? 32 : (s == "HIRAGANA" ? 64 : (s == "KATAKANA" ? 128 : (s == "KANJINUMERIC" ? 256 : (s == "GREEK" ? 512 : (s == "CYRILLIC" ? 1024 : (s == "USER1" ? 2048 : (s == "USER2" ? 4096 : (s == "USER3" ? 8192 : (s == "USER4" ? 16384 : 32768))))))))))))))
spec rec func isCat(s seq[int]) bool decreases 0 = catName(s)
spec rec func codeOf(s seq[int]) int decreases 0 = catCode(s)
// what a definition line says: a range of characters and their categories
spec rec func numOk(s seq[int]) bool decreases 0 = startsWith(s, seq("0x")) && isHex31(seq(s, 2, len(s)))
spec rec func numOf(s seq[int]) int decreases 0 = hexVal(seq(s, 2, len(s)))
spec func edge(l seq[int], i int) seq[int] = columnAt(fieldAt(l, 0), seq(".."), i)
spec func edges(l seq[int]) int = nColumns(fieldAt(l, 0), seq(".."))
spec rec func lowOf(l seq[int]) int decreases 0 = numOf(edge(l, 0))
spec rec func highOf(l seq[int]) int decreases 0 = edges(l) > 1 ? numOf(edge(l, 1)) : numOf(edge(l, 0))
spec func rangeOk(l seq[int]) bool = edges(l) <= 2 && numOk(edge(l, 0)) && (edges(l) > 1 ==> numOk(edge(l, 1))) && lowOf(l) <= highOf(l)
spec func lastCat(l seq[int], i int) bool = i >= nFields(l) || startsWith(fieldAt(l, i), seq("#"))
spec rec func catsOk(l seq[int], i int) bool decreases nFields(l) - i = lastCat(l, i) || (isCat(fieldAt(l, i)) && catsOk(l, i+1))
spec rec func catsFrom(l seq[int], i int, acc int) int decreases nFields(l) - i = lastCat(l, i) ? acc : catsFrom(l, i+1, bor(acc, codeOf(fieldAt(l, i))))
spec rec func catsOf(l seq[int]) int decreases 0 = catsFrom(l, 1, 0)
spec rec func rangeLine(l seq[int]) bool decreases 0 = !skipLine(l) && nFields(l) >= 2 && startsWith(fieldAt(l, 0), seq("0x"))
spec rec func defLineOk(l seq[int]) bool decreases 0 = skipLine(l) || (nFields(l) >= 2 && (startsWith(fieldAt(l, 0), seq("0x")) ==> rangeOk(l) && catsOk(l, 1)))
spec func rangeFrom(r *categoryRange, l seq[int]) bool = r != nil && r.low == lowOf(l) && r.high == highOf(l) && r.categories == catsOf(l)
spec rec func rangesIn(R seq[int]) int decreases len(R) = len(R) == 0 || !restShort(R) ? 0 : (rangeLine(lineOf(R)) ? 1 : 0) + rangesIn(restOf(R))
spec rec func nthRange(R seq[int], n int) seq[int] decreases len(R) = len(R) == 0 || !restShort(R) ? R :
  (rangeLine(lineOf(R)) ? (n <= 0 ? lineOf(R) : nthRange(restOf(R), n-1)) : nthRange(restOf(R), n))
spec rec func defsOk(R seq[int]) bool decreases len(R) = len(R) == 0 || !restShort(R) || (defLineOk(lineOf(R)) && defsOk(restOf(R)))

func NewCharacterCategory() (cc)
  property C07, C27
  modifies nothing
  ensures cc != nil && isfresh(cc) && len(cc.rangeList) == 0 && base(cc.rangeList) == nil
spec func okRange(r *categoryRange) bool = r != nil && 0 <= r.low && r.low <= r.high && r.high <= 2147483647
func (cc *CharacterCategory).ReadCharacterDefinition(charDefReader) (err)
  requires forall i int {cc.rangeList[i]} :: 0 <= i && i < len(cc.rangeList) ==> okRange(cc.rangeList[i])
  requires charDefReader != nil && charDefReader.term != nil && charDefReader.term != bufio.ErrBufferFull
  modifies cc.rangeList, elems(cc.rangeList)
  nomerge
  at entry { letv R0 := charDefReader.rest letv n0 := len(cc.rangeList) }
  at loop 1 begin { letv R := r.r.rest letv N := len(cc.rangeList) - n0 if len(R) > 0 { use restShorter(R) } }
  at call ReadLine after { letv failed := $result1 letv L := lineOf(R) if failed == nil { assert[line] seq($result0) == L && r.r.rest == restOf(R) && len(R) > 0 } }
  at call IsSkipLine after { letv l0 := $arg0 assert[bytes] (forall j int {l0[j]} :: 0 <= j && j < len(l0) ==> l0[j] == L[j]) && (forall j int {L[j]} :: 0 <= j && j < len(L) ==> l0[j] == L[j]) assert[skip] $result == skipLine(L) }
  at call Fields after { assert[fields] $arg0 == L && !skipLine(L) }
  at call Split before { assert[range] rangeLine(L) && $arg0 == fieldAt(L, 0) && $arg1 == ".." && nthRange(R0, N) == L }
  at loop 1 exit { if failed == io.EOF { assert[all] len(R) == 0 } }
  loop 1:
    invariant[whole] defsOk(R0) == defsOk(r.r.rest)
    invariant[count] len(cc.rangeList) - n0 + rangesIn(r.r.rest) == rangesIn(R0)
    invariant[nth] forall n int {nthRange(R0, n)} :: n >= len(cc.rangeList) - n0 ==> nthRange(R0, n) == nthRange(r.r.rest, n - (len(cc.rangeList) - n0))
    invariant[defs] forall i int {cc.rangeList[i]} :: n0 <= i && i < len(cc.rangeList) ==> rangeFrom(cc.rangeList[i], nthRange(R0, i - n0)) && isfresh(cc.rangeList[i]) && allocated(cc.rangeList[i])
    invariant[reader] (isfresh(r.rawBuffer) || r.rawBuffer == nil) && isfresh(r.r.buf) && (r.rawBuffer == nil || base(r.rawBuffer) != base(r.r.buf))
    invariant[ranges] forall i int {cc.rangeList[i]} :: 0 <= i && i < len(cc.rangeList) ==> okRange(cc.rangeList[i])
    invariant[kept] len(cc.rangeList) >= old(len(cc.rangeList)) && (forall i int {cc.rangeList[i]} :: 0 <= i && i < old(len(cc.rangeList)) ==> cc.rangeList[i] == old(cc.rangeList[i]))
    invariant[own] base(cc.rangeList) == old(base(cc.rangeList)) || isfresh(cc.rangeList)
    invariant[same] forall x *categoryRange {x.low} :: old(allocated(x)) ==> x.low == old(x.low) && x.high == old(x.high) && x.categories == old(x.categories)
  loop 2:
    invariant 1 <= i && catrange.low == lowOf(L) && catrange.high == highOf(L) && rangeOk(L) && isfresh(catrange) && allocated(catrange)
    invariant[cats] catsFrom(L, 1, 0) == catsFrom(L, i, catrange.categories) && catsOk(L, 1) == catsOk(L, i)
    decreases len(cols) - i
  ensures[ranges] forall i int {cc.rangeList[i]} :: 0 <= i && i < len(cc.rangeList) ==> okRange(cc.rangeList[i])
  ensures[kept] len(cc.rangeList) >= old(len(cc.rangeList)) && (forall i int {cc.rangeList[i]} :: 0 <= i && i < old(len(cc.rangeList)) ==> cc.rangeList[i] == old(cc.rangeList[i]))
  ensures[whole] err == nil ==> defsOk(old(charDefReader.rest))
  ensures[count] err == nil ==> len(cc.rangeList) == old(len(cc.rangeList)) + rangesIn(old(charDefReader.rest))
  ensures[defs] forall i int {cc.rangeList[i]} :: old(len(cc.rangeList)) <= i && i < len(cc.rangeList) ==> rangeFrom(cc.rangeList[i], nthRange(old(charDefReader.rest), i - old(len(cc.rangeList))))
