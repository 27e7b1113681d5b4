package gosudachi
properties C04

spec func wfBuilder(b *InputTextBuilder) bool =
  len(b.textOffsets) == len(b.modifiedRunes) + 1 && b.grammar != nil &&
  (forall i int, j int {b.textOffsets[i], b.textOffsets[j]} :: 0 <= i && i <= j && j < len(b.textOffsets) ==> b.textOffsets[i] <= b.textOffsets[j])

// a text being edited whose map leads from its begin to its end
spec func builderOk(b *InputTextBuilder) bool =
  wfBuilder(b) && validRunes(seq(b.modifiedRunes)) && b.textOffsets[0] == 0 && b.textOffsets[len(b.textOffsets)-1] == len(runes(b.OriginalText))
func NewInputTextBuilder(text, grammar) (b)
  modifies nothing
  ensures b != nil && isfresh(b) && isfresh(b.modifiedRunes) && isfresh(b.textOffsets) && b.grammar == grammar && b.OriginalText == text
  ensures[text] seq(b.modifiedRunes) == runes(text) && len(b.modifiedRunes) >= 0
  ensures[map] len(b.textOffsets) == len(b.modifiedRunes) + 1 && forall i int {b.textOffsets[i]} :: 0 <= i && i < len(b.textOffsets) ==> b.textOffsets[i] == i
  loop 1:
    invariant 0 <= i && i <= len(modifiedRunes) && isfresh(textOffsets)
    invariant forall k int {textOffsets[k]} :: 0 <= k && k < i ==> textOffsets[k] == k
    decreases len(modifiedRunes) - i

func (b *InputTextBuilder).GetText() (r)
  modifies nothing
  ensures isfresh(r) && seq(r) == seq(b.modifiedRunes)

lemma validSplice(t seq[int], r seq[int], b int, e int)
  property C02
  requires 0 <= b && b <= e && e <= len(t)
  ensures validRunes(t) && validRunes(r) ==> validRunes(seq(t, 0, b) ++ r ++ seq(t, e, len(t)))
func (b *InputTextBuilder).Replace(begin, end, runes)
  requires wfBuilder(b) && 0 <= begin && begin <= end && end <= len(b.modifiedRunes)
  requires base(runes) != base(b.modifiedRunes) || base(runes) == nil
  modifies b.modifiedRunes, b.textOffsets, elems(b.modifiedRunes), elems(b.textOffsets)
  at entry { letv T0 := seq(b.modifiedRunes) letv R0 := seq(runes) }
  at return {
    assert[spliced] seq(b.modifiedRunes) == seq(T0, 0, begin) ++ R0 ++ seq(T0, end, len(T0))
    use validSplice(T0, R0, begin, end)
  }
  loop 1:
    invariant 0 <= i && i <= rl
    invariant forall k int {b.textOffsets[k]} :: begin <= k && k < begin + i ==> b.textOffsets[k] == offset
    invariant forall k int {b.textOffsets[k]} :: 0 <= k && k < begin ==> b.textOffsets[k] == old(b.textOffsets[k])
    invariant forall k int {b.textOffsets[k]} :: begin + rl <= k && k < len(b.textOffsets) ==> b.textOffsets[k] == old(b.textOffsets[k - rl + tlen])
    decreases rl - i
  ensures[splice] seq(b.modifiedRunes) == old(seq(b.modifiedRunes, 0, begin)) ++ old(seq(runes)) ++ old(seq(b.modifiedRunes, end, len(b.modifiedRunes)))
  ensures[maplen] len(b.textOffsets) == len(b.modifiedRunes) + 1
  ensures[mapbefore] forall k int {b.textOffsets[k]} :: 0 <= k && k < begin ==> b.textOffsets[k] == old(b.textOffsets[k])
  ensures[mapinside] forall k int {b.textOffsets[k]} :: begin <= k && k < begin + len(runes) ==> b.textOffsets[k] == old(b.textOffsets[begin])
  ensures[mapafter] forall k int {b.textOffsets[k]} :: begin + len(runes) <= k && k < len(b.textOffsets) ==> b.textOffsets[k] == old(b.textOffsets[k - len(runes) + (end - begin)])
  ensures[wf] wfBuilder(b)
  ensures[ok] old(builderOk(b)) && old(validRunes(seq(runes))) && (len(runes) > 0 || begin == end) ==> builderOk(b)
  ensures base(b.modifiedRunes) == old(base(b.modifiedRunes)) || isfresh(b.modifiedRunes)
  ensures base(b.textOffsets) == old(base(b.textOffsets)) || isfresh(b.textOffsets)

// ---- any number of replacements: own[i] is where character i stood in the original text, or -1 if it came from a replacement
spec func histOk(orig seq[int], text seq[int], offs seq[int], own seq[int]) bool =
  len(own) == len(text) && len(offs) == len(text) + 1 && offs[len(text)] == len(orig) &&
  (forall i int {own[i]} {text[i]} {offs[i]} :: 0 <= i && i < len(text) && own[i] >= 0 ==> own[i] < len(orig) && offs[i] == own[i] && text[i] == orig[own[i]])
// what Replace's postconditions say of the new text and map
spec func spliced(text seq[int], offs seq[int], b int, e int, rep seq[int], text2 seq[int], offs2 seq[int]) bool =
  0 <= b && b <= e && e <= len(text) && text2 == seq(text, 0, b) ++ rep ++ seq(text, e, len(text)) && len(offs2) == len(text2) + 1 &&
  (forall k int {offs2[k]} :: 0 <= k && k < b ==> offs2[k] == offs[k]) &&
  (forall k int {offs2[k]} :: b <= k && k < b + len(rep) ==> offs2[k] == offs[b]) &&
  (forall k int {offs2[k]} :: b + len(rep) <= k && k < len(offs2) ==> offs2[k] == offs[k - len(rep) + (e - b)])
lemma historyStart(text seq[int], offs seq[int], own seq[int])
  property C04
  requires len(offs) == len(text) + 1 && len(own) == len(text) && (forall i int {offs[i]} :: 0 <= i && i < len(offs) ==> offs[i] == i) && (forall i int {own[i]} :: 0 <= i && i < len(own) ==> own[i] == i)
  ensures histOk(text, text, offs, own)
lemma historyStep(orig seq[int], text seq[int], offs seq[int], own seq[int], b int, e int, rep seq[int], text2 seq[int], offs2 seq[int], own2 seq[int])
  property C04
  requires histOk(orig, text, offs, own) && spliced(text, offs, b, e, rep, text2, offs2) && len(own2) == len(text2)
  requires (forall k int {own2[k]} :: 0 <= k && k < b ==> own2[k] == own[k]) && (forall k int {own2[k]} :: b <= k && k < b + len(rep) ==> own2[k] < 0) &&
    (forall k int {own2[k]} :: b + len(rep) <= k && k < len(own2) ==> own2[k] == own[k - len(rep) + (e - b)])
  ensures histOk(orig, text2, offs2, own2)

// ---- runs of characters with a common category (C08)
// the categories characters i..j-1 have in common
spec rec func runAnd(c seq[int], i int, j int) int decreases j - i = j <= i + 1 ? c[i] : band(runAnd(c, i, j-1), c[j-1])
// where the run of character k begins / ends when runs are taken from the left, each as long as possible
spec rec func runBegin(c seq[int], k int) int decreases k = k <= 0 ? 0 : (runAnd(c, runBegin(c, k-1), k+1) != 0 ? runBegin(c, k-1) : k)
spec rec func runEnd(c seq[int], k int) int decreases len(c) - k = k + 1 >= len(c) ? len(c) : (runBegin(c, k+1) == k+1 ? k+1 : runEnd(c, k+1))
// n characters from i on: a run that cannot be longer
spec func isRun(c seq[int], i int, n int) bool =
  1 <= n && i + n <= len(c) && (forall m int {runAnd(c, i, m)} :: i + 1 < m && m <= i + n ==> runAnd(c, i, m) != 0) && (i + n < len(c) ==> runAnd(c, i, i+n+1) == 0)
lemma runBeginIn(c seq[int], i int, n int, k int)
  requires 0 <= i && runBegin(c, i) == i && isRun(c, i, n) && i <= k && k < i + n
  ensures runBegin(c, k) == i
  decreases k
  proof { if k > i { use runBeginIn(c, i, n, k-1) assert runAnd(c, i, k+1) != 0 } }
lemma runBeginNext(c seq[int], i int, n int)
  requires 0 <= i && runBegin(c, i) == i && isRun(c, i, n) && i + n < len(c)
  ensures runBegin(c, i+n) == i + n
  proof { use runBeginIn(c, i, n, i+n-1) }
lemma runEndIn(c seq[int], i int, n int, k int)
  requires 0 <= i && runBegin(c, i) == i && isRun(c, i, n) && i <= k && k < i + n
  ensures runEnd(c, k) == i + n
  decreases i + n - k
  proof { if k + 1 < i + n { use runEndIn(c, i, n, k+1) use runBeginIn(c, i, n, k+1) } else { if i + n < len(c) { use runBeginNext(c, i, n) } } }
func getCharCategoryContinuousLength(charCategories, offset) (n)
  property C08
  requires 0 <= offset && offset < len(charCategories)
  modifies nothing
  loop 1:
    invariant 1 <= length && length <= len(charCategories) - offset
    invariant continuousCategory == runAnd(seq(charCategories), offset, offset+length)
    invariant forall m int {runAnd(seq(charCategories), offset, m)} :: offset + 1 < m && m <= offset + length ==> runAnd(seq(charCategories), offset, m) != 0
    decreases len(charCategories) - offset - length
  ensures[run] isRun(seq(charCategories), offset, n)
// a word may begin at character k
spec func bowOk(c seq[int], k int) bool =
  k == 0 || !((band(c[k], dictionary.ALPHA) == dictionary.ALPHA || band(c[k], dictionary.GREEK) == dictionary.GREEK || band(c[k], dictionary.CYRILLIC) == dictionary.CYRILLIC) && band(c[k-1], c[k]) != 0)

// ---- the byte view
spec func wfView(t *InputText, rs seq[int]) bool =
  seq(t.Bytea) == t.ModifiedText && t.ModifiedText == strOfRunes(rs) && validRunes(rs) &&
  len(t.byteIndexes) == len(t.Bytea) + 1 && len(t.offsets) == len(t.Bytea) + 1 && t.byteIndexes[len(t.Bytea)] == len(rs) &&
  (forall k int {t.byteIndexes[k]} :: 0 <= k && k < len(t.Bytea) ==> 0 <= t.byteIndexes[k] && t.byteIndexes[k] < len(rs) && boff(rs, t.byteIndexes[k]) <= k && k < boff(rs, t.byteIndexes[k]+1))
// what is known per character: its categories, where its run ends, whether a word may begin at it
spec func wfRuns(t *InputText, rs seq[int]) bool =
  len(t.charCategories) == len(rs) && len(t.canBowList) == len(rs) && len(t.charCategoryContinuities) == len(t.Bytea) &&
  (forall k int {t.charCategoryContinuities[k]} :: 0 <= k && k < len(t.Bytea) ==> t.charCategoryContinuities[k] == boff(rs, runEnd(seq(t.charCategories), t.byteIndexes[k])) - k) &&
  (forall k int {t.canBowList[k]} :: 0 <= k && k < len(rs) ==> t.canBowList[k] == bowOk(seq(t.charCategories), k))

func (b *InputTextBuilder).Build() (t)
  requires wfBuilder(b) && validRunes(seq(b.modifiedRunes)) && b.grammar.CharCategory != nil && wfCat(b.grammar.CharCategory)
  modifies nothing
  loop 1:
    invariant 0 <= i && i <= runeCount && isfresh(charCategoryTypes)
    invariant forall k int {charCategoryTypes[k]} :: 0 <= k && k < i ==> charCategoryTypes[k] == catOf(b.grammar.CharCategory, b.modifiedRunes[k])
    decreases runeCount - i
  at entry { letv rs := seq(b.modifiedRunes) use encLen(rs) }
  loop 2:
    invariant 0 <= i && i <= runeCount && pi == boff(rs, i) && isfresh(indexes) && isfresh(offsets) && isfresh(sizes) && isfresh(charCategoryTypes)
    invariant len(p) == bytelength - pi && base(p) == base(keepp) && off(p) == off(keepp) + pi
    invariant forall k int {indexes[k]} :: 0 <= k && k < pi ==> 0 <= indexes[k] && indexes[k] < i && boff(rs, indexes[k]) <= k && k < boff(rs, indexes[k]+1) && offsets[k] == b.textOffsets[indexes[k]]
    invariant forall k int {sizes[k]} :: 0 <= k && k < i ==> sizes[k] == rlen(rs[k])
    decreases len(p)
  at loop 2 begin { if len(p) > 0 { use boffMono(rs, i, runeCount) use encAt(rs, i) use decodeSuffix(strOfRunes(rs), seq(p), pi) } else { use boffMono(rs, i, runeCount) } }
  loop 3:
    invariant 0 <= j && j <= size && pi == boff(rs, i) + j
    invariant forall k int {indexes[k]} :: 0 <= k && k < pi ==> 0 <= indexes[k] && indexes[k] <= i && boff(rs, indexes[k]) <= k && k < boff(rs, indexes[k]+1) && offsets[k] == b.textOffsets[indexes[k]]
    decreases size - j
  loop 4:
    invariant 0 <= i && i <= runeCount && pi == boff(rs, i) && (i < runeCount ==> runBegin(seq(charCategoryTypes), i) == i) && isfresh(charCategoryContinuities)
    invariant forall k int {charCategoryContinuities[k]} :: 0 <= k && k < pi ==> charCategoryContinuities[k] == boff(rs, runEnd(seq(charCategoryTypes), indexes[k])) - k
    decreases runeCount - i
  at call getCharCategoryContinuousLength after {
    if i + $result < runeCount { use runBeginNext(seq(charCategoryTypes), i, $result) }
    use boffMono(rs, i, i + $result)
    use boffMono(rs, i + $result, runeCount)
  }
  loop 5:
    invariant i <= j && j <= next && length == boff(rs, j) - boff(rs, i)
    decreases next - j
  loop 6:
    invariant 0 <= k && pi + k == boff(rs, next) && boff(rs, i) <= pi
    invariant forall q int {charCategoryContinuities[q]} :: 0 <= q && q < pi ==> charCategoryContinuities[q] == boff(rs, runEnd(seq(charCategoryTypes), indexes[q])) - q
    decreases k
  at loop 6 begin {
    if k > 0 {
      letv c := indexes[pi]
      if c + 1 <= i { use boffMono(rs, c+1, i) }
      if next <= c { use boffMono(rs, next, c) }
      use runEndIn(seq(charCategoryTypes), i, next - i, c)
    }
  }
  loop 7:
    invariant 1 <= i && i <= runeCount && isfresh(canBowList)
    invariant forall k int {canBowList[k]} :: 0 <= k && k < i ==> canBowList[k] == bowOk(seq(charCategoryTypes), k)
    decreases runeCount - i
  property C04, C08
  ensures t != nil && isfresh(t)
  ensures[view] wfView(t, seq(b.modifiedRunes)) && runes(t.ModifiedText) == seq(b.modifiedRunes) && wfInput(t)
  ensures[map] (forall k int {t.offsets[k]} :: 0 <= k && k < len(t.Bytea) ==> t.offsets[k] == b.textOffsets[t.byteIndexes[k]]) && t.offsets[len(t.Bytea)] == b.textOffsets[len(b.textOffsets)-1]
  ensures[original] t.OriginalText == b.OriginalText
  ensures[cats] forall k int {t.charCategories[k]} :: 0 <= k && k < len(b.modifiedRunes) ==> t.charCategories[k] == catOf(b.grammar.CharCategory, b.modifiedRunes[k])
  ensures[runs] wfRuns(t, seq(b.modifiedRunes))

// ---- reading an input text (t as Build made it)
spec func txt(t *InputText) seq[int] = runes(t.ModifiedText)
spec func wfInput(t *InputText) bool = wfView(t, runes(t.ModifiedText)) && wfRuns(t, runes(t.ModifiedText))
// k is the first byte of a character, or the end
spec func aligned(t *InputText, k int) bool = 0 <= k && k <= len(t.Bytea) && boff(txt(t), t.byteIndexes[k]) == k
lemma charMono(t *InputText, i int, j int)
  requires t != nil && wfInput(t) && 0 <= i && i <= j && j <= len(t.Bytea)
  ensures 0 <= t.byteIndexes[i] && t.byteIndexes[i] <= t.byteIndexes[j] && t.byteIndexes[j] <= len(txt(t)) && boff(txt(t), t.byteIndexes[i]) <= i
  proof {
    use encLen(txt(t))
    if t.byteIndexes[j] < t.byteIndexes[i] { use boffMono(txt(t), t.byteIndexes[j]+1, t.byteIndexes[i]) }
  }

lemma charAt(t *InputText, e int)
  requires t != nil && wfInput(t) && 0 <= e && e <= len(txt(t))
  ensures 0 <= boff(txt(t), e) && boff(txt(t), e) <= len(t.Bytea) && t.byteIndexes[boff(txt(t), e)] == e && aligned(t, boff(txt(t), e)) && (e < len(txt(t)) ==> boff(txt(t), e) < len(t.Bytea))
  proof {
    use encLen(txt(t))
    use boffMono(txt(t), 0, e)
    use boffMono(txt(t), e, len(txt(t)))
    if e < len(txt(t)) {
      letv k := t.byteIndexes[boff(txt(t), e)]
      if k < e { use boffMono(txt(t), k+1, e) }
      if e < k { use boffMono(txt(t), e+1, k) }
    }
  }
lemma runEndRange(c seq[int], k int)
  requires 0 <= k && k < len(c)
  ensures k < runEnd(c, k) && runEnd(c, k) <= len(c)
  decreases len(c) - k
  proof { if k + 1 < len(c) && runBegin(c, k+1) != k+1 { use runEndRange(c, k+1) } }

func (t *InputText).GetText() (s)
  modifies nothing
  ensures s == t.ModifiedText
func (t *InputText).GetByteText() (s)
  modifies nothing
  ensures s == t.Bytea
func (t *InputText).GetOffsetTextLength(index) (n)
  requires wfInput(t) && 0 <= index && index <= len(t.Bytea)
  modifies nothing
  ensures[char] n == t.byteIndexes[index]
func (t *InputText).GetOriginalIndex(index) (n)
  requires wfInput(t) && 0 <= index && index < len(t.offsets)
  modifies nothing
  ensures[orig] n == t.offsets[index]
func (t *InputText).CodePointCount(begin, end) (n)
  requires wfInput(t) && 0 <= begin && begin <= end && end <= len(t.Bytea)
  modifies nothing
  ensures[count] n == t.byteIndexes[end] - t.byteIndexes[begin]
func (t *InputText).GetSubstring(begin, end) (s)
  property C04, C18
  requires wfInput(t) && 0 <= begin && begin <= end && end <= len(t.Bytea)
  modifies nothing
  at entry { use charMono(t, begin, end) use encSub(txt(t), t.byteIndexes[begin], t.byteIndexes[end]) }
  ensures[runes] s == strOfRunes(seq(txt(t), t.byteIndexes[begin], t.byteIndexes[end]))
  ensures[bytes] aligned(t, begin) && aligned(t, end) ==> s == seq(t.Bytea, begin, end)
func (t *InputText).GetCodePointsOffsetLength(index, codePointOffset) (n)
  property C04, C18
  requires wfInput(t) && 0 <= index && index <= len(t.Bytea) && codePointOffset >= 0
  modifies nothing
  loop 1:
    invariant index <= i && i <= len(t.Bytea) && length == i - index
    invariant i > index ==> t.byteIndexes[i-1] < target
    decreases len(t.Bytea) - i
  at return {
    letv tg := t.byteIndexes[index] + codePointOffset
    letv i := index + n
    use encLen(txt(t))
    if i > index { use boffMono(txt(t), t.byteIndexes[i-1]+1, min(tg, len(txt(t)))) }
    if tg <= len(txt(t)) { if i < len(t.Bytea) { use boffMono(txt(t), tg, t.byteIndexes[i]) } else { use boffMono(txt(t), tg, len(txt(t))) } }
  }
  ensures[range] 0 <= n && index + n <= len(t.Bytea)
  ensures[len] codePointOffset >= 1 ==> index + n == boff(txt(t), min(t.byteIndexes[index] + codePointOffset, len(txt(t))))

func (t *InputText).IsCharAlignment(index) (res)
  property C04, C08
  requires wfInput(t) && 0 <= index && index < len(t.Bytea)
  modifies nothing
  at entry { use encLead(txt(t), t.byteIndexes[index]) if boff(txt(t), t.byteIndexes[index]) < index { use encCont(txt(t), t.byteIndexes[index], index) } }
  ensures[first] res == aligned(t, index)
func (t *InputText).CanBow(index) (res)
  property C08
  requires wfInput(t) && 0 <= index && index < len(t.Bytea)
  modifies nothing
  ensures[bow] res == (aligned(t, index) && bowOk(seq(t.charCategories), t.byteIndexes[index]))
func (t *InputText).GetCharCategoryContinuousLength(index) (n)
  property C08
  requires wfInput(t) && 0 <= index && index < len(t.Bytea)
  modifies nothing
  ensures[rest] index + n == boff(txt(t), runEnd(seq(t.charCategories), t.byteIndexes[index]))
func (t *InputText).GetCharCategoryTypes(index) (c)
  property C08
  requires wfInput(t) && 0 <= index && index < len(t.Bytea)
  modifies nothing
  ensures[cats] c == t.charCategories[t.byteIndexes[index]]
func (t *InputText).GetCharCategoryTypesRange(begin, end) (c)
  property C08
  requires wfInput(t) && 0 <= begin && begin <= end && begin < len(t.Bytea) && end <= len(t.Bytea)
  modifies nothing
  at entry { use charMono(t, begin, end) }
  loop 1:
    invariant b < i && (i <= e || i == b + 1) && continuousCategory == runAnd(seq(t.charCategories), b, i)
    decreases e - i
  ensures[left] boff(txt(t), runEnd(seq(t.charCategories), t.byteIndexes[begin])) < end ==> c == 0
  ensures[common] boff(txt(t), runEnd(seq(t.charCategories), t.byteIndexes[begin])) >= end ==> c == runAnd(seq(t.charCategories), t.byteIndexes[begin], t.byteIndexes[end])
