// Words of several dictionaries keep their identity (C13): ids carry the dictionary in their top four bits.
package dictionary
properties C13

spec func dictOf(id int) int = uint32(id) / 268435456
spec func localOf(id int) int = uint32(id) % 268435456
spec rec func idIn(d int, x int) int decreases 0 = d > 0 ? int32(bor(uint32(d * 268435456), uint32(x))) : x
lemma joinId(x uint32, y uint32) bv
  requires y < 268435456
  requires x % 268435456 == 0
  ensures[join] bor(x, y) == x + y
lemma joinIdS(x int32, y int32) bv
  requires 0 <= y && y < 268435456
  requires uint32(x) % 268435456 == 0
  ensures[join] bor(x, y) == x + y
// an id leads back to where it came from
lemma idRound(d int, x int)
  property C13
  requires 0 <= d && d < 16 && 0 <= x && x < 268435456
  ensures[dict] dictOf(idIn(d, x)) == d
  ensures[local] localOf(idIn(d, x)) == x
  proof { use joinId(uint32(d * 268435456), uint32(x)) }

spec func wfSet(s *LexiconSet) bool =
  1 <= len(s.lexicons) && len(s.lexicons) <= 16 && len(s.posOffsets) == len(s.lexicons) &&
  (forall d int {s.lexicons[d]} :: 0 <= d && d < len(s.lexicons) ==> wfLex(s.lexicons[d]) && s.lexicons[d].wordParams.size < 268435456)
// id is a word of one of the dictionaries
spec func inSet13(s *LexiconSet, id int) bool = dictOf(id) < len(s.lexicons) && hasWord(s.lexicons[dictOf(id)], localOf(id))

func NewLexiconSet(systemLexicon) (s)
  modifies nothing
  ensures s != nil && isfresh(s) && seq(s.lexicons) == [systemLexicon] && len(s.lexicons) == 1 && s.lexicons[0] == systemLexicon && seq(s.posOffsets) == [0] && isfresh(s.lexicons) && isfresh(s.posOffsets)
func (s *LexiconSet).Add(lexicon, posOffset)
  modifies s.lexicons, s.posOffsets, elems(s.lexicons), elems(s.posOffsets)
  ensures[grown] len(s.lexicons) == old(len(s.lexicons)) + 1 && s.lexicons[old(len(s.lexicons))] == lexicon && (forall k int {s.lexicons[k]} :: 0 <= k && k < old(len(s.lexicons)) ==> s.lexicons[k] == old(s.lexicons[k]))
  ensures[home] (base(s.lexicons) == old(base(s.lexicons)) || isfresh(s.lexicons)) && (base(s.posOffsets) == old(base(s.posOffsets)) || isfresh(s.posOffsets))
  ensures[lexicon] seq(s.lexicons) == old(seq(s.lexicons)) ++ [lexicon]
  ensures[offset] seq(s.posOffsets) == old(seq(s.posOffsets)) ++ [posOffset]
func (s *LexiconSet).IsFull() (b)
  modifies nothing
  ensures[full] b == (len(s.lexicons) >= 16)
func (s *LexiconSet).GetDictionaryId(wordId) (d)
  modifies nothing
  ensures[dict] d == dictOf(wordId) && 0 <= d && d < 16
func (s *LexiconSet).GetLeftId(wordId) (x)
  requires wfSet(s) && inSet13(s, wordId)
  modifies nothing
  ensures[left] x == pLeft(s.lexicons[dictOf(wordId)].wordParams, localOf(wordId))
func (s *LexiconSet).GetRightId(wordId) (x)
  requires wfSet(s) && inSet13(s, wordId)
  modifies nothing
  ensures[right] x == pRight(s.lexicons[dictOf(wordId)].wordParams, localOf(wordId))
func (s *LexiconSet).GetCost(wordId) (x)
  requires wfSet(s) && inSet13(s, wordId)
  modifies nothing
  ensures[cost] x == pCost(s.lexicons[dictOf(wordId)].wordParams, localOf(wordId))
func (s *LexiconSet).Size() (n)
  requires wfSet(s)
  modifies nothing
  ensures true

// references of a word of dictionary d: to the system dictionary as they are, others into d
spec func refIn(d int, x int) int = dictOf(x) > 0 ? int32(d * 268435456 + localOf(x)) : x
spec func refsIn(a []int32, old seq[int], d int) bool = len(a) == len(old) && (forall i int {a[i]} :: 0 <= i && i < len(a) ==> a[i] == refIn(d, old[i]))
func (s *LexiconSet).convertSplit(split, dictId)
  requires 0 <= dictId && dictId < 16
  modifies elems(split)
  at entry { letv A := seq(split) }
  at loop 1 begin { if $i < len(split) { use joinId(dictId * 268435456, localOf(split[$i])) } }
  loop 1:
    invariant forall i int {split[i]} :: 0 <= i && i < $i ==> split[i] == (dictOf(A[i]) > 0 ? int32(dictId * 268435456 + localOf(A[i])) : A[i])
    invariant forall i int {split[i]} :: $i <= i && i < len(split) ==> split[i] == A[i]
  ensures[refs] dictId > 0 ==> refsIn(split, old(seq(split)), dictId)
  ensures[all] forall i int {split[i]} :: 0 <= i && i < len(split) ==> split[i] == (dictOf(old(seq(split))[i]) > 0 ? int32(dictId * 268435456 + localOf(old(seq(split))[i])) : old(seq(split))[i])

// a part of speech of dictionary d: those of the system dictionary as they are, its own behind its offset
spec func posIn(s *LexiconSet, d int, p int) int = d > 0 && p >= s.posOffsets[1] ? int16(p - s.posOffsets[1] + s.posOffsets[d]) : p
spec func isSetWord(wi *WordInfo, s *LexiconSet, id int) bool =
  let d := dictOf(id) :: let l := s.lexicons[dictOf(id)].wordInfos :: let x := localOf(id) :: let b := seq(l.bytebuffer) :: let w := wide(l) :: let o := wordAt(l, x) ::
  (wi.Surface == rSurface(w, b, o) && wi.HeadwordLength == rLength(w, b, o) && wi.PosId == posIn(s, d, rPos(w, b, o)) &&
   wi.NormalizedForm == rNorm(w, b, o) && wi.DictionaryFormWordId == rDic(w, b, o) && wi.DictionaryForm == dicForm(l, x) &&
   wi.ReadingForm == rReading(w, b, o) && isRefs(wi.AUnitSplit, arrVal(b, oA(w, b, o)), d) &&
   isRefs(wi.BUnitSplit, arrVal(b, oB(w, b, o)), d) && isRefs(wi.WordStructure, arrVal(b, oS(w, b, o)), d))
spec func isRefs(a []int32, old seq[int], d int) bool = len(a) == len(old) && (forall i int {a[i]} :: 0 <= i && i < len(a) ==> a[i] == (dictOf(old[i]) > 0 ? int32(d * 268435456 + localOf(old[i])) : old[i]))
spec func setList(s *LexiconSet, id int) *wordInfoList = s.lexicons[dictOf(id)].wordInfos
// the references as a sequence
spec rec func unitSeq(d int, S seq[int], n int) seq[int] decreases n = n <= 0 ? seq(S, 0, 0) : unitSeq(d, S, n-1) ++ [refIn(d, S[n-1])]
lemma unitSeqOf(a seq[int], d int, S seq[int], n int)
  property C13, C02
  requires 0 <= n && n <= len(a) && n <= len(S) && (forall i int {a[i]} :: 0 <= i && i < n ==> a[i] == refIn(d, S[i]))
  ensures seq(a, 0, n) == unitSeq(d, S, n)
  decreases n
  proof { if n > 0 { use unitSeqOf(a, d, S, n-1) assert seq(a, 0, n) == seq(a, 0, n-1) ++ [a[n-1]] } }
spec rec func setA(s *LexiconSet, id int) seq[int] decreases 0 = let l := setList(s, id) :: let b := seq(l.bytebuffer) :: let w := wide(l) ::
  (let S := arrVal(b, oA(w, b, wordAt(l, localOf(id)))) :: unitSeq(dictOf(id), S, len(S)))
spec rec func setB(s *LexiconSet, id int) seq[int] decreases 0 = let l := setList(s, id) :: let b := seq(l.bytebuffer) :: let w := wide(l) ::
  (let S := arrVal(b, oB(w, b, wordAt(l, localOf(id)))) :: unitSeq(dictOf(id), S, len(S)))
lemma setUnits(s *LexiconSet, id int)
  property C13, C02
  ensures (let l := setList(s, id) :: let b := seq(l.bytebuffer) :: let w := wide(l) :: let S := arrVal(b, oA(w, b, wordAt(l, localOf(id)))) :: setA(s, id) == unitSeq(dictOf(id), S, len(S)))
  ensures (let l := setList(s, id) :: let b := seq(l.bytebuffer) :: let w := wide(l) :: let S := arrVal(b, oB(w, b, wordAt(l, localOf(id)))) :: setB(s, id) == unitSeq(dictOf(id), S, len(S)))
func (s *LexiconSet).GetWordInfo(wordId) (wi)
  requires wfSet(s) && inSet13(s, wordId)
  hide unitSeq, setA, setB
  modifies nothing
  at entry {
    letv d := dictOf(wordId)
    letv ll := s.lexicons[d].wordInfos
    letv x := localOf(wordId)
    letv b := seq(ll.bytebuffer)
    letv w := wide(ll)
    letv o := wordAt(ll, x)
    letv pp := rPos(w, b, o)
    letv a0 := arrVal(b, oA(w, b, o))
    letv b0 := arrVal(b, oB(w, b, o))
    letv s0 := arrVal(b, oS(w, b, o))
    use setUnits(s, wordId)
    assert[setA] setA(s, wordId) == unitSeq(d, a0, len(a0))
    assert[setB] setB(s, wordId) == unitSeq(d, b0, len(b0))
  }
  at call GetWordInfo after { assert[a0] seq($result.AUnitSplit) == a0 assert[b0] seq($result.BUnitSplit) == b0 assert[s0] seq($result.WordStructure) == s0 assert[p0] $result.PosId == pp letv dn := rNorm(w, b, o) letv dd := rDic(w, b, o) letv df := dicForm(ll, x) letv dr := rReading(w, b, o) letv ds := rSurface(w, b, o)
    assert[f0] $result.NormalizedForm == dn && $result.DictionaryFormWordId == dd && $result.DictionaryForm == df && $result.ReadingForm == dr && $result.Surface == ds }
  at return {
    assert[pos] wi.PosId == posIn(s, d, pp)
    assert[forms] wi.NormalizedForm == dn && wi.DictionaryFormWordId == dd && wi.DictionaryForm == df && wi.ReadingForm == dr && wi.Surface == ds
    assert[refA] isRefs(wi.AUnitSplit, a0, d)
    assert[refB] isRefs(wi.BUnitSplit, b0, d)
    assert[refS] isRefs(wi.WordStructure, s0, d)
    letv sa := seq(wi.AUnitSplit)
    letv sb := seq(wi.BUnitSplit)
    use unitSeqOf(sa, d, a0, len(a0))
    use unitSeqOf(sb, d, b0, len(b0))
    assert[wholeA] seq(sa, 0, len(a0)) == sa
    assert[wholeB] seq(sb, 0, len(b0)) == sb
    assert[unitA] sa == unitSeq(d, a0, len(a0))
    assert[unitB] sb == unitSeq(d, b0, len(b0))
  }
  ensures[word] isSetWord(wi, s, wordId)
  ensures[own] wi != nil && isfresh(wi) && isfresh(wi.AUnitSplit) && isfresh(wi.BUnitSplit) && isfresh(wi.WordStructure)
  ensures[length] 0 <= wi.HeadwordLength && wi.HeadwordLength <= 32767
  ensures[units] seq(wi.AUnitSplit) == setA(s, wordId) && seq(wi.BUnitSplit) == setB(s, wordId)

func (s *LexiconSet).GetWordId(headword, posId, readingForm) (id)
  requires wfSet(s)
  modifies nothing
  loop 1:
    invariant 1 <= dictId && dictId <= len(s.lexicons)
    invariant forall d int, k int {isThat(s.lexicons[d].wordInfos, k, headword, posId, readingForm)} :: 1 <= d && d < dictId && hasWord(s.lexicons[d], k) ==> !isThat(s.lexicons[d].wordInfos, k, headword, posId, readingForm)
    decreases len(s.lexicons) - dictId
  at call GetWordId 1 after { if $result >= 0 && dictId < len(s.lexicons) { letv hi := int32(dictId * 268435456) assert[hi] uint32(hi) % 268435456 == 0 use joinIdS(hi, $result) assert[wrap] hi == (dictId < 8 ? dictId * 268435456 : dictId * 268435456 - 4294967296) assert[small] $result < 268435456 && 1 <= dictId && dictId < 16 if dictId < 8 { assert[lo] 0 <= hi + $result && hi + $result < 4294967296 assert[ulo] uint32(hi + $result) == dictId * 268435456 + $result } else { assert[hi2] -4294967296 <= hi + $result && hi + $result < 0 assert[uhi] uint32(hi + $result) == dictId * 268435456 + $result } assert[u] uint32(hi + $result) == dictId * 268435456 + $result assert[id] dictOf(hi + $result) == dictId && localOf(hi + $result) == $result } }
  ensures[found] id != -1 ==> inSet13(s, id) && isThat(s.lexicons[dictOf(id)].wordInfos, localOf(id), headword, posId, readingForm)
  ensures[none] id == -1 ==> (forall d int, k int {isThat(s.lexicons[d].wordInfos, k, headword, posId, readingForm)} :: 0 <= d && d < len(s.lexicons) && hasWord(s.lexicons[d], k) ==> !isThat(s.lexicons[d].wordInfos, k, headword, posId, readingForm))
  ensures[user] id != -1 && dictOf(id) == 0 ==> (forall d int, k int {isThat(s.lexicons[d].wordInfos, k, headword, posId, readingForm)} :: 1 <= d && d < len(s.lexicons) && hasWord(s.lexicons[d], k) ==> !isThat(s.lexicons[d].wordInfos, k, headword, posId, readingForm))

// ---- lookup: the matches of the user dictionaries in order, then those of the system dictionary
spec rec func idsIn(d int, V seq[int]) seq[int] decreases len(V) = len(V) == 0 ? seq(V, 0, 0) : [idIn(d, V[0])] ++ idsIn(d, seq(V, 1, len(V)))
spec func nextDict(d int, n int) int = d + 1 >= n ? 0 : d + 1
spec rec func restIds(L seq[*DoubleArrayLexicon], d int, K seq[int], o int) seq[int] decreases d <= 0 ? 0 : len(L) - d + 1 =
  d <= 0 || d >= len(L) ? seq(K, 0, 0) : idsIn(nextDict(d, len(L)), matchIds(L[nextDict(d, len(L))], K, o)) ++ restIds(L, nextDict(d, len(L)), K, o)
spec rec func restEnds(L seq[*DoubleArrayLexicon], d int, K seq[int], o int) seq[int] decreases d <= 0 ? 0 : len(L) - d + 1 =
  d <= 0 || d >= len(L) ? seq(K, 0, 0) : matchEnds(L[nextDict(d, len(L))], K, o) ++ restEnds(L, nextDict(d, len(L)), K, o)
// all of them: those of the first dictionary asked, then of the rest
spec func firstDict(n int) int = n == 1 ? 0 : 1
spec func allIds(L seq[*DoubleArrayLexicon], K seq[int], o int) seq[int] = idsIn(firstDict(len(L)), matchIds(L[firstDict(len(L))], K, o)) ++ restIds(L, firstDict(len(L)), K, o)
spec func allEnds(L seq[*DoubleArrayLexicon], K seq[int], o int) seq[int] = matchEnds(L[firstDict(len(L))], K, o) ++ restEnds(L, firstDict(len(L)), K, o)
spec rec func setIds(it *LexiconSetIterator) seq[int] decreases 0 = idsIn(it.dictId, itIds(it.dalit)) ++ restIds(seq(it.lexicons), it.dictId, seq(it.text), it.offset)
spec rec func setEnds(it *LexiconSetIterator) seq[int] decreases 0 = itEndsOf(it.dalit) ++ restEnds(seq(it.lexicons), it.dictId, seq(it.text), it.offset)
spec func wfLexicons(L []*DoubleArrayLexicon) bool = 1 <= len(L) && len(L) <= 16 && (forall d int {L[d]} :: 0 <= d && d < len(L) ==> wfLex(L[d]))
spec func wfSetIter(it *LexiconSetIterator) bool =
  it != nil && wfLexicons(it.lexicons) && wfLexIter(it.dalit) && 0 <= it.dictId && it.dictId < len(it.lexicons) && 0 <= it.offset && it.offset <= len(it.text)
func newLexiconSetIterator(text, offset, lexicons) (it)
  requires wfLexicons(lexicons) && 0 <= offset && offset <= len(text)
  modifies nothing
  at return {
    letv L := seq(lexicons)
    letv K := seq(text)
    letv d := firstDict(len(L))
    letv R := restIds(L, d, K, offset)
    letv R2 := restEnds(L, d, K, offset)
    assert[same] it.dictId == d && seq(it.lexicons) == L && seq(it.text) == K && it.offset == offset
    assert[m] itIds(it.dalit) == matchIds(lexicons[d], K, offset) && itEndsOf(it.dalit) == matchEnds(lexicons[d], K, offset) && lexicons[d] == L[d]
    assert[i] setIds(it) == idsIn(d, itIds(it.dalit)) ++ R
    assert[e] setEnds(it) == itEndsOf(it.dalit) ++ R2
  }
  ensures[wf] wfSetIter(it) && isfresh(it) && isfresh(it.dalit) && isfresh(it.dalit.dait) && it.dalit.dait.err == nil
  ensures[ids] setIds(it) == allIds(seq(lexicons), seq(text), offset)
  ensures[ends] setEnds(it) == allEnds(seq(lexicons), seq(text), offset)
func (s *LexiconSet).Lookup(text, offset) (it)
  requires wfSet(s) && 0 <= offset && offset <= len(text)
  modifies nothing
  ensures[wf] wfSetIter(it) && isfresh(it) && isfresh(it.dalit) && isfresh(it.dalit.dait) && it.dalit.dait.err == nil
  ensures[ids] setIds(it) == allIds(seq(s.lexicons), seq(text), offset)
  ensures[ends] setEnds(it) == allEnds(seq(s.lexicons), seq(text), offset)
lemma idsInNone(d int, V seq[int])
  ensures[none] len(V) == 0 ==> len(idsIn(d, V)) == 0
  ensures[some] len(V) > 0 ==> len(idsIn(d, V)) > 0
func (it *LexiconSetIterator).Next() (more)
  requires wfSetIter(it)
  modifies it.dictId, it.dalit, it.dalit.dait.offset, it.dalit.dait.nodePos, it.dalit.dait.rvalue, it.dalit.dait.roffset
  at entry {
    letv I0 := setIds(it)
    letv J0 := setEnds(it)
    letv L := seq(it.lexicons)
    letv K := seq(it.text)
    letv o := it.offset
    use iterLens(it.dalit)
  }
  at loop 1 begin {
    letv d0 := it.dictId
    letv V0 := itIds(it.dalit)
    letv W0 := itEndsOf(it.dalit)
    assert[i0] I0 == idsIn(d0, V0) ++ restIds(L, d0, K, o)
    assert[j0] J0 == W0 ++ restEnds(L, d0, K, o)
    use idsInNone(d0, V0)
    if d0 == 0 { assert[last] len(restIds(L, d0, K, o)) == 0 && len(restEnds(L, d0, K, o)) == 0 }
  }
  at call Lookup after {
    letv dd := nextDict(d0, len(L))
    assert[lex] it.lexicons[dd] == L[dd] && it.dictId == dd
    assert[look] itIds($result) == matchIds(L[dd], K, o) && itEndsOf($result) == matchEnds(L[dd], K, o)
    use iterLens($result)
  }
  at loop 1 end {
    letv d1 := nextDict(d0, len(L))
    assert[d1] it.dictId == d1 && d0 > 0
    assert[empty] len(V0) == 0 && len(W0) == 0
    assert[i1] I0 == restIds(L, d0, K, o)
    assert[j1] J0 == restEnds(L, d0, K, o)
    letv V1 := matchIds(L[d1], K, o)
    letv W1 := matchEnds(L[d1], K, o)
    letv R1 := restIds(L, d1, K, o)
    letv S1 := restEnds(L, d1, K, o)
    assert[i2] I0 == idsIn(d1, V1) ++ R1
    assert[j2] J0 == W1 ++ S1
    assert[v1] itIds(it.dalit) == V1 && itEndsOf(it.dalit) == W1
    assert[i3] setIds(it) == idsIn(d1, V1) ++ R1
    assert[j3] setEnds(it) == W1 ++ S1
  }
  loop 1:
    invariant wfSetIter(it) && it.dalit.dait.err == nil && seq(it.lexicons) == L && seq(it.text) == K && it.offset == o
    invariant setIds(it) == I0
    invariant setEnds(it) == J0
    invariant len(itIds(it.dalit)) == len(itEndsOf(it.dalit))
    invariant (it.dalit == old(it.dalit) && it.dalit.dait == old(it.dalit.dait)) || (isfresh(it.dalit) && isfresh(it.dalit.dait))
    decreases it.dictId <= 0 ? 0 : len(it.lexicons) - it.dictId + 1
  ensures[wf] wfSetIter(it)
  ensures[peek] it.dalit.dait.err == nil ==> setIds(it) == old(setIds(it)) && setEnds(it) == old(setEnds(it))
  ensures[more] old(it.dalit.dait.err) == nil ==> more == (len(setIds(it)) > 0) && (more ==> len(itIds(it.dalit)) > 0) && it.dalit.dait.err == nil
  ensures[own] (it.dalit == old(it.dalit) && it.dalit.dait == old(it.dalit.dait)) || (isfresh(it.dalit) && isfresh(it.dalit.dait))
func (it *LexiconSetIterator).Get() (id, end)
  requires wfSetIter(it)
  modifies it.dalit.dait.offset, it.dalit.dait.nodePos, it.dalit.dait.rvalue, it.dalit.dait.roffset, it.dalit.dait.err, it.dalit.wordIds, it.dalit.length, it.dalit.index
  at entry {
    letv V0 := itIds(it.dalit)
    letv W0 := itEndsOf(it.dalit)
    letv d := it.dictId
    letv R := restIds(seq(it.lexicons), d, seq(it.text), it.offset)
    letv S := restEnds(seq(it.lexicons), d, seq(it.text), it.offset)
    assert[i0] setIds(it) == idsIn(d, V0) ++ R
    assert[j0] setEnds(it) == W0 ++ S
  }
  at call Get after {
    if len(V0) > 0 {
      letv V1 := itIds(it.dalit)
      letv W1 := itEndsOf(it.dalit)
      letv x := $result0
      use tailOf(V0, x, V1)
      assert[v] V0[0] == x && seq(V0, 1, len(V0)) == V1
      assert[ii] idsIn(d, V0) == [idIn(d, x)] ++ idsIn(d, V1)
      use concatAssoc([idIn(d, x)], idsIn(d, V1), R)
      use concatAssoc([$result1], W1, S)
      letv T := idsIn(d, V1) ++ R
      letv U := W1 ++ S
      assert[i1] old(setIds(it)) == [idIn(d, x)] ++ T
      assert[j1] old(setEnds(it)) == [$result1] ++ U
      assert[i2] setIds(it) == T
      assert[j2] setEnds(it) == U
    }
  }
  ensures[wf] wfSetIter(it)
  ensures[next] len(old(itIds(it.dalit))) > 0 ==> old(setIds(it)) == [id] ++ setIds(it) && old(setEnds(it)) == [end] ++ setEnds(it) && it.dalit.dait.err == old(it.dalit.dait.err)
func (it *LexiconSetIterator).Err() (err)
  requires it.dalit != nil && it.dalit.dait != nil
  modifies nothing
  ensures err == it.dalit.dait.err

// the attributes of a word of the set, one by one
spec rec func setSurf(s *LexiconSet, id int) seq[int] decreases 0 = let l := setList(s, id) :: rSurface(wide(l), seq(l.bytebuffer), wordAt(l, localOf(id)))
spec rec func setHead(s *LexiconSet, id int) int decreases 0 = let l := setList(s, id) :: rLength(wide(l), seq(l.bytebuffer), wordAt(l, localOf(id)))
spec rec func setPos(s *LexiconSet, id int) int decreases 0 = let l := setList(s, id) :: posIn(s, dictOf(id), rPos(wide(l), seq(l.bytebuffer), wordAt(l, localOf(id))))
spec rec func setNorm(s *LexiconSet, id int) seq[int] decreases 0 = let l := setList(s, id) :: rNorm(wide(l), seq(l.bytebuffer), wordAt(l, localOf(id)))
spec rec func setDic(s *LexiconSet, id int) seq[int] decreases 0 = let l := setList(s, id) :: dicForm(l, localOf(id))
spec rec func setRead(s *LexiconSet, id int) seq[int] decreases 0 = let l := setList(s, id) :: rReading(wide(l), seq(l.bytebuffer), wordAt(l, localOf(id)))
