// One dictionary's lexicon: lookup, parameters and words (C12, C13).
package dictionary
properties C12, C13

func (t *wordIdTable).get(index) (ids)
  requires arrOk(seq(t.bytebuffer), index)
  modifies nothing
  ensures[ids] seq(ids) == arrVal(seq(t.bytebuffer), index) && isfresh(ids) && base(ids) != nil
func (t *wordIdTable).storageSize() (n)
  modifies nothing
  ensures n == 4 + t.size

// ---- the parameters: three numbers per word
spec func paramOk(l *wordParameterList, id int) bool = 0 <= l.offset + 6*id && l.offset + 6*id + 6 <= len(l.bytebuffer)
spec rec func pLeft(l *wordParameterList, id int) int decreases 0 = int16(l.bytebuffer[l.offset + 6*id] + 256*l.bytebuffer[l.offset + 6*id + 1])
spec rec func pRight(l *wordParameterList, id int) int decreases 0 = int16(l.bytebuffer[l.offset + 6*id + 2] + 256*l.bytebuffer[l.offset + 6*id + 3])
spec rec func pCost(l *wordParameterList, id int) int decreases 0 = int16(l.bytebuffer[l.offset + 6*id + 4] + 256*l.bytebuffer[l.offset + 6*id + 5])
spec func wfParams(l *wordParameterList) bool = l.size >= 0 && l.offset >= 0 && l.offset + 6*l.size <= len(l.bytebuffer)
func (l *wordParameterList).getLeftId(wordId) (x)
  requires paramOk(l, wordId)
  modifies nothing
  ensures[left] x == pLeft(l, wordId)
func (l *wordParameterList).getRightId(wordId) (x)
  requires paramOk(l, wordId)
  modifies nothing
  ensures[right] x == pRight(l, wordId)
func (l *wordParameterList).getCost(wordId) (x)
  requires paramOk(l, wordId)
  modifies nothing
  ensures[cost] x == pCost(l, wordId)
func (l *wordParameterList).storageSize() (n)
  modifies nothing
  ensures n == 4 + 6*l.size

// ---- the lexicon
// every value of the trie is the address of a list of at least one word id
spec func valsOk(a []uint32, b seq[int]) bool = forall p int {nodeVal(a, p)} :: 0 <= p && p < len(a) && nodeVal(a, p) >= 0 ==> arrOk(b, nodeVal(a, p)) && b[nodeVal(a, p)] > 0
spec func wfLex(x *DoubleArrayLexicon) bool =
  x != nil && x.wordIdT != nil && x.wordParams != nil && x.wordInfos != nil && x.trie != nil && wfTrie(x.trie.array) && valsOk(x.trie.array, seq(x.wordIdT.bytebuffer)) &&
  wfParams(x.wordParams) && wfWords(x.wordInfos) && x.wordInfos.wordSize == x.wordParams.size
spec func hasWord(x *DoubleArrayLexicon, id int) bool = 0 <= id && id < x.wordParams.size
func (lexicon *DoubleArrayLexicon).GetLeftId(wordId) (x)
  requires wfLex(lexicon) && hasWord(lexicon, wordId)
  modifies nothing
  ensures[left] x == pLeft(lexicon.wordParams, wordId)
func (lexicon *DoubleArrayLexicon).GetRightId(wordId) (x)
  requires wfLex(lexicon) && hasWord(lexicon, wordId)
  modifies nothing
  ensures[right] x == pRight(lexicon.wordParams, wordId)
func (lexicon *DoubleArrayLexicon).GetCost(wordId) (x)
  requires wfLex(lexicon) && hasWord(lexicon, wordId)
  modifies nothing
  ensures[cost] x == pCost(lexicon.wordParams, wordId)
func (lexicon *DoubleArrayLexicon).GetWordInfo(wordId) (wi)
  requires wfLex(lexicon) && hasWord(lexicon, wordId)
  modifies nothing
  ensures[word] isWord(wi, lexicon.wordInfos, wordId)
  ensures[length] 0 <= wi.HeadwordLength && wi.HeadwordLength <= 32767
  ensures[own] isfresh(wi) && wi != nil && isfresh(wi.AUnitSplit) && isfresh(wi.BUnitSplit) && isfresh(wi.WordStructure)
  ensures[apart] base(wi.AUnitSplit) != base(wi.BUnitSplit) && base(wi.BUnitSplit) != base(wi.WordStructure) && base(wi.AUnitSplit) != base(wi.WordStructure)
func (lexicon *DoubleArrayLexicon).Size() (n)
  requires lexicon.wordParams != nil
  modifies nothing
  ensures n == lexicon.wordParams.size
// the first word with that surface, part of speech and reading
spec func sameWord(l *wordInfoList, id int, s seq[int], p int, r seq[int]) bool =
  rSurface(wide(l), seq(l.bytebuffer), wordAt(l, id)) == s && rPos(wide(l), seq(l.bytebuffer), wordAt(l, id)) == p && rReading(wide(l), seq(l.bytebuffer), wordAt(l, id)) == r
spec rec func isThat(l *wordInfoList, id int, s seq[int], p int, r seq[int]) bool decreases 0 = sameWord(l, id, s, p, r)
func (lexicon *DoubleArrayLexicon).GetWordId(headword, posId, readingForm) (id)
  requires wfLex(lexicon)
  modifies nothing
  loop 1:
    invariant 0 <= wid && wid <= lexicon.wordInfos.wordSize
    invariant forall k int {isThat(lexicon.wordInfos, k, headword, posId, readingForm)} :: 0 <= k && k < wid ==> !isThat(lexicon.wordInfos, k, headword, posId, readingForm)
    decreases lexicon.wordInfos.wordSize - wid
  ensures[none] id < 0 ==> id == -1 && (forall k int {isThat(lexicon.wordInfos, k, headword, posId, readingForm)} :: hasWord(lexicon, k) ==> !isThat(lexicon.wordInfos, k, headword, posId, readingForm))
  ensures[found] id >= 0 ==> hasWord(lexicon, id) && isThat(lexicon.wordInfos, id, headword, posId, readingForm)
  ensures[first] id >= 0 ==> (forall k int {isThat(lexicon.wordInfos, k, headword, posId, readingForm)} :: 0 <= k && k < id ==> !isThat(lexicon.wordInfos, k, headword, posId, readingForm))

spec rec func times(x int, n int) seq[int] decreases n = n <= 0 ? seq([x], 0, 0) : times(x, n-1) ++ [x]
lemma timesLen(x int, n int)
  property C12, C13, C18
  requires n >= 0
  ensures len(times(x, n)) == n && (forall i int {times(x, n)[i]} :: 0 <= i && i < n ==> times(x, n)[i] == x)
  decreases n
  proof { if n > 0 { use timesLen(x, n-1) } }
// ---- lookup: the words of the matches, each with the end of its match
spec rec func idsOf(b seq[int], V seq[int]) seq[int] decreases len(V) = len(V) == 0 ? seq(V, 0, 0) : arrVal(b, V[0]) ++ idsOf(b, seq(V, 1, len(V)))
spec rec func endsOf(b seq[int], V seq[int], E seq[int]) seq[int] decreases len(V) =
  len(V) == 0 || len(E) == 0 ? seq(V, 0, 0) : times(E[0], b[V[0]]) ++ endsOf(b, seq(V, 1, len(V)), seq(E, 1, len(E)))
spec func listsOk(b seq[int], V seq[int]) bool = forall i int {V[i]} :: 0 <= i && i < len(V) ==> arrOk(b, V[i]) && b[V[i]] > 0
spec rec func matchIds(x *DoubleArrayLexicon, K seq[int], o int) seq[int] decreases 0 = idsOf(seq(x.wordIdT.bytebuffer), preVals(x.trie.array, K, o, len(K)))
spec rec func matchEnds(x *DoubleArrayLexicon, K seq[int], o int) seq[int] decreases 0 =
  endsOf(seq(x.wordIdT.bytebuffer), preVals(x.trie.array, K, o, len(K)), preEnds(x.trie.array, K, o, len(K)))
lemma preValsOk(a []uint32, b seq[int], K seq[int], o int, e int)
  requires wfTrie(a) && valsOk(a, b) && isBytes(K) && 0 <= o && e <= len(K)
  ensures listsOk(b, preVals(a, K, o, e))
  decreases e - o
  proof { if o < e { use preValsOk(a, b, K, o, e-1) use walkIn(a, 0, K, o, e) } }

spec rec func itIds(it *DoubleArrayLexiconIterator) seq[int] decreases 0 =
  (let W := seq(it.wordIds) :: (it.index < 0 ? seq(W, 0, 0) : seq(W, it.index, len(W)))) ++ idsOf(seq(it.wordIdT.bytebuffer), leftVals(it.dait))
spec rec func itEndsOf(it *DoubleArrayLexiconIterator) seq[int] decreases 0 =
  (it.index < 0 ? seq(it.wordIds, 0, 0) : times(it.length, len(it.wordIds) - it.index)) ++ endsOf(seq(it.wordIdT.bytebuffer), leftVals(it.dait), leftEnds(it.dait))
spec func wfLexIter(it *DoubleArrayLexiconIterator) bool =
  it != nil && it.dait != nil && it.wordIdT != nil && wfIter(it.dait) && listsOk(seq(it.wordIdT.bytebuffer), leftVals(it.dait)) &&
  -1 <= it.index && it.index <= len(it.wordIds) && len(leftVals(it.dait)) == len(leftEnds(it.dait)) && (it.dait.err != nil ==> it.index < 0 || it.index == len(it.wordIds))
lemma i32sAtLen(b seq[int], o int, n int)
  requires n >= 0
  ensures len(i32sAt(b, o, n)) == n
  decreases n
  proof { if n > 0 { use i32sAtLen(b, o, n-1) } }
lemma idsMore(b seq[int], V seq[int])
  requires listsOk(b, V) && bytesOnly(b)
  ensures[none] len(V) == 0 ==> len(idsOf(b, V)) == 0
  ensures[some] len(V) > 0 ==> len(idsOf(b, V)) > 0
  proof { if len(V) > 0 { use i32sAtLen(b, V[0]+1, b[V[0]]) } }
lemma timesFront(x int, n int)
  requires n > 0
  ensures times(x, n) == [x] ++ times(x, n-1)
  decreases n
  proof { if n > 1 { use timesFront(x, n-1) use concatAssoc([x], times(x, n-2), [x]) } }
lemma idsEndsLen(b seq[int], V seq[int], E seq[int])
  requires listsOk(b, V) && len(V) == len(E) && bytesOnly(b)
  ensures len(idsOf(b, V)) == len(endsOf(b, V, E))
  decreases len(V)
  proof { if len(V) > 0 { use i32sAtLen(b, V[0]+1, b[V[0]]) use timesLen(E[0], b[V[0]]) use idsEndsLen(b, seq(V, 1, len(V)), seq(E, 1, len(E))) } }
lemma iterLens(it *DoubleArrayLexiconIterator)
  requires wfLexIter(it)
  ensures len(itIds(it)) == len(itEndsOf(it))
  proof { use idsEndsLen(seq(it.wordIdT.bytebuffer), leftVals(it.dait), leftEnds(it.dait)) if it.index >= 0 { use timesLen(it.length, len(it.wordIds) - it.index) } }
func newDoubleArrayLexiconIterator(dait, wordIdT) (it)
  requires dait != nil && wordIdT != nil && wfIter(dait) && listsOk(seq(wordIdT.bytebuffer), leftVals(dait)) && len(leftVals(dait)) == len(leftEnds(dait))
  modifies nothing
  ensures[wf] wfLexIter(it) && isfresh(it) && it.dait == dait && it.wordIdT == wordIdT
  ensures[ids] itIds(it) == idsOf(seq(wordIdT.bytebuffer), leftVals(dait))
  ensures[ends] itEndsOf(it) == endsOf(seq(wordIdT.bytebuffer), leftVals(dait), leftEnds(dait))
func (lexicon *DoubleArrayLexicon).Lookup(text, offset) (it)
  requires wfLex(lexicon) && 0 <= offset && offset <= len(text)
  modifies nothing
  at entry { use preValsOk(lexicon.trie.array, seq(lexicon.wordIdT.bytebuffer), seq(text), offset, len(text)) use preLens(lexicon.trie.array, seq(text), offset, len(text)) }
  ensures[wf] wfLexIter(it) && isfresh(it) && isfresh(it.dait) && it.dait.err == nil
  ensures[ids] itIds(it) == matchIds(lexicon, seq(text), offset)
  ensures[ends] itEndsOf(it) == matchEnds(lexicon, seq(text), offset)
func (it *DoubleArrayLexiconIterator).Next() (more)
  requires wfLexIter(it)
  modifies it.dait.offset, it.dait.nodePos, it.dait.rvalue, it.dait.roffset
  at entry { use idsMore(seq(it.wordIdT.bytebuffer), leftVals(it.dait)) }
  at return { use idsMore(seq(it.wordIdT.bytebuffer), leftVals(it.dait)) }
  ensures[wf] wfLexIter(it)
  ensures[peek] itIds(it) == old(itIds(it)) && itEndsOf(it) == old(itEndsOf(it))
  ensures[more] more == (len(itIds(it)) > 0)
func (it *DoubleArrayLexiconIterator).Get() (id, end)
  requires wfLexIter(it)
  modifies it.dait.offset, it.dait.nodePos, it.dait.rvalue, it.dait.roffset, it.dait.err, it.wordIds, it.length, it.index
  at entry { use idsMore(seq(it.wordIdT.bytebuffer), leftVals(it.dait)) }
  at entry {
    letv V0 := leftVals(it.dait)
    letv E0 := leftEnds(it.dait)
    letv b := seq(it.wordIdT.bytebuffer)
    letv I0 := itIds(it)
    letv J0 := itEndsOf(it)
    if len(V0) > 0 { use i32sAtLen(b, V0[0]+1, b[V0[0]]) }
  }
  at call get after {
    letv W := seq($result)
    letv V1 := leftVals(it.dait)
    letv E1 := leftEnds(it.dait)
    assert[v0] V0 == [V0[0]] ++ V1 && E0 == [E0[0]] ++ E1
    use tailOf(V0, V0[0], V1) use tailOf(E0, E0[0], E1)
    assert[e0] I0 == idsOf(b, V0) && J0 == endsOf(b, V0, E0)
    assert[v1] seq(V0, 1, len(V0)) == V1 && seq(E0, 1, len(E0)) == E1
    assert[some] W == arrVal(b, V0[0]) && len(W) == b[V0[0]] && len(W) > 0
    assert[ids] idsOf(b, V0) == W ++ idsOf(b, V1)
    assert[ends] endsOf(b, V0, E0) == times(E0[0], len(W)) ++ endsOf(b, V1, E1)
  }
  at return {
    use remLens(it.dait.array, seq(it.dait.key), it.dait.nodePos, it.dait.offset)
    assert[lens] len(leftVals(it.dait)) == len(leftEnds(it.dait))
    if len(I0) > 0 {
      letv X := seq(it.wordIds)
      letv m := it.index - 1
      letv q := len(it.wordIds) - it.index
      assert[q] len(X) - m == q + 1 && len(X) - m - 1 == q
      use timesFront(it.length, q+1)
      use restStep(X, m)
      assert[x0] 0 <= m && m < len(X) && id == X[m]
      letv R := idsOf(b, leftVals(it.dait))
      letv R2 := endsOf(b, leftVals(it.dait), leftEnds(it.dait))
      assert[x3] itIds(it) == seq(X, m+1, len(X)) ++ R
      assert[x4] itEndsOf(it) == times(it.length, q) ++ R2
      assert[x1] I0 == seq(X, m, len(X)) ++ R
      assert[x2] J0 == times(it.length, q+1) ++ R2
      use concatAssoc([id], seq(X, m+1, len(X)), R)
      use concatAssoc([it.length], times(it.length, q), R2)
      assert[x5] I0 == [id] ++ itIds(it)
      assert[x6] J0 == [it.length] ++ itEndsOf(it)
    }
  }
  ensures[wf] wfLexIter(it)
  ensures[next] len(old(itIds(it))) > 0 ==> old(itIds(it)) == [id] ++ itIds(it) && old(itEndsOf(it)) == [end] ++ itEndsOf(it) && it.dait.err == old(it.dait.err)
  ensures[none] len(old(itIds(it))) == 0 ==> id == -1 && it.dait.err != nil
func (it *DoubleArrayLexiconIterator).Err() (err)
  requires it.dait != nil
  modifies nothing
  ensures err == it.dait.err
