// User words without a cost (C15): every marked word gets the cost of its own segmentation, all others keep theirs.
package dictionary
properties C15

lemma int16Bytes(x uint16) bv
  ensures byte(x) + 256*byte(x / 256) == x
func (l *wordParameterList).copyBuffer()
  requires wfParams(l)
  modifies l.bytebuffer, l.offset, l.isCopied
  at entry { letv B := seq(l.bytebuffer) letv f := l.offset letv n := 6*l.size }
  at return {
    letv C := seq(l.bytebuffer)
    assert[copy] C == seq(B, f, f+n) && len(C) == n && l.offset == 0
    assert[each] forall i int {C[i]} :: 0 <= i && i < n ==> C[i] == B[f+i]
  }
  ensures[own] l.isCopied && isfresh(l.bytebuffer) && base(l.bytebuffer) != nil && l.offset == 0 && len(l.bytebuffer) == 6*l.size
  ensures[same] forall i int {l.bytebuffer[i]} :: 0 <= i && i < 6*l.size ==> l.bytebuffer[i] == old(seq(l.bytebuffer))[old(l.offset) + i]
spec func sameLinks(l *wordParameterList, k int, a int, b int, c int) bool = pLeft(l, k) == a && pRight(l, k) == b && pCost(l, k) == c
func (l *wordParameterList).setCost(wordId, cost)
  requires wfParams(l) && 0 <= wordId && wordId < l.size
  modifies l.bytebuffer, l.offset, l.isCopied, elems(l.bytebuffer)
  ensures[wf] wfParams(l) && l.isCopied && (old(l.isCopied) ? l.bytebuffer == old(l.bytebuffer) : isfresh(l.bytebuffer))
  ensures[links] forall k int {pLeft(l, k)} {pRight(l, k)} :: 0 <= k && k < l.size ==> pLeft(l, k) == old(pLeft(l, k)) && pRight(l, k) == old(pRight(l, k))
  ensures[cost] pCost(l, wordId) == cost
  ensures[others] forall k int {pCost(l, k)} :: 0 <= k && k < l.size && k != wordId ==> pCost(l, k) == old(pCost(l, k))
  ensures[file] !old(l.isCopied) ==> mem(old(l.bytebuffer)) == old(mem(l.bytebuffer))

// what the caller's function answers for a text
spec func autoCost(text seq[int]) int
dynamic func "dictionary.CalculateCostFunc"(text) (cost, err)
  modifies nothing
  ensures err == nil ==> cost == autoCost(text) && -32768 <= cost && cost <= 32767
spec rec func surfaceOf(x *DoubleArrayLexicon, k int) seq[int] decreases 0 = rSurface(wide(x.wordInfos), seq(x.wordInfos.bytebuffer), wordAt(x.wordInfos, k))
func (lexicon *DoubleArrayLexicon).CalculateCost(cf) (err)
  requires wfLex(lexicon) && cf != nil
  requires lexicon.wordParams.isCopied ==> base(lexicon.wordParams.bytebuffer) != base(lexicon.wordInfos.bytebuffer) && base(lexicon.wordParams.bytebuffer) != base(lexicon.wordIdT.bytebuffer)
  modifies lexicon.wordParams.bytebuffer, lexicon.wordParams.offset, lexicon.wordParams.isCopied, elems(lexicon.wordParams.bytebuffer)
  at loop 1 begin { if wordId < lexicon.wordParams.size { letv u := surfaceOf(lexicon, wordId) } }
  loop 1:
    invariant 0 <= wordId && wordId <= lexicon.wordParams.size
    invariant seq(lexicon.wordInfos.bytebuffer) == old(seq(lexicon.wordInfos.bytebuffer))
    invariant seq(lexicon.wordIdT.bytebuffer) == old(seq(lexicon.wordIdT.bytebuffer))
    invariant forall k int {wordOk(lexicon.wordInfos, k)} :: wordOk(lexicon.wordInfos, k) == old(wordOk(lexicon.wordInfos, k))
    invariant forall k int {surfaceOf(lexicon, k)} :: surfaceOf(lexicon, k) == old(surfaceOf(lexicon, k))
    invariant wfLex(lexicon)
    invariant isfresh(lexicon.wordParams.bytebuffer) || lexicon.wordParams.bytebuffer == old(lexicon.wordParams.bytebuffer)
    invariant lexicon.wordParams.isCopied ==> base(lexicon.wordParams.bytebuffer) != base(lexicon.wordInfos.bytebuffer) && base(lexicon.wordParams.bytebuffer) != base(lexicon.wordIdT.bytebuffer)
    invariant forall k int {pLeft(lexicon.wordParams, k)} {pRight(lexicon.wordParams, k)} :: hasWord(lexicon, k) ==> pLeft(lexicon.wordParams, k) == old(pLeft(lexicon.wordParams, k)) && pRight(lexicon.wordParams, k) == old(pRight(lexicon.wordParams, k))
    invariant forall k int {pCost(lexicon.wordParams, k)} :: hasWord(lexicon, k) ==> pCost(lexicon.wordParams, k) == (k < wordId && old(pCost(lexicon.wordParams, k)) == 0-32768 ? autoCost(old(surfaceOf(lexicon, k))) : old(pCost(lexicon.wordParams, k)))
    decreases lexicon.wordParams.size - wordId
  ensures[wf] wfLex(lexicon)
  ensures[links] forall k int {pLeft(lexicon.wordParams, k)} {pRight(lexicon.wordParams, k)} :: hasWord(lexicon, k) ==> pLeft(lexicon.wordParams, k) == old(pLeft(lexicon.wordParams, k)) && pRight(lexicon.wordParams, k) == old(pRight(lexicon.wordParams, k))
  ensures[kept] forall k int {pCost(lexicon.wordParams, k)} :: hasWord(lexicon, k) && old(pCost(lexicon.wordParams, k)) != 0-32768 ==> pCost(lexicon.wordParams, k) == old(pCost(lexicon.wordParams, k))
  ensures[auto] err == nil ==> (forall k int {pCost(lexicon.wordParams, k)} :: hasWord(lexicon, k) && old(pCost(lexicon.wordParams, k)) == 0-32768 ==> pCost(lexicon.wordParams, k) == autoCost(surfaceOf(lexicon, k)))
