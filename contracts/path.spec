// Joining morphemes: one range of the path becomes one morpheme, the rest stays (C17).
package gosudachi
properties C17

// ---- what a node says about its word
spec rec func wfNode(n *LatticeNode) bool decreases 0 =
  n != nil && n.isDefined && (n.extraWordInfo != nil || (n.lexicon != nil && wfSet(n.lexicon) && inSet13(n.lexicon, n.wordId)))
spec rec func nSurf(n *LatticeNode) seq[int] decreases 0 = n.extraWordInfo != nil ? n.extraWordInfo.Surface : setSurf(n.lexicon, n.wordId)
spec rec func nHead(n *LatticeNode) int decreases 0 = n.extraWordInfo != nil ? n.extraWordInfo.HeadwordLength : setHead(n.lexicon, n.wordId)
spec rec func nPos(n *LatticeNode) int decreases 0 = n.extraWordInfo != nil ? n.extraWordInfo.PosId : setPos(n.lexicon, n.wordId)
spec rec func nNorm(n *LatticeNode) seq[int] decreases 0 = n.extraWordInfo != nil ? n.extraWordInfo.NormalizedForm : setNorm(n.lexicon, n.wordId)
spec rec func nDic(n *LatticeNode) seq[int] decreases 0 = n.extraWordInfo != nil ? n.extraWordInfo.DictionaryForm : setDic(n.lexicon, n.wordId)
spec rec func nRead(n *LatticeNode) seq[int] decreases 0 = n.extraWordInfo != nil ? n.extraWordInfo.ReadingForm : setRead(n.lexicon, n.wordId)
spec rec func nA(n *LatticeNode) seq[int] decreases 0 = n.extraWordInfo != nil ? seq(n.extraWordInfo.AUnitSplit) : setA(n.lexicon, n.wordId)
spec rec func nB(n *LatticeNode) seq[int] decreases 0 = n.extraWordInfo != nil ? seq(n.extraWordInfo.BUnitSplit) : setB(n.lexicon, n.wordId)
spec func saysOf(wi *dictionary.WordInfo, n *LatticeNode) bool =
  wi.Surface == nSurf(n) && wi.HeadwordLength == nHead(n) && wi.PosId == nPos(n) && wi.NormalizedForm == nNorm(n) && wi.DictionaryForm == nDic(n) && wi.ReadingForm == nRead(n)
func (ln *LatticeNode).GetWordInfo() (wi)
  requires wfNode(ln)
  modifies nothing
  property C02
  ensures[says] wi != nil && saysOf(wi, ln)
  ensures[length] ln.extraWordInfo == nil ==> 0 <= wi.HeadwordLength && wi.HeadwordLength <= 32767
  ensures[units] seq(wi.AUnitSplit) == nA(ln) && seq(wi.BUnitSplit) == nB(ln)
func (ln *LatticeNode).GetBegin() (b)
  modifies nothing
  ensures b == ln.Begin
func (ln *LatticeNode).GetEnd() (e)
  modifies nothing
  ensures e == ln.End

// ---- the words of a range put together
spec rec func catSurf(P seq[*LatticeNode], a int, b int) seq[int] decreases b - a = b <= a ? seq([0], 0, 0) : catSurf(P, a, b-1) ++ nSurf(P[b-1])
spec rec func catNorm(P seq[*LatticeNode], a int, b int) seq[int] decreases b - a = b <= a ? seq([0], 0, 0) : catNorm(P, a, b-1) ++ nNorm(P[b-1])
spec rec func catDic(P seq[*LatticeNode], a int, b int) seq[int] decreases b - a = b <= a ? seq([0], 0, 0) : catDic(P, a, b-1) ++ nDic(P[b-1])
spec rec func catRead(P seq[*LatticeNode], a int, b int) seq[int] decreases b - a = b <= a ? seq([0], 0, 0) : catRead(P, a, b-1) ++ nRead(P[b-1])
spec rec func sumHead(P seq[*LatticeNode], a int, b int) int decreases b - a = b <= a ? 0 : sumHead(P, a, b-1) + nHead(P[b-1])

spec func replaced(old seq[*LatticeNode], b int, e int, n *LatticeNode) seq[*LatticeNode] = seq(old, 0, b) ++ [n] ++ seq(old, e, len(old))
func replaceNode(path, begin, end, node) (r)
  requires 0 <= begin && begin < end && end <= len(path)
  modifies elems(path)
  ensures[path] seq(r) == replaced(old(seq(path)), begin, end, node)
  ensures[place] base(r) == base(path) && off(r) == off(path)

func ConcatenateNodes(path, begin, end, lattice, normalizedForm) (n, err)
  requires path != nil && 0 <= begin && end <= len(*path)
  requires forall i int {(*path)[i]} :: begin <= i && i < end ==> wfNode((*path)[i])
  modifies *path, elems(*path)
  at entry { letv P := seq(*path) }
  loop 1:
    invariant begin <= i && i <= end && len(wilist) == i - begin && isfresh(wilist) && base(wilist) != nil
    invariant forall k int {wilist[k]} :: 0 <= k && k < len(wilist) ==> wilist[k] != nil && saysOf(wilist[k], P[begin+k])
    invariant length == sumHead(P, begin, i)
    invariant surfaceLen >= 0 && normalizedFormLen >= 0 && dictionaryFormLen >= 0 && readingFormLen >= 0
    decreases end - i
  loop 2:
    invariant isfresh(csurface) && isfresh(cdictionaryForm) && isfresh(creadingForm) && (len(normalizedForm) == 0 ==> isfresh(cnormalizedForm) && base(cnormalizedForm) != nil && base(cnormalizedForm) != base(csurface) && base(cnormalizedForm) != base(cdictionaryForm) && base(cnormalizedForm) != base(creadingForm))
    invariant base(csurface) != nil && base(cdictionaryForm) != nil && base(creadingForm) != nil && base(csurface) != base(cdictionaryForm) && base(csurface) != base(creadingForm) && base(cdictionaryForm) != base(creadingForm)
    invariant seq(csurface) == old(catSurf(seq(*path), begin, begin + $i))
    invariant len(normalizedForm) == 0 ==> seq(cnormalizedForm) == old(catNorm(seq(*path), begin, begin + $i))
    invariant seq(cdictionaryForm) == old(catDic(seq(*path), begin, begin + $i))
    invariant seq(creadingForm) == old(catRead(seq(*path), begin, begin + $i))
  ensures[bad] begin >= end ==> err != nil && *path == old(*path) && seq(*path) == old(seq(*path))
  ensures[good] begin < end ==> err == nil && n != nil && isfresh(n) && wfNode(n)
  ensures[path] begin < end ==> seq(*path) == replaced(old(seq(*path)), begin, end, n)
  ensures[place] base(*path) == old(base(*path))
  ensures[span] begin < end ==> n.Begin == old((*path)[begin].Begin) && n.End == old((*path)[end-1].End) && !n.IsOov
  ensures[surface] begin < end ==> nSurf(n) == old(catSurf(seq(*path), begin, end)) && nHead(n) == old(sumHead(seq(*path), begin, end))
  ensures[norm] begin < end ==> nNorm(n) == (len(normalizedForm) == 0 ? old(catNorm(seq(*path), begin, end)) : normalizedForm)
  ensures[forms] begin < end ==> nDic(n) == old(catDic(seq(*path), begin, end)) && nRead(n) == old(catRead(seq(*path), begin, end)) && nPos(n) == old(nPos((*path)[begin]))

// a candidate of the lattice with the span
spec func hasCand(l *Lattice, b int, e int) bool = exists k int {l.endLists[e][k]} :: 0 <= k && k < len(l.endLists[e]) && l.endLists[e][k].Begin == b
spec func okCands(l *Lattice, e int) bool = 0 <= e && e < len(l.endLists) && (forall k int {l.endLists[e][k]} :: 0 <= k && k < len(l.endLists[e]) ==>
  wfNode(l.endLists[e][k]) && l.endLists[e][k].End == e)
func ConcatenateOov(path, begin, end, posId, lattice) (n, err)
  requires path != nil && 0 <= begin && end <= len(*path) && lattice != nil
  requires forall i int {(*path)[i]} :: begin <= i && i < end ==> wfNode((*path)[i])
  requires begin < end ==> okCands(lattice, (*path)[end-1].End)
  requires[apart] begin < end ==> base(lattice.endLists[(*path)[end-1].End]) != base(*path)
  modifies *path, elems(*path)
  at entry { letv P := seq(*path) letv e0 := (*path)[end-1].End letv b0 := (*path)[begin].Begin }
  at call GetMinimumNode after { if $result == nil { assert[none] !hasCand(lattice, b0, e0) } else { assert[found] endsAt(lattice, e0, $result) } }
  loop 1:
    invariant begin <= i && i <= end && len(wilist) == i - begin && isfresh(wilist) && base(wilist) != nil
    invariant forall k int {wilist[k]} :: 0 <= k && k < len(wilist) ==> wilist[k] != nil && saysOf(wilist[k], P[begin+k])
    invariant length == sumHead(P, begin, i)
    invariant surfaceLen >= 0
    decreases end - i
  loop 2:
    invariant isfresh(csurface) && base(csurface) != nil
    invariant seq(csurface) == old(catSurf(seq(*path), begin, begin + $i))
  ensures[bad] begin >= end ==> err != nil && *path == old(*path) && seq(*path) == old(seq(*path))
  ensures[good] begin < end ==> err == nil && n != nil && wfNode(n)
  ensures[path] begin < end ==> seq(*path) == replaced(old(seq(*path)), begin, end, n)
  ensures[place] base(*path) == old(base(*path))
  ensures[span] begin < end ==> n.Begin == old((*path)[begin].Begin) && n.End == old((*path)[end-1].End)
  ensures[reuse] begin < end && old(hasCand(lattice, (*path)[begin].Begin, (*path)[end-1].End)) ==> endsAt(lattice, old((*path)[end-1].End), n) &&
    (forall k int {lattice.endLists[old((*path)[end-1].End)][k]} :: 0 <= k && k < len(lattice.endLists[old((*path)[end-1].End)]) && lattice.endLists[old((*path)[end-1].End)][k].Begin == n.Begin ==> n.cost <= lattice.endLists[old((*path)[end-1].End)][k].cost)
  ensures[new] begin < end && !old(hasCand(lattice, (*path)[begin].Begin, (*path)[end-1].End)) ==> isfresh(n) && wfNode(n) && n.IsOov && nPos(n) == posId &&
    nSurf(n) == old(catSurf(seq(*path), begin, end)) && nNorm(n) == old(catSurf(seq(*path), begin, end)) && nDic(n) == old(catSurf(seq(*path), begin, end)) && nHead(n) == old(sumHead(seq(*path), begin, end))

// ---- runs of katakana around an unknown or short word
spec rec func nodeCat(t *InputText, b int, e int) int decreases 0 =
  boff(txt(t), runEnd(seq(t.charCategories), t.byteIndexes[b])) < e ? 0 : runAnd(seq(t.charCategories), t.byteIndexes[b], t.byteIndexes[e])
spec rec func kat(t *InputText, n *LatticeNode) bool decreases 0 = band(nodeCat(t, n.Begin, n.End), dictionary.KATAKANA) == dictionary.KATAKANA
spec rec func canBegin(t *InputText, n *LatticeNode) bool decreases 0 = band(nodeCat(t, n.Begin, n.End), dictionary.NOOOVBOW) != dictionary.NOOOVBOW
spec func spanOk(t *InputText, n *LatticeNode) bool = n != nil && 0 <= n.Begin && n.Begin < n.End && n.End <= len(t.Bytea)
func GetCharCategoryTypes(text, node) (c)
  requires text != nil && wfInput(text) && spanOk(text, node)
  modifies nothing
  ensures[cat] c == nodeCat(text, node.Begin, node.End)
func isShorter(length, text, node) (r)
  requires text != nil && wfInput(text) && spanOk(text, node)
  modifies nothing
  ensures[short] r == (text.byteIndexes[node.End] - text.byteIndexes[node.Begin] < length)
func isKatakanaNode(text, node) (r)
  requires text != nil && wfInput(text) && spanOk(text, node)
  modifies nothing
  ensures[katakana] r == kat(text, node)
func canOovBowNode(text, node) (r)
  requires text != nil && wfInput(text) && spanOk(text, node)
  modifies nothing
  ensures[begin] r == canBegin(text, node)

spec rec func runBeg(t *InputText, P seq[*LatticeNode], i int) int decreases i = i <= 0 ? 0 : (kat(t, P[i-1]) ? runBeg(t, P, i-1) : i)
spec rec func runStop(t *InputText, P seq[*LatticeNode], i int) int decreases len(P) - i = i >= len(P) ? i : (kat(t, P[i]) ? runStop(t, P, i+1) : i)
spec rec func trimTo(t *InputText, P seq[*LatticeNode], b int, e int) int decreases e - b = b >= e ? b : (canBegin(t, P[b]) ? b : trimTo(t, P, b+1, e))
spec func kataWord(p *JoinKatakanaOovPlugin, t *InputText, n *LatticeNode) bool = (n.IsOov || t.byteIndexes[n.End] - t.byteIndexes[n.Begin] < p.minLength) && kat(t, n)
// the morphemes lie side by side
spec func pathOk(t *InputText, P seq[*LatticeNode]) bool =
  (forall i int {P[i]} :: 0 <= i && i < len(P) ==> spanOk(t, P[i]) && wfNode(P[i])) &&
  (forall i int, j int {P[i], P[j]} :: 0 <= i && i < j && j < len(P) ==> P[i].End <= P[j].Begin) &&
  (forall i int, j int {P[i], P[j]} :: 0 <= i && j == i + 1 && j < len(P) ==> P[i].End == P[j].Begin)
spec func pathMem(t *InputText, path *[]*LatticeNode) bool =
  (forall i int {(*path)[i]} :: 0 <= i && i < len(*path) ==> spanOk(t, (*path)[i]) && wfNode((*path)[i])) &&
  (forall i int, j int {(*path)[i], (*path)[j]} :: 0 <= i && i < j && j < len(*path) ==> (*path)[i].End <= (*path)[j].Begin) &&
  (forall i int, j int {(*path)[i], (*path)[j]} :: 0 <= i && j == i + 1 && j < len(*path) ==> (*path)[i].End == (*path)[j].Begin)
lemma replacedOk(t *InputText, P seq[*LatticeNode], b int, e int, n *LatticeNode)
  property C17
  hide wfNode
  requires pathOk(t, P) && 0 <= b && b < e && e <= len(P) && n != nil && wfNode(n) && n.Begin == P[b].Begin && n.End == P[e-1].End
  ensures pathOk(t, replaced(P, b, e, n))
  ensures replaced(P, b, e, n)[0].Begin == P[0].Begin && replaced(P, b, e, n)[len(P)-(e-b)].End == P[len(P)-1].End && len(replaced(P, b, e, n)) == len(P)-(e-b)+1
  proof { assert P[b].Begin < P[b].End && (b < e-1 ==> P[b].End <= P[e-1].Begin) && P[e-1].Begin < P[e-1].End
    letv Q := replaced(P, b, e, n)
    assert Q[b] == n && (forall i int {Q[i]} :: 0 <= i && i < b ==> Q[i] == P[i]) && (forall i int {Q[i]} :: b < i && i < len(Q) ==> Q[i] == P[i+(e-b)-1])
    assert pathOk(t, Q) }
spec func candsOk(t *InputText, l *Lattice) bool = len(l.endLists) > len(t.Bytea) &&
  (forall e int, k int {l.endLists[e][k]} :: 1 <= e && e < len(l.endLists) && 0 <= k && k < len(l.endLists[e]) ==>
    spanOk(t, l.endLists[e][k]) && wfNode(l.endLists[e][k]) && l.endLists[e][k].End == e)
spec func pathApart(l *Lattice, path *[]*LatticeNode) bool = forall e int {l.endLists[e]} :: 0 <= e && e < len(l.endLists) ==> base(l.endLists[e]) != base(*path)
func (p *JoinKatakanaOovPlugin).Rewrite(text, path, lattice) (err)
  requires p != nil && text != nil && path != nil && lattice != nil && wfInput(text) && pathMem(text, path) && candsOk(text, lattice) && pathApart(lattice, path)
  modifies *path, elems(*path)
  hide wfNode, kat, canBegin, nodeCat
  at loop 1 begin {
    letv P0 := seq(*path)
    letv i0 := i
    assert[same] forall k int {P0[k]} :: 0 <= k && k < len(P0) ==> P0[k] == (*path)[k]
    assert[ok] pathOk(text, P0)
    letv e0 := runStop(text, P0, i0+1)
    letv b0 := trimTo(text, P0, runBeg(text, P0, i0), e0)
    letv joins := i0 < len(P0) && kataWord(p, text, P0[i0]) && e0 - b0 > 1
  }
  at loop 4 exit { assert[decided] kataWord(p, text, P0[i0]) && e0 == end && b0 == begin }
  at call ConcatenateOov before { assert[range] joins && $arg1 == b0 && $arg2 == e0 && $arg3 == p.oovPosId && $arg0 == path && $arg4 == lattice }
  at call ConcatenateOov after { letv Q0 := seq(*path) assert[at] Q0[b0] == $result0 && (*path)[b0] == $result0 assert[done] joins && Q0 == replaced(P0, b0, e0, (*path)[b0]) use replacedOk(text, P0, b0, e0, $result0) }
  at loop 1 end { letv P1 := seq(*path) assert[ok] pathOk(text, P1) assert[same] forall k int {(*path)[k]} :: 0 <= k && k < len(*path) ==> (*path)[k] == P1[k] if joins { assert[joined] seq(*path) == replaced(P0, b0, e0, (*path)[b0]) && (*path)[b0].Begin == P0[b0].Begin && (*path)[b0].End == P0[e0-1].End } else { assert[kept] seq(*path) == P0 } }
  loop 1:
    invariant 0 <= i && pathMem(text, path) && candsOk(text, lattice) && pathApart(lattice, path) && wfInput(text) && base(*path) == old(base(*path))
    invariant old(len(*path)) > 0 ==> len(*path) > 0 && (*path)[0].Begin == old((*path)[0].Begin) && (*path)[len(*path)-1].End == old((*path)[len(*path)-1].End)
    decreases len(*path) - i
  loop 2:
    invariant 0 - 1 <= begin && begin < i && runBeg(text, P0, begin+1) == runBeg(text, P0, i)
    decreases begin + 1
  loop 3:
    invariant i + 1 <= end && end <= len(*path) && runStop(text, P0, end) == runStop(text, P0, i+1)
    decreases len(*path) - end
  loop 4:
    invariant 0 <= begin && begin <= end && trimTo(text, P0, begin, end) == trimTo(text, P0, runBeg(text, P0, i), end)
    decreases end - begin
  ensures[noerr] err == nil
  ensures[place] base(*path) == old(base(*path))
  ensures[tiles] pathMem(text, path) && (old(len(*path)) > 0 ==> len(*path) > 0 && (*path)[0].Begin == old((*path)[0].Begin) && (*path)[len(*path)-1].End == old((*path)[len(*path)-1].End))

// ---- numerals
spec rec func numWord(t *InputText, n *LatticeNode) bool decreases 0 =
  band(nodeCat(t, n.Begin, n.End), dictionary.NUMERIC) == dictionary.NUMERIC || band(nodeCat(t, n.Begin, n.End), dictionary.KANJINUMERIC) == dictionary.KANJINUMERIC ||
  nNorm(n) == [46] || nNorm(n) == [44]
// the characters of a text from a byte on
spec rec func decFrom(s seq[int], k int) seq[int] decreases len(s) - k = k < 0 || k >= len(s) ? seq([0], 0, 0) : [runeAt(s, k)] ++ decFrom(s, k + runeLenAt(s, k))
spec rec func catRunes(P seq[*LatticeNode], a int, b int) seq[int] decreases b - a = b <= a ? seq([0], 0, 0) : catRunes(P, a, b-1) ++ decFrom(nNorm(P[b-1]), 0)
spec func numberOf(r *numericParser) seq[int] = len(r.total.significand) == 0 ? [48] : strOfRunes(plain(sg(r.total), ex(r.total)))
spec func joinsNum(p *JoinNumericPlugin, P seq[*LatticeNode], b int, e int, num seq[int]) bool =
  nPos(P[b]) == p.numericPosId && (e - b > 1 || p.enableNormalize && num != nNorm(P[b]))
func (p *JoinNumericPlugin).concatNodes(path, begin, end, lattice, parser) (err)
  requires p != nil && path != nil && 0 <= begin && begin < end && end <= len(*path) && parser != nil && parts(parser) && wfNum(parser.total)
  requires forall i int {(*path)[i]} :: begin <= i && i < end ==> (*path)[i] != nil && wfNode((*path)[i])
  hide wfNode
  modifies *path, elems(*path), parser.total.*, elems(parser.total.significand)
  at call ConcatenateNodes after { letv Q := seq(*path) assert[at] Q[begin] == $result0 && (*path)[begin] == Q[begin] }
  ensures[noerr] err == nil
  ensures[kept] !old(joinsNum(p, seq(*path), begin, end, numberOf(parser))) ==> *path == old(*path) && seq(*path) == old(seq(*path))
  ensures[joined] old(joinsNum(p, seq(*path), begin, end, numberOf(parser))) ==> seq(*path) == replaced(old(seq(*path)), begin, end, (*path)[begin]) && isfresh((*path)[begin]) && (*path)[begin] != nil && wfNode((*path)[begin])
  ensures[span] old(joinsNum(p, seq(*path), begin, end, numberOf(parser))) ==> (*path)[begin].Begin == old((*path)[begin].Begin) && (*path)[begin].End == old((*path)[end-1].End)
  ensures[norm] old(joinsNum(p, seq(*path), begin, end, numberOf(parser))) ==> nNorm((*path)[begin]) == (p.enableNormalize ? old(numberOf(parser)) : old(catNorm(seq(*path), begin, end)))
  ensures[surface] old(joinsNum(p, seq(*path), begin, end, numberOf(parser))) ==> nSurf((*path)[begin]) == old(catSurf(seq(*path), begin, end)) && nPos((*path)[begin]) == p.numericPosId
  ensures[place] base(*path) == old(base(*path))
  ensures[parts] parts(parser) && parser.total == old(parser.total) && (base(parser.total.significand) == old(base(parser.total.significand)) || isfresh(parser.total.significand))

// the parser has read the words of a run from its first to the one before i, and a run begins with a digit
spec func inRun(t *InputText, r *numericParser, P seq[*LatticeNode], b int, i int) bool =
  b < i && i <= len(P) && wfParser(r) && r.read == catRunes(P, b, i) && (len(r.read) == 0 ==> nothingRead(r)) && (len(r.read) > 0 ==> r.read[0] != 44 && r.read[0] != 46) &&
  (forall k int {P[k]} :: b <= k && k < i ==> numWord(t, P[k]))
func (p *JoinNumericPlugin).Rewrite(text, path, lattice) (err)
  requires p != nil && text != nil && path != nil && wfInput(text) && pathMem(text, path)
  modifies *path, elems(*path)
  hide wfNode, nodeCat
  timeout 40
  at loop 1 begin {
    letv P0 := seq(*path)
    letv i0 := i
    letv b0 := beginIndex
    assert[same] forall k int {P0[k]} :: 0 <= k && k < len(P0) ==> P0[k] == (*path)[k]
    assert[ok] pathOk(text, P0)
    assert[first] len(P0) > 0 ==> (*path)[0] == P0[0] && (*path)[len(*path)-1] == P0[len(P0)-1]
  }
  at call done after { letv accepted := $result }
  at call concatNodes before {
    letv rd := $arg5.read
    letv joins := joinsNum(p, P0, $arg2, $arg3, numberOf($arg5))
    assert[range] $arg0 == p && $arg1 == path && $arg2 == beginIndex && $arg2 < $arg3 && $arg3 <= len(*path)
    assert[read] accepted ? rd == catRunes(P0, $arg2, $arg3) : (rd == catRunes(P0, $arg2, $arg3) ++ [44]) || (rd == catRunes(P0, $arg2, $arg3) ++ [46])
  }
  at call concatNodes after { letv Q0 := seq(*path) if joins { assert[is] Q0[$arg2] == (*path)[$arg2] && Q0 == replaced(P0, $arg2, $arg3, Q0[$arg2]) use replacedOk(text, P0, $arg2, $arg3, Q0[$arg2])
      assert[lastnode] len(Q0) == len(P0) - ($arg3 - $arg2) + 1 && Q0[len(Q0)-1].End == P0[len(P0)-1].End } else { assert[kept] Q0 == P0 } assert[pathok] pathOk(text, Q0) assert[first] len(*path) > 0 && (*path)[0] == Q0[0] && (*path)[len(*path)-1] == Q0[len(Q0)-1]
    assert[ends] Q0[0].Begin == P0[0].Begin && Q0[len(Q0)-1].End == P0[len(P0)-1].End && len(Q0) > 0 && (*path)[0].Begin == P0[0].Begin && (*path)[len(*path)-1].End == P0[len(P0)-1].End
    assert[same] forall k int {(*path)[k]} :: 0 <= k && k < len(*path) ==> (*path)[k] == Q0[k] }
  at loop 1 end { letv P1 := seq(*path) if beginIndex >= 0 { assert[sameP] P1 == P0 assert[nums] forall k int {P1[k]} :: beginIndex <= k && k < i0 ==> numWord(text, P0[k]) assert[num] numWord(text, P0[i0]) }
    assert[pathok] pathOk(text, P1) assert[same] forall k int {(*path)[k]} :: 0 <= k && k < len(*path) ==> (*path)[k] == P1[k]
    assert[first] len(*path) > 0 && (*path)[0] == P1[0] && (*path)[len(*path)-1] == P1[len(P1)-1]
    assert[ends] (*path)[0].Begin == P0[0].Begin && (*path)[len(*path)-1].End == P0[len(P0)-1].End }
  at loop 2 exit { if $pos >= len(s) { assert[rest] decFrom(s, $pos) == seq([0], 0, 0) letv rdx := parser.read assert[restx] rdx ++ seq([0], 0, 0) == rdx assert[readx] parser.read == catRunes(P0, beginIndex, i+1) } }
  at loop 2 begin { letv rd0 := parser.read use concatAssoc(rd0, [runeAt(s, $pos)], decFrom(s, $pos + runeLenAt(s, $pos))) }
  loop 1:
    invariant 0 <= i && pathMem(text, path) && wfInput(text) && base(*path) == old(base(*path))
    invariant old(len(*path)) > 0 ==> len(*path) > 0 && (*path)[0].Begin == old((*path)[0].Begin) && (*path)[len(*path)-1].End == old((*path)[len(*path)-1].End)
    invariant parser != nil && isfresh(parser) && parts(parser) && isfresh(parser.total) && isfresh(parser.subtotal) && isfresh(parser.tmp) && isfresh(parser.total.significand) && isfresh(parser.subtotal.significand) && isfresh(parser.tmp.significand)
    invariant beginIndex >= 0 ==> inRun(text, parser, seq(*path), beginIndex, i)
  loop 2:
    invariant parser != nil && isfresh(parser) && isfresh(parser.total) && isfresh(parser.subtotal) && isfresh(parser.tmp) && isfresh(parser.total.significand) && isfresh(parser.subtotal.significand) && isfresh(parser.tmp.significand)
    invariant wfParser(parser) && $pos >= 0 && parser.read ++ decFrom(s, $pos) == catRunes(P0, beginIndex, i) ++ decFrom(s, 0) && (len(parser.read) == 0 ==> nothingRead(parser)) && (len(parser.read) > 0 ==> parser.read[0] != 44 && parser.read[0] != 46)
    invariant 0 <= beginIndex && beginIndex <= i && numWord(text, P0[i])
  ensures[noerr] err == nil
  ensures[place] base(*path) == old(base(*path))
  ensures[tiles] pathMem(text, path) && (old(len(*path)) > 0 ==> len(*path) > 0 && (*path)[0].Begin == old((*path)[0].Begin) && (*path)[len(*path)-1].End == old((*path)[len(*path)-1].End))
