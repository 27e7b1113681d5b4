// From the text to the list of morphemes: they lie side by side from the text's begin to its end (C02), and nothing a call leaves behind matters to the next (C03).
package gosudachi
properties C02

// ---- the units of a word in modes A and B
spec rec func unitsOf(n *LatticeNode, mode seq[int]) seq[int] decreases 0 = mode == [65] ? nA(n) : nB(n)
// what the units' lengths add up to
spec rec func sumUnits(s *dictionary.LexiconSet, W seq[int], k int) int decreases k = k <= 0 ? 0 : sumUnits(s, W, k-1) + setHead(s, W[k-1])
// a node that can be split: its units are words whose lengths add up to its own
lemma wordNode(n *LatticeNode, s *dictionary.LexiconSet)
  requires n != nil && n.isDefined && n.extraWordInfo == nil && n.lexicon == s && s != nil && wfSet(s) && okUnit(s, n.wordId)
  ensures wfNode(n)
spec func unitsOk(s *dictionary.LexiconSet, W seq[int], len int) bool =
  (forall k int {W[k]} :: 0 <= k && k < len(W) ==> okUnit(s, W[k])) && sumUnits(s, W, len(W)) == len
spec rec func splitsOk(s *dictionary.LexiconSet, n *LatticeNode, mode seq[int]) bool decreases 0 =
  let W := unitsOf(n, mode) :: (len(W) >= 2 ==> unitsOk(s, W, n.End - n.Begin))

// the first k nodes of a path lie side by side from b on, up to e
spec func tiled(P seq[*LatticeNode], b int, e int) bool =
  (len(P) == 0 ? b == e : P[0].Begin == b && P[len(P)-1].End == e) &&
  (forall i int {P[i]} :: 0 <= i && i < len(P) ==> P[i] != nil && P[i].Begin <= P[i].End) &&
  (forall i int, j int {P[i], P[j]} :: 0 <= i && j == i + 1 && j < len(P) ==> P[i].End == P[j].Begin)
spec func tiledMem(path []*LatticeNode, b int, e int) bool =
  (len(path) == 0 ? b == e : path[0].Begin == b && path[len(path)-1].End == e) &&
  (forall i int {path[i]} :: 0 <= i && i < len(path) ==> path[i] != nil && path[i].Begin <= path[i].End) &&
  (forall i int, j int {path[i], path[j]} :: 0 <= i && j == i + 1 && j < len(path) ==> path[i].End == path[j].Begin)

func NewLatticeNode(lexicon, leftId, rightId, cost, wordId) (n)
  property C01, C02
  modifies nothing
  ensures n != nil && isfresh(n) && n.lexicon == lexicon && n.leftId == leftId && n.rightId == rightId && n.cost == cost && n.wordId == wordId && n.isDefined && n.extraWordInfo == nil && !n.IsOov

// ---- what modes A and B make of a path (C24)
// for every output its word, or 2^32 where the morpheme itself stays
spec rec func outWids(P seq[*LatticeNode], mode seq[int], k int) seq[int] decreases k =
  k <= 0 ? seq([0], 0, 0) : outWids(P, mode, k-1) ++ (len(unitsOf(P[k-1], mode)) >= 2 ? unitsOf(P[k-1], mode) : [4294967296])
// for every output the morpheme it comes from
spec rec func outOwn(P seq[*LatticeNode], mode seq[int], k int) seq[int] decreases k =
  k <= 0 ? seq([0], 0, 0) : outOwn(P, mode, k-1) ++ times(k-1, len(unitsOf(P[k-1], mode)) >= 2 ? len(unitsOf(P[k-1], mode)) : 1)
lemma timesAll(x int, n int)
  property C24
  requires n >= 0
  ensures forall i int {times(x, n)[i]} :: 0 <= i && i < n ==> times(x, n)[i] == x
  decreases n
  proof { if n > 0 { use timesAll(x, n-1) use timesLen(x, n-1) } }
lemma outLens(P seq[*LatticeNode], mode seq[int], k int)
  property C24
  requires 0 <= k && k <= len(P)
  ensures len(outWids(P, mode, k)) == len(outOwn(P, mode, k))
  ensures forall q int {outOwn(P, mode, k)[q]} :: 0 <= q && q < len(outOwn(P, mode, k)) ==> 0 <= outOwn(P, mode, k)[q] && outOwn(P, mode, k)[q] < k
  decreases k
  proof { if k > 0 { use outLens(P, mode, k-1)
    letv w := len(unitsOf(P[k-1], mode)) >= 2 ? len(unitsOf(P[k-1], mode)) : 1
    use timesLen(k-1, w) use timesAll(k-1, w) } }
// a node made for a word of the dictionary
spec func unitNode(n *LatticeNode, s *dictionary.LexiconSet, id int) bool =
  n != nil && n.isDefined && n.extraWordInfo == nil && !n.IsOov && n.lexicon == s && n.wordId == id && n.End == n.Begin + setHead(s, id)

spec func pathBegin(path []*LatticeNode) int = len(path) > 0 ? path[0].Begin : 0
func (t *JapaneseTokenizer).splitPath(path, mode) (r)
  property C02, C24
  requires t.lexicon != nil && wfSet(t.lexicon) && (len(path) > 0 ==> tiledMem(path, path[0].Begin, path[len(path)-1].End))
  requires forall i int {path[i]} :: 0 <= i && i < len(path) ==> wfNode(path[i]) && splitsOk(t.lexicon, path[i], mode)
  modifies nothing
  at call NewLatticeNode after { letv n0 := $result  use wordNode(n0, t.lexicon) assert[wf] wfNode(n0) }
  at call GetWordInfo 2 after { assert[head] $result.HeadwordLength == setHead(t.lexicon, n0.wordId) && n0.wordId == W[ix] }
  at loop 1 begin { if $i < len(path) { letv K := $i letv O0 := old(outWids(seq(path), mode, $i)) letv W0 := old(outOwn(seq(path), mode, $i)) use old outLens(seq(path), mode, $i) } }
  at loop 1 end { letv U := old(unitsOf(path[K], mode))
    use timesLen(K, len(U) >= 2 ? len(U) : 1) use timesAll(K, len(U) >= 2 ? len(U) : 1)
    assert[own1] old(outOwn(seq(path), mode, K+1)) == W0 ++ times(K, len(U) >= 2 ? len(U) : 1)
    if len(U) >= 2 { assert[idw] forall k int {wids[k]} :: 0 <= k && k < len(wids) ==> wids[k] < 4294967296 assert[ids] forall k int {U[k]} :: 0 <= k && k < len(U) ==> U[k] < 4294967296 && U[k] == wids[k] }
    assert[before] forall q int {newPath[q]} :: 0 <= q && q < len(O0) ==> (O0[q] == 4294967296 ? newPath[q] == path[W0[q]] : isfresh(newPath[q]) && unitNode(newPath[q], t.lexicon, O0[q]))
    assert[after] len(U) >= 2 ? len(newPath) == len(O0) + len(U) && (forall q int {newPath[q]} :: len(O0) <= q && q < len(newPath) ==> isfresh(newPath[q]) && unitNode(newPath[q], t.lexicon, U[q - len(O0)])) : len(newPath) == len(O0) + 1 && newPath[len(O0)] == path[K]
    assert[wid1] old(outWids(seq(path), mode, K+1)) == O0 ++ (len(U) >= 2 ? U : [4294967296])
  }
  loop 1:
    invariant isfresh(newPath) && base(newPath) != nil
    invariant[lens] len(newPath) == len(old(outWids(seq(path), mode, $i)))
    invariant[made] forall q int {newPath[q]} :: 0 <= q && q < len(newPath) ==>
      (let id := old(outWids(seq(path), mode, $i))[q] :: (id == 4294967296 ? newPath[q] == path[old(outOwn(seq(path), mode, $i))[q]] : isfresh(newPath[q]) && unitNode(newPath[q], t.lexicon, id)))
    invariant tiledMem(newPath, pathBegin(path), $i > 0 ? path[$i-1].End : pathBegin(path))
    invariant ($i > 0 ==> len(newPath) > 0) && (len(path) == 0 ==> len(newPath) == 0)
  hide okUnit, setHead, nA, nB
  at loop 2 begin { snap lb letv lo := len(newPath) letv po := newPath letv W := old(unitsOf(node, mode))
    if $i < len(wids) { assert[w] 0 <= $i && $i < len(W) && W[$i] == wids[$i] assert[ok] okUnit(t.lexicon, W[$i]) assert[oki] okUnit(t.lexicon, wids[$i]) letv ix := $i letv oo := offset assert[step] sumUnits(t.lexicon, W, $i+1) == sumUnits(t.lexicon, W, $i) + setHead(t.lexicon, wids[$i]) } }
  at loop 2 end {
    assert[grown] len(newPath) == lo + 1 && newPath[lo] == n0 && n0.Begin == snapped("lb", offset) && n0.End == offset
    assert[kept] forall i int {newPath[i]} :: 0 <= i && i < lo ==> newPath[i] == snapped("lb", po[i])
    assert[keptB] forall i int {newPath[i]} :: 0 <= i && i < lo ==> newPath[i].Begin == snapped("lb", po[i].Begin) 
    assert[keptE] forall i int {newPath[i]} :: 0 <= i && i < lo ==> newPath[i].End == snapped("lb", po[i].End)
    assert[side] forall i int, j int {newPath[i], newPath[j]} :: 0 <= i && j == i + 1 && j < lo ==> newPath[i].End == newPath[j].Begin
    assert[last] lo > 0 ==> newPath[lo-1].End == n0.Begin
    assert[keptU] forall i int {newPath[i]} :: len(O0) <= i && i < lo ==> isfresh(newPath[i]) && unitNode(newPath[i], t.lexicon, wids[i - len(O0)])
    assert[newU] isfresh(n0) && unitNode(n0, t.lexicon, wids[ix]) && lo - len(O0) == ix
    assert[lastU] newPath[lo] == n0 && len(newPath) == lo + 1
    assert[isLast] forall i int {newPath[i]} :: lo <= i && i < len(newPath) ==> i == lo && newPath[i] == n0 && wids[i - len(O0)] == wids[ix]
    assert[sideN] forall i int, j int {newPath[i], newPath[j]} :: 0 <= i && j == i + 1 && lo <= j && j < len(newPath) ==> j == lo && i == lo - 1 && newPath[i].End == newPath[j].Begin
    assert[lastN] forall i int {newPath[i]} :: lo <= i && i < len(newPath) ==> isfresh(newPath[i]) && unitNode(newPath[i], t.lexicon, wids[i - len(O0)])
  }
  loop 2:
    invariant isfresh(newPath) && base(newPath) != nil && len(path) > 0
    invariant[seq] len(wids) >= 2 && seq(wids) == old(unitsOf(node, mode))
    invariant[node] wfNode(node) && old(splitsOk(t.lexicon, node, mode))
    invariant[offset] offset == node.Begin + sumUnits(t.lexicon, old(unitsOf(node, mode)), $i)
    invariant[tiled] tiledMem(newPath, pathBegin(path), offset) && ($i > 0 ==> len(newPath) > 0)
    invariant[lens] len(newPath) == len(O0) + $i
    invariant[made] forall q int {newPath[q]} :: 0 <= q && q < len(O0) ==>
      (O0[q] == 4294967296 ? newPath[q] == path[W0[q]] : isfresh(newPath[q]) && unitNode(newPath[q], t.lexicon, O0[q]))
    invariant[units] forall q int {newPath[q]} :: len(O0) <= q && q < len(newPath) ==> isfresh(newPath[q]) && unitNode(newPath[q], t.lexicon, wids[q - len(O0)])
  ensures[tiles] len(path) > 0 ==> len(r) > 0 && tiledMem(r, path[0].Begin, path[len(path)-1].End)
  ensures[empty] len(path) == 0 ==> len(r) == 0
  ensures[units] len(r) == len(old(outWids(seq(path), mode, len(path)))) && (forall q int {r[q]} :: 0 <= q && q < len(r) ==>
    (let id := old(outWids(seq(path), mode, len(path)))[q] :: (id == 4294967296 ? r[q] == path[old(outOwn(seq(path), mode, len(path)))[q]] : isfresh(r[q]) && unitNode(r[q], t.lexicon, id))))

// ---- what the tokenizer expects of plugins; the repository's own are held to stronger contracts of their own (C05, C06, C16-C18)
extern func "gosudachi.OovProviderPlugin.ProvideOOV"(p, inputText, offset, hasOtherWords) (nodes, err)
  requires inputText != nil && wfInput(inputText) && 0 <= offset && offset < len(inputText.Bytea) && aligned(inputText, offset)
  modifies nothing
  ensures err == nil ==> isfresh(nodes) && proposals(inputText, nodes, offset)
func GetOOV(p, inputText, offset, hasOtherWords) (nodes, err)
  requires p != nil && inputText != nil && wfInput(inputText) && 0 <= offset && offset < len(inputText.Bytea) && aligned(inputText, offset)
  modifies nothing
  loop 1:
    invariant isfresh(nodes) && (forall k int {nodes[k]} :: 0 <= k && k < len(nodes) ==> oovNode(nodes[k]) && isfresh(nodes[k]) && offset + nodes[k].extraWordInfo.HeadwordLength <= len(inputText.Bytea))
    invariant forall k int {nodes[k]} :: 0 <= k && k < $i ==> nodes[k].Begin == offset && nodes[k].End == offset + nodes[k].extraWordInfo.HeadwordLength
  ensures[words] err == nil ==> (forall k int {nodes[k]} :: 0 <= k && k < len(nodes) ==> oovNode(nodes[k]) && isfresh(nodes[k]) && nodes[k].Begin == offset && nodes[k].End <= len(inputText.Bytea) && offset < nodes[k].End)
  ensures[apart] err == nil ==> (forall i int, j int {nodes[i], nodes[j]} :: 0 <= i && i < j && j < len(nodes) ==> nodes[i] != nodes[j])
  ensures[own] err == nil ==> isfresh(nodes)

// ---- the lattice of a text
// a node that says what its word is
spec func ownNode(s *dictionary.LexiconSet, n *LatticeNode) bool = n.isDefined && (n.extraWordInfo != nil || (n.lexicon == s && okUnit(s, n.wordId)))
// every word's connection ids are in the table
spec func linkIdsOk(s *dictionary.LexiconSet, g *dictionary.Grammar) bool = forall id int {okUnit(s, id)} :: okUnit(s, id) ==>
  0 <= pLeft(s.lexicons[dictOf(id)].wordParams, localOf(id)) && pLeft(s.lexicons[dictOf(id)].wordParams, localOf(id)) < g.rightIdSize &&
  0 <= pRight(s.lexicons[dictOf(id)].wordParams, localOf(id)) && pRight(s.lexicons[dictOf(id)].wordParams, localOf(id)) < g.leftIdSize
spec func pluginsOk(ip []InputTextPlugin, op []OovProviderPlugin, pp []PathRewritePlugin) bool =
  (forall k int {op[k]} :: 0 <= k && k < len(op) ==> op[k] != nil) &&
  (forall k int {ip[k]} :: 0 <= k && k < len(ip) ==> ip[k] != nil) &&
  (forall k int {pp[k]} :: 0 <= k && k < len(pp) ==> pp[k] != nil)
// what a tokenizer works with
spec func wfTokenizer(t *JapaneseTokenizer) bool =
  t.lexicon != nil && wfSet(t.lexicon) && wfListed(t.lexicon) && t.grammar != nil && linkIdsOk(t.lexicon, t.grammar) &&
  t.lattice != nil && usedLattice(t.lattice) && t.lattice.grammar == t.grammar && len(t.lattice.eosParams) == 3 &&
  0 <= t.lattice.eosParams[0] && t.lattice.eosParams[0] < t.grammar.rightIdSize && 0 <= t.lattice.eosParams[1] && t.lattice.eosParams[1] < t.grammar.leftIdSize &&
  pluginsOk(t.inputTextPlugins, t.oovProviderPlugins, t.pathRewritePlugins)
// the lattice while position i is looked at
spec func growing(t *JapaneseTokenizer, n int, i int) bool =
  wfLattice(t.lattice) && n < len(t.lattice.endLists) && t.lattice.eosNode != nil && t.lattice.eosNode.Begin == n && nodeIds(t.lattice, t.lattice.eosNode) &&
  (forall e int, k int {t.lattice.endLists[e][k]} :: 0 <= e && e < len(t.lattice.endLists) && 0 <= k && k < len(t.lattice.endLists[e]) ==>
    t.lattice.endLists[e][k].Begin <= i && (e > 0 ==> e <= n && ownNode(t.lexicon, t.lattice.endLists[e][k])))
spec func oovsOk(t *JapaneseTokenizer, nodes []*LatticeNode, n int, i int, j int) bool =
  (forall k int {nodes[k]} :: 0 <= k && k < len(nodes) ==> oovNode(nodes[k]) && nodes[k].Begin == i && i < nodes[k].End && nodes[k].End <= n && nodeIds(t.lattice, nodes[k]) && nodes[k] != t.lattice.eosNode) &&
  (forall a int, b int {nodes[a], nodes[b]} :: 0 <= a && a < b && b < len(nodes) ==> nodes[a] != nodes[b]) &&
  (forall e int, k int, m int {t.lattice.endLists[e][k], nodes[m]} :: 0 <= e && e < len(t.lattice.endLists) && 0 <= k && k < len(t.lattice.endLists[e]) && j <= m && m < len(nodes) ==> t.lattice.endLists[e][k] != nodes[m]) &&
  (forall e int {t.lattice.endLists[e]} :: 0 <= e && e < len(t.lattice.endLists) ==> base(t.lattice.endLists[e]) != base(nodes) || base(nodes) == nil)
// what is done at one position (C26), for the argument only: the words' and unknown words' places in the lattice, the position, the providers asked, whether one had a word
ghostfield InputText.at seq[int]
ghostfield InputText.oovAt seq[int]
ghostfield InputText.looked int
ghostfield InputText.asked int
ghostfield InputText.last OovProviderPlugin
ghostfield InputText.got bool
// the word with this id stands in the lattice, from b to e
spec rec func placedWord(t *JapaneseTokenizer, b int, e int, k int, id int) bool decreases 0 =
  0 <= e && e < len(t.lattice.endLists) && 0 <= k && k < len(t.lattice.endLists[e]) && 
  (let n := t.lattice.endLists[e][k] :: (n.Begin == b && n.End == e && n.wordId == id && n.lexicon == t.lexicon && n.isDefined && n.extraWordInfo == nil &&
    n.leftId == pLeft(t.lexicon.lexicons[dictOf(id)].wordParams, localOf(id)) && n.rightId == pRight(t.lexicon.lexicons[dictOf(id)].wordParams, localOf(id)) && n.cost == pCost(t.lexicon.lexicons[dictOf(id)].wordParams, localOf(id))))
spec func placedWords(t *JapaneseTokenizer, at seq[int], b int, J seq[int], I seq[int]) bool =
  len(at) <= len(I) && len(I) == len(J) && (forall j int {at[j]} :: 0 <= j && j < len(at) ==> placedWord(t, b, J[j], at[j], I[j]))
// an unknown word stands in the lattice where it ends
spec rec func placedNode(t *JapaneseTokenizer, n *LatticeNode, k int) bool decreases 0 =
  0 <= n.End && n.End < len(t.lattice.endLists) && 0 <= k && k < len(t.lattice.endLists[n.End]) && t.lattice.endLists[n.End][k] == n
func (t *JapaneseTokenizer).buildLattice(input) (err)
  requires wfTokenizer(t) && input != nil && wfInput(input)
  property C02, C03, C26
  modifies input.at, input.oovAt, input.looked, input.asked, input.last, input.got, t.lattice.endLists, t.lattice.eosNode, elems(t.lattice.endLists), elems(t.lattice.endLists[e]) for e int : 0 <= e && e < len(t.lattice.endLists)
  nomerge
  hide okUnit, relaxed, setIds, setEnds, restIds, restEnds, idsIn, matchIds, matchEnds, itIds, itEndsOf, runEnd, runBegin, boff, isWord, isThat, pLeft, pRight, pCost
  at loop 1 begin { if $i < len(bytea) { letv bow := aligned(input, $i) && bowOk(seq(input.charCategories), input.byteIndexes[$i]) letv prev := len(t.lattice.endLists[$i]) > 0 letv ii := $i ghost input.looked := 0-1 } }
  at loop 1 end { if bow && prev { assert[looked] input.looked == ii assert[some] len(allIds(seq(t.lexicon.lexicons), seq(bytea), ii)) > 0 || input.got
    assert[providers] input.asked == (band(input.charCategories[input.byteIndexes[ii]], dictionary.NOOOVBOW) != dictionary.NOOOVBOW ? len(t.oovProviderPlugins) : 0) } }
  at call GetOOV before { assert[ask] $arg1 == input && $arg2 == i && $arg3 == (len(IA) > 0 || input.got) ghost input.last := $arg0 ghost input.oovAt := seq([0], 0, 0) }
  at loop 3 begin { letv pk := $i }
  at loop 3 end { assert[each] input.last == t.oovProviderPlugins[pk] && len(input.oovAt) == len(nodes) ghost input.asked := pk + 1 }
  at loop 5 exit { assert[default] input.last == t.defaultOovProvider && len(input.oovAt) == len(nodes) }
  at call Lookup before { assert[where] $arg0 == t.lexicon && seq($arg1) == seq(input.Bytea) && $arg2 == i
    letv IA := allIds(seq(t.lexicon.lexicons), seq(bytea), i) letv JA := allEnds(seq(t.lexicon.lexicons), seq(bytea), i)
    ghost input.looked := i  ghost input.at := seq([0], 0, 0)  ghost input.asked := 0  ghost input.got := false use foundIn(t.lexicon, seq(bytea), i) }
  at call Get before { letv I0 := setIds(iterator) letv J0 := setEnds(iterator) }
  at call Get after {
    assert[first] I0 == [$result0] ++ setIds(iterator) && J0 == [$result1] ++ setEnds(iterator)
    assert[word] I0[0] == $result0 && okUnit(t.lexicon, $result0) && J0[0] == $result1 && i < $result1 && $result1 <= len(bytea)
    use tailOf(I0, $result0, setIds(iterator)) use tailOf(J0, $result1, setEnds(iterator))
    letv I1 := setIds(iterator) letv J1 := setEnds(iterator)
    assert[restI] forall k int {I1[k]} :: 0 <= k && k < len(I1) ==> I1[k] == I0[k+1]
    assert[restJ] forall k int {J1[k]} :: 0 <= k && k < len(J1) ==> J1[k] == J0[k+1]
    use okUnitIn(t.lexicon, $result0)
    letv m0 := len(input.at)
    assert[next] m0 < len(IA) && IA[m0] == $result0 && JA[m0] == $result1
    use subSub(IA, m0, len(IA), 1, len(IA) - m0) use subSub(JA, m0, len(JA), 1, len(JA) - m0)
    assert[restIA] setIds(iterator) == seq(IA, m0 + 1, len(IA)) assert[restJA] setEnds(iterator) == seq(JA, m0 + 1, len(JA))
  }
  at call Insert before {
    letv in0 := $arg3 letv e0 := $arg2 letv l0 := len(t.lattice.endLists[e0])
    assert[home] (e0 < old(len(t.lattice.endLists)) && base(t.lattice.endLists[e0]) == old(base(t.lattice.endLists[e0]))) || isfresh(t.lattice.endLists[e0])
    snap bi
  }
  at call Insert after {
    assert[insNew] ownNode(t.lexicon, $arg3) && $arg3.Begin == i
    assert[insBegin] forall e int, k int {t.lattice.endLists[e][k]} :: 0 <= e && e < len(t.lattice.endLists) && 0 <= k && k < len(t.lattice.endLists[e]) ==> t.lattice.endLists[e][k].Begin <= i
    assert[insOwn] forall e int, k int {t.lattice.endLists[e][k]} :: 0 < e && e < len(t.lattice.endLists) && 0 <= k && k < len(t.lattice.endLists[e]) ==> e <= len(bytea) && ownNode(t.lexicon, t.lattice.endLists[e][k])
  }
  at loop 4 begin { snap l4 letv jj := $i }
  at loop 4 end { assert[nodes4] forall k int {nodes[k]} :: 0 <= k && k < len(nodes) ==> nodes[k] == snapped("l4", nodes[k]) 
    letv B0 := input.oovAt letv nn := nodes[jj]
    assert[arg4a] snapped("l4", nodes[jj]) == in0 assert[arg4] nn == in0
    assert[this] t.lattice.endLists[e0][l0] == nn && e0 == nn.End && l0 == snapped("l4", len(t.lattice.endLists[e0])) && len(B0) == jj && nn != nil
    assert[othersO] forall k int {B0[k]} :: 0 <= k && k < jj ==> nodes[k] != nn && nodes[k] == snapped("l4", nodes[k]) && nodes[k].End == snapped("l4", nodes[k].End)
    assert[oovStay] forall k int {B0[k]} :: 0 <= k && k < jj ==> placedNode(t, nodes[k], B0[k])
    ghost input.oovAt := B0 ++ [l0]
    assert[whichO] len(input.oovAt) == len(B0) + 1 && (forall j int {input.oovAt[j]} :: 0 <= j && j < len(input.oovAt) ==> (j < len(B0) ? input.oovAt[j] == B0[j] : j == len(B0) && input.oovAt[j] == l0))
    assert[newO] placedNode(t, nn, l0)
    assert[oldO] forall j int {input.oovAt[j]} :: 0 <= j && j < len(B0) ==> placedNode(t, nodes[j], input.oovAt[j])
    assert[oneO] forall j int {input.oovAt[j]} :: j == len(B0) ==> placedNode(t, nodes[j], input.oovAt[j])
  }
  at loop 5 begin { snap l5 letv jj := $i }
  at loop 5 end { assert[nodes5] forall k int {nodes[k]} :: 0 <= k && k < len(nodes) ==> nodes[k] == snapped("l5", nodes[k]) 
    letv B0 := input.oovAt letv nn := nodes[jj]
    assert[arg5a] snapped("l5", nodes[jj]) == in0 assert[arg5] nn == in0
    assert[this] t.lattice.endLists[e0][l0] == nn && e0 == nn.End && l0 == snapped("l5", len(t.lattice.endLists[e0])) && len(B0) == jj && nn != nil
    assert[othersO] forall k int {B0[k]} :: 0 <= k && k < jj ==> nodes[k] != nn && nodes[k] == snapped("l5", nodes[k]) && nodes[k].End == snapped("l5", nodes[k].End)
    assert[oovStay] forall k int {B0[k]} :: 0 <= k && k < jj ==> placedNode(t, nodes[k], B0[k])
    ghost input.oovAt := B0 ++ [l0]
    assert[whichO] len(input.oovAt) == len(B0) + 1 && (forall j int {input.oovAt[j]} :: 0 <= j && j < len(input.oovAt) ==> (j < len(B0) ? input.oovAt[j] == B0[j] : j == len(B0) && input.oovAt[j] == l0))
    assert[newO] placedNode(t, nn, l0)
    assert[oldO] forall j int {input.oovAt[j]} :: 0 <= j && j < len(B0) ==> placedNode(t, nodes[j], input.oovAt[j])
    assert[oneO] forall j int {input.oovAt[j]} :: j == len(B0) ==> placedNode(t, nodes[j], input.oovAt[j])
  }
  at call GetOOV after { assume[the connection ids a provider gives to unknown words are in the table] forall k int {$result0[k]} :: 0 <= k && k < len($result0) ==> nodeIds(t.lattice, $result0[k]) }
  loop 1:
    invariant[grow] growing(t, len(bytea), $i)
    invariant[base] base(t.lattice.endLists) == old(base(t.lattice.endLists)) || isfresh(t.lattice.endLists)
    invariant[bases] forall e int {t.lattice.endLists[e]} :: 0 <= e && e < len(t.lattice.endLists) ==> (e < old(len(t.lattice.endLists)) && base(t.lattice.endLists[e]) == old(base(t.lattice.endLists[e]))) || isfresh(t.lattice.endLists[e])
  at call Insert after {
    assert[notIt] forall j int {input.at[j]} :: 0 <= j && j < len(input.at) ==> t.lattice.endLists[JA[j]][input.at[j]] != $arg3 && t.lattice.endLists[JA[j]][input.at[j]] == snapped("bi", t.lattice.endLists[JA[j]][input.at[j]])
    assert[grown] len(t.lattice.endLists) == snapped("bi", len(t.lattice.endLists)) && (forall e int {t.lattice.endLists[e]} :: 0 <= e && e < len(t.lattice.endLists) ==> len(t.lattice.endLists[e]) >= snapped("bi", len(t.lattice.endLists[e])))
    assert[before] forall j int {input.at[j]} :: 0 <= j && j < len(input.at) ==> 0 <= JA[j] && JA[j] < len(t.lattice.endLists) && 0 <= input.at[j] && input.at[j] < snapped("bi", len(t.lattice.endLists[JA[j]]))
    assert[within] forall j int {input.at[j]} :: 0 <= j && j < len(input.at) ==> 0 <= JA[j] && JA[j] < len(t.lattice.endLists) && 0 <= input.at[j] && input.at[j] < len(t.lattice.endLists[JA[j]])
    assert[sameAt] forall j int {input.at[j]} :: 0 <= j && j < len(input.at) ==> t.lattice.endLists[JA[j]][input.at[j]].Begin == i && t.lattice.endLists[JA[j]][input.at[j]].End == JA[j]
    assert[stay] forall j int {input.at[j]} :: 0 <= j && j < len(input.at) ==> placedWord(t, i, JA[j], input.at[j], IA[j])
    assert[there] t.lattice.endLists[e0][l0] == $arg3 && l0 < len(t.lattice.endLists[e0]) && $arg3.Begin == i && $arg3.End == e0
    if $arg3.extraWordInfo == nil {
      assert[word1] $arg3.wordId == IA[len(input.at)] && e0 == JA[len(input.at)] && $arg3.lexicon == t.lexicon && $arg3.isDefined
      assert[params] $arg3.leftId == pLeft(t.lexicon.lexicons[dictOf($arg3.wordId)].wordParams, localOf($arg3.wordId)) && $arg3.rightId == pRight(t.lexicon.lexicons[dictOf($arg3.wordId)].wordParams, localOf($arg3.wordId)) && $arg3.cost == pCost(t.lexicon.lexicons[dictOf($arg3.wordId)].wordParams, localOf($arg3.wordId))
      assert[placed0] placedWord(t, i, e0, l0, $arg3.wordId)
      assert[placed] len(input.at) < len(IA) && placedWord(t, i, JA[len(input.at)], l0, IA[len(input.at)])
      letv A0 := input.at ghost input.at := A0 ++ [l0]
      assert[which] len(input.at) == len(A0) + 1 && (forall j int {input.at[j]} :: 0 <= j && j < len(input.at) ==> (j < len(A0) ? input.at[j] == A0[j] : j == len(A0) && input.at[j] == l0))
      assert[olds] forall j int {input.at[j]} :: 0 <= j && j < len(A0) ==> placedWord(t, i, JA[j], input.at[j], IA[j])
      assert[news] forall j int {input.at[j]} :: j == len(A0) ==> placedWord(t, i, JA[j], input.at[j], IA[j])
      assert[both] forall j int {input.at[j]} :: 0 <= j && j < len(input.at) ==> placedWord(t, i, JA[j], input.at[j], IA[j])
    } else { ghost input.got := true }
  }
  at loop 2 exit { assert[every] iterator.dalit.dait.err == nil ==> len(input.at) == len(IA) }
  loop 2:
    invariant[looked] input.looked == i && input.asked == 0 && !input.got && hasWords == (len(IA) > 0)
    invariant[found] placedWords(t, input.at, i, JA, IA) && setIds(iterator) == seq(IA, len(input.at), len(IA)) && setEnds(iterator) == seq(JA, len(input.at), len(JA))
    invariant[grow] growing(t, len(bytea), i)
    invariant[base] base(t.lattice.endLists) == old(base(t.lattice.endLists)) || isfresh(t.lattice.endLists)
    invariant[bases] forall e int {t.lattice.endLists[e]} :: 0 <= e && e < len(t.lattice.endLists) ==> (e < old(len(t.lattice.endLists)) && base(t.lattice.endLists[e]) == old(base(t.lattice.endLists[e]))) || isfresh(t.lattice.endLists[e])
    invariant[iter] wfSetIter(iterator) && isfresh(iterator) && isfresh(iterator.dalit) && isfresh(iterator.dalit.dait) && iterator.dalit.dait.err == nil
    invariant[ids] okUnits(t.lexicon, setIds(iterator))
    invariant[ends] endsIn(setEnds(iterator), i, len(bytea))
    invariant[lens] len(setIds(iterator)) == len(setEnds(iterator))
    decreases len(setIds(iterator))
  loop 3:
    invariant[asked] input.asked == $i
    invariant[looked] input.looked == i && len(input.at) == len(IA)
    invariant[words] placedWords(t, input.at, i, JA, IA)
    invariant[has] hasWords == (len(IA) > 0 || input.got)
    invariant[grow] growing(t, len(bytea), i)
    invariant[base] base(t.lattice.endLists) == old(base(t.lattice.endLists)) || isfresh(t.lattice.endLists)
    invariant[bases] forall e int {t.lattice.endLists[e]} :: 0 <= e && e < len(t.lattice.endLists) ==> (e < old(len(t.lattice.endLists)) && base(t.lattice.endLists[e]) == old(base(t.lattice.endLists[e]))) || isfresh(t.lattice.endLists[e])
  loop 4:
    invariant[asked] input.asked == pk && input.last == t.oovProviderPlugins[pk]
    invariant[oovWords] len(input.oovAt) == $i && (forall k int {input.oovAt[k]} :: 0 <= k && k < $i ==> placedNode(t, nodes[k], input.oovAt[k]))
    invariant[looked] input.looked == i && len(input.at) == len(IA)
    invariant[words] placedWords(t, input.at, i, JA, IA)
    invariant[has] hasWords == (len(IA) > 0 || input.got)
    invariant[grow] growing(t, len(bytea), i)
    invariant[base] base(t.lattice.endLists) == old(base(t.lattice.endLists)) || isfresh(t.lattice.endLists)
    invariant[bases] forall e int {t.lattice.endLists[e]} :: 0 <= e && e < len(t.lattice.endLists) ==> (e < old(len(t.lattice.endLists)) && base(t.lattice.endLists[e]) == old(base(t.lattice.endLists[e]))) || isfresh(t.lattice.endLists[e])
    invariant[oovs] isfresh(nodes) && allocated(nodes) && oovsOk(t, nodes, len(bytea), i, $i) && (forall k int {nodes[k]} :: 0 <= k && k < len(nodes) ==> isfresh(nodes[k]))
  loop 5:
    invariant[asked] input.asked == (band(input.charCategories[input.byteIndexes[i]], dictionary.NOOOVBOW) != dictionary.NOOOVBOW ? len(t.oovProviderPlugins) : 0) && input.last == t.defaultOovProvider
    invariant[oovWords] len(input.oovAt) == $i && (forall k int {input.oovAt[k]} :: 0 <= k && k < $i ==> placedNode(t, nodes[k], input.oovAt[k]))
    invariant[looked] input.looked == i && len(input.at) == len(IA)
    invariant[words] placedWords(t, input.at, i, JA, IA)
    invariant[has] hasWords == (len(IA) > 0 || input.got)
    invariant[grow] growing(t, len(bytea), i)
    invariant[base] base(t.lattice.endLists) == old(base(t.lattice.endLists)) || isfresh(t.lattice.endLists)
    invariant[bases] forall e int {t.lattice.endLists[e]} :: 0 <= e && e < len(t.lattice.endLists) ==> (e < old(len(t.lattice.endLists)) && base(t.lattice.endLists[e]) == old(base(t.lattice.endLists[e]))) || isfresh(t.lattice.endLists[e])
    invariant[oovs] isfresh(nodes) && allocated(nodes) && oovsOk(t, nodes, len(bytea), i, $i) && (forall k int {nodes[k]} :: 0 <= k && k < len(nodes) ==> isfresh(nodes[k]))
  ensures[used] usedLattice(t.lattice)
  ensures[home] base(t.lattice.endLists) == old(base(t.lattice.endLists)) || isfresh(t.lattice.endLists)
  ensures[bases] forall e int {t.lattice.endLists[e]} :: 0 <= e && e < len(t.lattice.endLists) ==> (e < old(len(t.lattice.endLists)) && base(t.lattice.endLists[e]) == old(base(t.lattice.endLists[e]))) || isfresh(t.lattice.endLists[e])
  ensures[built] err == nil ==> growing(t, len(input.Bytea), len(input.Bytea)) && eosOk(t.lattice)

// ---- the list of morphemes
// the map from bytes back to the original text: from its begin to its end, never going back
spec func wfMapped(t *InputText) bool =
  wfInput(t) && validStr(t.OriginalText) && t.offsets[0] == 0 && t.offsets[len(t.Bytea)] == len(runes(t.OriginalText)) &&
  (forall i int, j int {t.offsets[i], t.offsets[j]} :: 0 <= i && i <= j && j <= len(t.Bytea) ==> t.offsets[i] <= t.offsets[j])
spec func listOk(l *MorphemeList, b int, e int) bool = l.inputText != nil && wfMapped(l.inputText) && 0 <= b && b <= e && e <= len(l.inputText.Bytea) && tiledMem(l.path, b, e)
lemma tiledIn(P seq[*LatticeNode], b int, e int, i int)
  requires tiled(P, b, e) && 0 <= i && i < len(P)
  ensures b <= P[i].Begin && P[i].Begin <= P[i].End
  decreases i
  proof { if i > 0 { use tiledIn(P, b, e, i-1) } }
lemma tiledUp(P seq[*LatticeNode], b int, e int, i int)
  requires tiled(P, b, e) && 0 <= i && i < len(P)
  ensures P[i].End <= e
  decreases len(P) - i
  proof { if i < len(P) - 1 { use tiledUp(P, b, e, i+1) } }
func (l *MorphemeList).GetBegin(index) (b)
  property C02
  requires l != nil && l.inputText != nil && wfInput(l.inputText) && 0 <= index && index < len(l.path) && l.path[index] != nil && 0 <= l.path[index].Begin && l.path[index].Begin <= len(l.inputText.Bytea)
  modifies nothing
  ensures[begin] b == l.inputText.offsets[l.path[index].Begin]
func (l *MorphemeList).GetEnd(index) (e)
  property C02
  requires l != nil && l.inputText != nil && wfInput(l.inputText) && 0 <= index && index < len(l.path) && l.path[index] != nil && 0 <= l.path[index].End && l.path[index].End <= len(l.inputText.Bytea)
  modifies nothing
  ensures[end] e == l.inputText.offsets[l.path[index].End]
spec func origOf(t *InputText, n *LatticeNode) seq[int] = strOfRunes(seq(runes(t.OriginalText), t.offsets[n.Begin], t.offsets[n.End]))
func (l *MorphemeList).GetSurface(index) (s)
  property C02
  requires l != nil && l.inputText != nil && wfMapped(l.inputText) && 0 <= index && index < len(l.path) && l.path[index] != nil && 0 <= l.path[index].Begin && l.path[index].Begin <= l.path[index].End && l.path[index].End <= len(l.inputText.Bytea)
  modifies nothing
  ensures[surface] s == origOf(l.inputText, l.path[index])

// the surfaces of morphemes that lie side by side, put together
spec rec func surfs(t *InputText, P seq[*LatticeNode], k int) seq[int] decreases k = k <= 0 ? seq([0], 0, 0) : surfs(t, P, k-1) ++ origOf(t, P[k-1])
lemma surfsJoin(t *InputText, P seq[*LatticeNode], k int)
  property C02
  requires t != nil && wfMapped(t) && tiled(P, 0, len(t.Bytea)) && 1 <= k && k <= len(P)
  ensures surfs(t, P, k) == seq(t.OriginalText, 0, boff(runes(t.OriginalText), t.offsets[P[k-1].End]))
  decreases k
  hide boff
  proof {
    letv R := runes(t.OriginalText)
    use encLen(R) use boffMono(R, 0, len(R))
    use tiledIn(P, 0, len(t.Bytea), k-1) use tiledUp(P, 0, len(t.Bytea), k-1)
    letv a := t.offsets[P[k-1].Begin] letv e := t.offsets[P[k-1].End]
    use encSub(R, a, e) use boffMono(R, a, e) use boffMono(R, 0, a) use boffMono(R, e, len(R)) use boffZero(R)
    assert[own] origOf(t, P[k-1]) == seq(t.OriginalText, boff(R, a), boff(R, e))
    if k > 1 { use surfsJoin(t, P, k-1) assert[next] P[k-2].End == P[k-1].Begin } else { assert[base] surfs(t, P, 0) == seq([0], 0, 0) && a == 0 }
  }
lemma surfsText(t *InputText, P seq[*LatticeNode])
  property C02
  requires t != nil && wfMapped(t) && tiled(P, 0, len(t.Bytea))
  ensures surfs(t, P, len(P)) == t.OriginalText
  proof {
    letv R := runes(t.OriginalText)
    use encLen(R)
    if len(P) > 0 { use surfsJoin(t, P, len(P)) } else { assert[none] len(R) == 0 assert[empty] len(t.OriginalText) == 0 && surfs(t, P, 0) == seq([0], 0, 0) }
  }
func NewMorphemeList(inputText, grammar, lexicon, path) (l)
  property C02
  modifies nothing
  ensures l != nil && isfresh(l) && l.inputText == inputText && l.grammar == grammar && l.lexicon == lexicon && l.path == path
// splitting one morpheme: its units lie side by side where it lies
func (l *MorphemeList).Split(mode, index, wi) (r)
  property C02, C24
  requires l != nil && 0 <= index && index < len(l.path) && wfNode(l.path[index]) && l.path[index].Begin <= l.path[index].End && l.lexicon != nil && wfSet(l.lexicon) && wi != nil
  requires (mode == [65] && len(wi.AUnitSplit) >= 2 ==> unitsOk(l.lexicon, seq(wi.AUnitSplit), l.path[index].End - l.path[index].Begin)) &&
    (mode == [66] && len(wi.BUnitSplit) >= 2 ==> unitsOk(l.lexicon, seq(wi.BUnitSplit), l.path[index].End - l.path[index].Begin))
  modifies nothing
  hide okUnit, setHead
  at entry { letv n0 := l.path[index] letv wa := wi.AUnitSplit letv wb := wi.BUnitSplit }
  at call NewLatticeNode after { letv n1 := $result use wordNode(n1, l.lexicon) assert[wf] wfNode(n1) }
  at call GetWordInfo after { assert[head] $result.HeadwordLength == setHead(l.lexicon, n1.wordId) && n1.wordId == W[ix] }
  at loop 1 begin { snap lb letv W := seq(wordIds) letv no := nodes
    if $i < len(wordIds) { assert[w] W[$i] == wordIds[$i] assert[ok] okUnit(l.lexicon, W[$i]) assert[oki] okUnit(l.lexicon, wordIds[$i]) letv ix := $i assert[step] sumUnits(l.lexicon, W, $i+1) == sumUnits(l.lexicon, W, $i) + setHead(l.lexicon, wordIds[$i]) } }
  at loop 1 end {
    assert[new] nodes[ix] == n1 && n1.Begin == snapped("lb", offset) && n1.End == offset
    assert[kept] forall i int {nodes[i]} :: 0 <= i && i < ix ==> nodes[i] == snapped("lb", nodes[i])
    assert[keptB] forall i int {nodes[i]} :: 0 <= i && i < ix ==> nodes[i].Begin == snapped("lb", nodes[i].Begin)
    assert[keptE] forall i int {nodes[i]} :: 0 <= i && i < ix ==> nodes[i].End == snapped("lb", nodes[i].End)
    assert[keptU] forall i int {nodes[i]} :: 0 <= i && i < ix ==> isfresh(nodes[i]) && unitNode(nodes[i], l.lexicon, W[i])
    assert[newU] unitNode(n1, l.lexicon, W[ix])
  }
  loop 1:
    invariant isfresh(nodes) && base(nodes) != nil && len(nodes) == len(wordIds)
    invariant[units] len(wordIds) >= 2 && (mode == [65] ? wordIds == wa : mode == [66] && wordIds == wb) && unitsOk(l.lexicon, seq(wordIds), n0.End - n0.Begin)
    invariant[offset] offset == n0.Begin + sumUnits(l.lexicon, seq(wordIds), $i)
    invariant[set] forall i int {nodes[i]} :: 0 <= i && i < $i ==> nodes[i] != nil && nodes[i].Begin <= nodes[i].End && isfresh(nodes[i])
    invariant[made] forall i int {nodes[i]} :: 0 <= i && i < $i ==> unitNode(nodes[i], l.lexicon, wordIds[i])
    invariant[ends] $i > 0 ? nodes[0].Begin == n0.Begin && nodes[$i-1].End == offset : offset == n0.Begin
    invariant[side] forall i int, j int {nodes[i], nodes[j]} :: 0 <= i && j == i + 1 && j < $i ==> nodes[i].End == nodes[j].Begin
  ensures r != nil && r.inputText == l.inputText && r.grammar == l.grammar && r.lexicon == l.lexicon && len(r.path) > 0
  ensures[tiles] tiledMem(r.path, l.path[index].Begin, l.path[index].End)
  ensures[units] let W := mode == [65] ? seq(wi.AUnitSplit) : seq(wi.BUnitSplit) ::
    ((mode == [65] || mode == [66]) && len(W) >= 2 ? len(r.path) == len(W) && (forall q int {r.path[q]} :: 0 <= q && q < len(r.path) ==> isfresh(r.path[q]) && unitNode(r.path[q], l.lexicon, W[q]))
      : len(r.path) == 1 && r.path[0] == l.path[index])
func (m *Morpheme).Begin() (b)
  property C02
  requires m.list != nil && m.list.inputText != nil && wfInput(m.list.inputText) && 0 <= m.index && m.index < len(m.list.path) && m.list.path[m.index] != nil && 0 <= m.list.path[m.index].Begin && m.list.path[m.index].Begin <= len(m.list.inputText.Bytea)
  modifies nothing
  ensures[begin] b == m.list.inputText.offsets[m.list.path[m.index].Begin]
func (m *Morpheme).End() (e)
  property C02
  requires m.list != nil && m.list.inputText != nil && wfInput(m.list.inputText) && 0 <= m.index && m.index < len(m.list.path) && m.list.path[m.index] != nil && 0 <= m.list.path[m.index].End && m.list.path[m.index].End <= len(m.list.inputText.Bytea)
  modifies nothing
  ensures[end] e == m.list.inputText.offsets[m.list.path[m.index].End]
func (m *Morpheme).Surface() (s)
  property C02
  requires m.list != nil && m.list.inputText != nil && wfMapped(m.list.inputText) && 0 <= m.index && m.index < len(m.list.path) && m.list.path[m.index] != nil && 0 <= m.list.path[m.index].Begin && m.list.path[m.index].Begin <= m.list.path[m.index].End && m.list.path[m.index].End <= len(m.list.inputText.Bytea)
  modifies nothing
  ensures[surface] s == origOf(m.list.inputText, m.list.path[m.index])

// ---- from text to morphemes
lemma ownIsWf(s *dictionary.LexiconSet, n *LatticeNode)
  requires n != nil && s != nil && wfSet(s) && ownNode(s, n)
  ensures wfNode(n)
lemma sideBySide(P seq[*LatticeNode], b int, e int, i int, j int)
  requires tiled(P, b, e) && 0 <= i && i < j && j < len(P)
  ensures P[i].End <= P[j].Begin
  decreases j
  proof { if i < j - 1 { use sideBySide(P, b, e, i, j-1) } }
// one of the candidate segmentations lies side by side from 0 to the end
lemma candTiled(l *Lattice, P seq[*LatticeNode])
  requires l != nil && wfLattice(l) && eosOk(l) && isCand(l, segOf(l, P), len(P) + 1)
  ensures tiled(P, 0, l.eosNode.Begin)
  ensures forall i int {P[i]} :: 0 <= i && i < len(P) ==> 0 <= P[i].Begin && P[i].Begin < P[i].End && P[i].End < len(l.endLists) && endsAt(l, P[i].End, P[i])
  proof {
    letv p := segOf(l, P)
    assert[same] forall i int {P[i]} :: 0 <= i && i < len(P) ==> p[i+1] == P[i]
    assert[ends] forall i int {p[i]} :: 1 <= i && i <= len(P) ==> 0 <= p[i+1].Begin && p[i+1].Begin < len(l.endLists) && endsAt(l, p[i+1].Begin, p[i])
    assert[first] endsAt(l, p[1].Begin, p[0])
    assert[last] p[len(P)+1] == l.eosNode
  }
spec func candidateNode(t *JapaneseTokenizer, x *LatticeNode, n int) bool = x != nil && 0 <= x.Begin && x.Begin < x.End && x.End <= n && wfNode(x)
lemma candFit(t *JapaneseTokenizer, n int, x *LatticeNode, e int)
  requires t != nil && t.lattice != nil && t.lexicon != nil && wfSet(t.lexicon) && growing(t, n, n) && 0 < e && e < len(t.lattice.endLists) && endsAt(t.lattice, e, x)
  ensures candidateNode(t, x, n) && x.End == e
  proof { use ownIsWf(t.lexicon, x) }

// the text as the input plugins left it
extern func "gosudachi.InputTextPlugin.Rewrite"(p, builder) (err)
  requires builder != nil && builderOk(builder)
  modifies builder.modifiedRunes, builder.textOffsets, elems(builder.modifiedRunes), elems(builder.textOffsets)
  ensures builderOk(builder)
  ensures base(builder.modifiedRunes) == old(base(builder.modifiedRunes)) || isfresh(builder.modifiedRunes)
  ensures base(builder.textOffsets) == old(base(builder.textOffsets)) || isfresh(builder.textOffsets)
spec func pathSl(t *InputText, path []*LatticeNode) bool =
  (forall i int {path[i]} :: 0 <= i && i < len(path) ==> spanOk(t, path[i]) && wfNode(path[i])) &&
  (forall i int, j int {path[i], path[j]} :: 0 <= i && i < j && j < len(path) ==> path[i].End <= path[j].Begin) &&
  (forall i int, j int {path[i], path[j]} :: 0 <= i && j == i + 1 && j < len(path) ==> path[i].End == path[j].Begin)
spec func slApart(l *Lattice, path []*LatticeNode) bool = forall e int {l.endLists[e]} :: 0 <= e && e < len(l.endLists) ==> base(l.endLists[e]) != base(path)
extern func "gosudachi.PathRewritePlugin.Rewrite"(p, text, ppath, lattice) (err)
  requires text != nil && lattice != nil && wfInput(text) && pathSl(text, *ppath) && candsOk(text, lattice) && slApart(lattice, *ppath)
  modifies *ppath, elems(*ppath)
  ensures err == nil ==> pathSl(text, *ppath) && (old(len(*ppath)) == 0 ? len(*ppath) == 0 : len(*ppath) > 0 && (*ppath)[0].Begin == old((*ppath)[0].Begin) && (*ppath)[len(*ppath)-1].End == old((*ppath)[len(*ppath)-1].End))
  ensures base(*ppath) == old(base(*ppath))
// dumping what it does to a writer changes nothing the tokenizer works with
trusted func (l *Lattice).Dump(output)
  modifies nothing
trusted func (t *JapaneseTokenizer).dumpPath(path)
  modifies nothing
func (t *JapaneseTokenizer).Tokenize(mode, text) (ms, err)
  property C02, C03
  requires wfTokenizer(t) && validStr(text) && t.grammar.CharCategory != nil && wfCat(t.grammar.CharCategory)
  modifies t.lattice.endLists, t.lattice.eosNode, elems(t.lattice.endLists), elems(t.lattice.endLists[e]) for e int : 0 <= e && e < len(t.lattice.endLists)
  hide okUnit, relaxed, wfNode, isCand, runEnd, runBegin
  merge
  at entry { use encLen(runes(text)) }
  at call NewInputTextBuilder after { assert[start] builderOk($result) }
  at call Build after { letv I := $result letv B := inputTextBuilder
    use forall i int, j int {I.offsets[i], I.offsets[j]} :: charMono(I, i, j)
    use charAt(I, 0)
    assert[mono] forall i int, j int {I.offsets[i], I.offsets[j]} :: 0 <= i && i <= j && j <= len(I.Bytea) ==> I.offsets[i] <= I.offsets[j]
    assert[mapped] wfMapped(I)
  }
  loop 1:
    invariant isfresh(inputTextBuilder) && inputTextBuilder != nil && builderOk(inputTextBuilder) && isfresh(inputTextBuilder.modifiedRunes) && isfresh(inputTextBuilder.textOffsets) && inputTextBuilder.OriginalText == text && inputTextBuilder.grammar == t.grammar
  at call GetBestPath after {
    if $result1 == nil {
      letv P := seq($result0)
      use candTiled(t.lattice, P)
      letv R := $result0
      use forall i int {P[i]} :: candFit(t, len(I.Bytea), P[i], P[i].End)
      use forall i int, j int {P[i], P[j]} :: sideBySide(P, 0, len(I.Bytea), i, j)
      assert[same] forall i int {R[i]} :: 0 <= i && i < len(R) ==> R[i] == P[i]
      assert[fit] forall i int {P[i]} :: 0 <= i && i < len(P) ==> candidateNode(t, P[i], len(I.Bytea))
      assert[side] forall i int, j int {P[i], P[j]} :: 0 <= i && i < j && j < len(P) ==> P[i].End <= P[j].Begin
      assert[path] pathSl(I, R)
      assert[apart] slApart(t.lattice, R)
      use forall e int, k int {t.lattice.endLists[e][k]} :: ownIsWf(t.lexicon, t.lattice.endLists[e][k])
      assert[cands] candsOk(I, t.lattice)
    }
  }
  at call splitPath before { assume[the units of a word add up to it] forall i int {path[i]} :: 0 <= i && i < len(path) ==> splitsOk(t.lexicon, path[i], mode) }
  loop 2:
    invariant[used] usedLattice(t.lattice)
    invariant[home] base(t.lattice.endLists) == old(base(t.lattice.endLists)) || isfresh(t.lattice.endLists)
    invariant[path] pathSl(input, path) && candsOk(input, t.lattice) && slApart(t.lattice, path) && isfresh(path) && (len(path) == 0 ? len(input.Bytea) == 0 : path[0].Begin == 0 && path[len(path)-1].End == len(input.Bytea))
  ensures[list] err == nil ==> ms != nil && isfresh(ms) && ms.inputText != nil && wfMapped(ms.inputText) && ms.inputText.OriginalText == text
  ensures[tiles] err == nil ==> tiledMem(ms.path, 0, len(ms.inputText.Bytea))
  ensures[nodes] err == nil ==> (forall i int {ms.path[i]} :: 0 <= i && i < len(ms.path) ==> ms.path[i] != nil)
  ensures[ready] wfTokenizer(t)

// ---- what a morpheme says (C25), and its units (C24)
// a morpheme of a list; its entry, once read, is kept
spec func wfMorpheme(m *Morpheme) bool =
  m.list != nil && 0 <= m.index && m.index < len(m.list.path) && wfNode(m.list.path[m.index]) &&
  (m.wordInfo != nil ==> saysOf(m.wordInfo, m.list.path[m.index]) && seq(m.wordInfo.AUnitSplit) == nA(m.list.path[m.index]) && seq(m.wordInfo.BUnitSplit) == nB(m.list.path[m.index]))
func newMorpheme(list, index) (m)
  property C24, C25
  modifies nothing
  ensures m != nil && isfresh(m) && m.list == list && m.index == index && m.wordInfo == nil
func (l *MorphemeList).Get(index) (m)
  property C24, C25
  modifies nothing
  ensures m != nil && isfresh(m) && m.list == l && m.index == index && m.wordInfo == nil
func (l *MorphemeList).GetWordInfo(index) (wi)
  property C24, C25
  requires 0 <= index && index < len(l.path) && wfNode(l.path[index])
  modifies nothing
  ensures[says] wi != nil && saysOf(wi, l.path[index]) && seq(wi.AUnitSplit) == nA(l.path[index]) && seq(wi.BUnitSplit) == nB(l.path[index])
func (m *Morpheme).GetWordInfo() (wi)
  property C24, C25
  requires wfMorpheme(m)
  modifies m.wordInfo
  ensures[says] wi != nil && saysOf(wi, m.list.path[m.index]) && seq(wi.AUnitSplit) == nA(m.list.path[m.index]) && seq(wi.BUnitSplit) == nB(m.list.path[m.index])
  ensures[kept] wfMorpheme(m)
func (m *Morpheme).DictionaryForm() (s)
  property C25
  requires wfMorpheme(m)
  modifies m.wordInfo
  ensures[form] s == nDic(m.list.path[m.index]) && wfMorpheme(m)
func (m *Morpheme).NormalizedForm() (s)
  property C25
  requires wfMorpheme(m)
  modifies m.wordInfo
  ensures[form] s == nNorm(m.list.path[m.index]) && wfMorpheme(m)
func (m *Morpheme).ReadingForm() (s)
  property C25
  requires wfMorpheme(m)
  modifies m.wordInfo
  ensures[form] s == nRead(m.list.path[m.index]) && wfMorpheme(m)
func (m *Morpheme).IsOOV() (b)
  property C25
  requires wfMorpheme(m)
  modifies nothing
  ensures[oov] b == m.list.path[m.index].IsOov
// the units of one morpheme are those modes A and B put in its place
func (m *Morpheme).Split(mode) (r)
  property C24
  requires wfMorpheme(m) && m.list.path[m.index].Begin <= m.list.path[m.index].End && m.list.lexicon != nil && wfSet(m.list.lexicon)
  requires mode == [65] || mode == [66] ==> splitsOk(m.list.lexicon, m.list.path[m.index], mode)
  modifies m.wordInfo
  hide okUnit, setHead
  ensures[units] let W := unitsOf(m.list.path[m.index], mode) ::
    ((mode == [65] || mode == [66]) && len(W) >= 2 ? len(r.path) == len(W) && (forall q int {r.path[q]} :: 0 <= q && q < len(r.path) ==> isfresh(r.path[q]) && unitNode(r.path[q], m.list.lexicon, W[q]))
      : len(r.path) == 1 && r.path[0] == m.list.path[m.index])
  ensures[tiles] r != nil && r.inputText == m.list.inputText && tiledMem(r.path, m.list.path[m.index].Begin, m.list.path[m.index].End)
func (m *Morpheme).PartOfSpeech() (s)
  property C25
  requires wfMorpheme(m) && m.list.grammar != nil && 0 <= nPos(m.list.path[m.index]) && nPos(m.list.path[m.index]) < len(m.list.grammar.posList)
  modifies m.wordInfo
  ensures[pos] s == m.list.grammar.posList[nPos(m.list.path[m.index])] && wfMorpheme(m)
func (m *Morpheme).GetWordId() (id)
  property C25
  requires wfMorpheme(m)
  modifies nothing
  ensures[id] id == uint32(m.list.path[m.index].wordId)
func (m *Morpheme).GetDictionaryId() (d)
  property C25
  requires wfMorpheme(m)
  modifies nothing
  ensures[dict] d == (m.list.path[m.index].extraWordInfo != nil ? 0-1 : dictOf(m.list.path[m.index].wordId))
func (l *MorphemeList).IsOOV(index) (b)
  property C25
  requires 0 <= index && index < len(l.path) && l.path[index] != nil
  modifies nothing
  ensures b == l.path[index].IsOov
func (l *MorphemeList).GetWordId(index) (id)
  property C25
  requires 0 <= index && index < len(l.path) && l.path[index] != nil
  modifies nothing
  ensures id == uint32(l.path[index].wordId)
func (l *MorphemeList).GetDictionaryId(index) (d)
  property C25
  requires 0 <= index && index < len(l.path) && wfNode(l.path[index])
  modifies nothing
  ensures d == (l.path[index].extraWordInfo != nil ? 0-1 : dictOf(l.path[index].wordId))
func (ln *LatticeNode).IsOOV() (b)
  property C25
  modifies nothing
  ensures b == ln.IsOov
func (ln *LatticeNode).GetWordId() (id)
  property C25
  modifies nothing
  ensures id == uint32(ln.wordId)
func (ln *LatticeNode).GetDictionaryId() (d)
  property C25
  requires wfNode(ln)
  modifies nothing
  ensures d == (ln.extraWordInfo != nil ? 0-1 : dictOf(ln.wordId))
