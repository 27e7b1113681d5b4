// What a lookup finds are words of the dictionaries, ending behind where it began (C02).
package dictionary
properties C02

spec func idsBelow(S seq[int], n int) bool = forall i int {S[i]} :: 0 <= i && i < len(S) ==> 0 <= S[i] && S[i] < n
spec func endsIn(S seq[int], lo int, hi int) bool = forall i int {S[i]} :: 0 <= i && i < len(S) ==> lo < S[i] && S[i] <= hi
// the list at address v names words among the first n
spec rec func listIn(b seq[int], v int, n int) bool decreases 0 = arrOk(b, v) && b[v] > 0 && idsBelow(arrVal(b, v), n)
spec func listsIn(b seq[int], V seq[int], n int) bool = forall i int {V[i]} :: 0 <= i && i < len(V) ==> listIn(b, V[i], n)
spec func listedOk(a []uint32, b seq[int], n int) bool = forall p int {nodeVal(a, p)} :: 0 <= p && p < len(a) && nodeVal(a, p) >= 0 ==> listIn(b, nodeVal(a, p), n)
lemma preIn(a []uint32, b seq[int], K seq[int], o int, e int, n int)
  requires wfTrie(a) && listedOk(a, b, n) && isBytes(K) && 0 <= o && e <= len(K)
  ensures listsIn(b, preVals(a, K, o, e), n)
  decreases e - o
  hide listIn
  proof { if o < e { use preIn(a, b, K, o, e-1, n) use walkIn(a, 0, K, o, e) letv V := preVals(a, K, o, e-1) letv kv := keyVal(a, K, o, e) letv W := preVals(a, K, o, e)
    if kv >= 0 { assert[in] listIn(b, kv, n) assert[more] W == V ++ [kv] } else { assert[same] W == V } } }
lemma preEndsIn(a []uint32, K seq[int], o int, e int)
  requires 0 <= o && e <= len(K)
  ensures endsIn(preEnds(a, K, o, e), o, e)
  decreases e - o
  proof { if o < e { use preEndsIn(a, K, o, e-1) } }
lemma idsOfIn(b seq[int], V seq[int], n int)
  requires listsIn(b, V, n)
  ensures idsBelow(idsOf(b, V), n)
  decreases len(V)
  proof { if len(V) > 0 { use idsOfIn(b, seq(V, 1, len(V)), n) } }
lemma endsOfIn(b seq[int], V seq[int], E seq[int], lo int, hi int)
  requires listsOk(b, V) && endsIn(E, lo, hi)
  ensures endsIn(endsOf(b, V, E), lo, hi)
  decreases len(V)
  proof { if len(V) > 0 && len(E) > 0 { use endsOfIn(b, seq(V, 1, len(V)), seq(E, 1, len(E)), lo, hi) use timesLen(E[0], b[V[0]]) } }

spec rec func okUnit(s *LexiconSet, id int) bool decreases 0 = inSet13(s, id)
spec func okUnits(s *LexiconSet, S seq[int]) bool = forall i int {S[i]} :: 0 <= i && i < len(S) ==> okUnit(s, S[i])
lemma idsInIn(s *LexiconSet, d int, V seq[int])
  requires wfSet(s) && 0 <= d && d < len(s.lexicons) && idsBelow(V, s.lexicons[d].wordParams.size)
  ensures okUnits(s, idsIn(d, V)) && len(idsIn(d, V)) == len(V)
  decreases len(V)
  proof { if len(V) > 0 { use idsInIn(s, d, seq(V, 1, len(V))) use idRound(d, V[0]) assert[first] okUnit(s, idIn(d, V[0])) } }
spec func wfListed(s *LexiconSet) bool = forall d int {s.lexicons[d]} :: 0 <= d && d < len(s.lexicons) ==>
  listedOk(s.lexicons[d].trie.array, seq(s.lexicons[d].wordIdT.bytebuffer), s.lexicons[d].wordParams.size)
lemma oneIn(s *LexiconSet, d int, K seq[int], o int)
  requires wfSet(s) && wfListed(s) && isBytes(K) && 0 <= o && o <= len(K) && 0 <= d && d < len(s.lexicons)
  ensures okUnits(s, idsIn(d, matchIds(s.lexicons[d], K, o))) && endsIn(matchEnds(s.lexicons[d], K, o), o, len(K)) && len(idsIn(d, matchIds(s.lexicons[d], K, o))) == len(matchEnds(s.lexicons[d], K, o))
  proof {
    letv x := s.lexicons[d]
    use preIn(x.trie.array, seq(x.wordIdT.bytebuffer), K, o, len(K), x.wordParams.size)
    use preValsOk(x.trie.array, seq(x.wordIdT.bytebuffer), K, o, len(K))
    use preLens(x.trie.array, K, o, len(K))
    use idsEndsLen(seq(x.wordIdT.bytebuffer), preVals(x.trie.array, K, o, len(K)), preEnds(x.trie.array, K, o, len(K)))
    use preEndsIn(x.trie.array, K, o, len(K))
    letv V := preVals(x.trie.array, K, o, len(K))
    use idsOfIn(seq(x.wordIdT.bytebuffer), V, x.wordParams.size)
    assert[below] idsBelow(matchIds(x, K, o), x.wordParams.size)
    use idsInIn(s, d, matchIds(x, K, o))
    use endsOfIn(seq(x.wordIdT.bytebuffer), V, preEnds(x.trie.array, K, o, len(K)), o, len(K))
  }
lemma restIn(s *LexiconSet, d int, K seq[int], o int)
  requires wfSet(s) && wfListed(s) && isBytes(K) && 0 <= o && o <= len(K) && 0 <= d && d < len(s.lexicons)
  ensures okUnits(s, restIds(seq(s.lexicons), d, K, o)) && endsIn(restEnds(seq(s.lexicons), d, K, o), o, len(K)) && len(restIds(seq(s.lexicons), d, K, o)) == len(restEnds(seq(s.lexicons), d, K, o))
  decreases d <= 0 ? 0 : len(s.lexicons) - d + 1
  hide okUnit
  proof { if d > 0 { letv e := nextDict(d, len(s.lexicons)) use oneIn(s, e, K, o) use restIn(s, e, K, o) assert[lex] seq(s.lexicons)[e] == s.lexicons[e]
    letv A := idsIn(e, matchIds(s.lexicons[e], K, o)) letv R := restIds(seq(s.lexicons), e, K, o) letv B := matchEnds(s.lexicons[e], K, o) letv S := restEnds(seq(s.lexicons), e, K, o)
    if d < len(s.lexicons) { assert[ids] restIds(seq(s.lexicons), d, K, o) == A ++ R assert[ends] restEnds(seq(s.lexicons), d, K, o) == B ++ S }
  } }
// everything a lookup finds
lemma foundIn(s *LexiconSet, K seq[int], o int)
  requires wfSet(s) && wfListed(s) && isBytes(K) && 0 <= o && o <= len(K)
  ensures okUnits(s, allIds(seq(s.lexicons), K, o))
  ensures endsIn(allEnds(seq(s.lexicons), K, o), o, len(K))
  ensures len(allIds(seq(s.lexicons), K, o)) == len(allEnds(seq(s.lexicons), K, o))
  proof { letv d := firstDict(len(s.lexicons)) use oneIn(s, d, K, o) use restIn(s, d, K, o) assert[lex] seq(s.lexicons)[d] == s.lexicons[d] }
lemma okUnitIn(s *LexiconSet, id int)
  requires okUnit(s, id)
  ensures inSet13(s, id)
