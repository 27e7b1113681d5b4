package dartsclone
properties C09

// ---- the units of a double array
spec rec func uLabel(u int) int decreases 0 = band(u, 2147483903)
spec rec func uLeaf(u int) bool decreases 0 = band(shr(u, 8), 1) == 1
spec rec func uValue(u int) int decreases 0 = band(u, 2147483647)
spec rec func uOffset(u int) int decreases 0 = uint32(shl(shr(u, 10), shr(band(u, 512), 6)))
lemma uBounds(u int)
  requires 0 <= u && u <= 4294967295
  ensures 0 <= uValue(u) && uValue(u) <= 2147483647 && 0 <= uOffset(u) && uOffset(u) <= 4294967295 && 0 <= uLabel(u)
func (u daunit).hasLeaf() (res)
  ensures res == uLeaf(u)
func (u daunit).value() (res)
  ensures res == uValue(u) && 0 <= res && res <= 2147483647
func (u daunit).label() (res)
  ensures res == uLabel(u)
func (u daunit).offset() (res)
  ensures res == uOffset(u) && 0 <= res && res <= 4294967295

// where the children of node p are found: the child for byte k is at childBase ^ k
spec rec func childBase(a []uint32, p int) int decreases 0 = bxor(p, uOffset(a[p]))
spec rec func inBase(a []uint32, x int) bool decreases 0 =
  0 <= x && x <= 4294967295 && x < len(a) && (forall k int {bxor(x, k)} :: 0 <= k && k < 256 ==> 0 <= bxor(x, k) && bxor(x, k) < len(a))
// a well-formed trie: the root and every unit that is not a value unit has all its child positions inside the array
spec func inner(a []uint32, p int) bool = p == 0 || uLabel(a[p]) < 256
spec func wfTrie(a []uint32) bool =
  len(a) > 0 && (forall p int {a[p]} :: 0 <= p && p < len(a) && inner(a, p) ==> inBase(a, childBase(a, p)))

// the node reached from node n by the bytes K[b..e), or -1
spec rec func walk(a []uint32, n int, K seq[int], b int, e int) int decreases e - b =
  e <= b ? n : (walk(a, n, K, b, e-1) < 0 ? 0-1 :
    (uLabel(a[bxor(childBase(a, walk(a, n, K, b, e-1)), K[e-1])]) == K[e-1] ? bxor(childBase(a, walk(a, n, K, b, e-1)), K[e-1]) : 0-1))
// the value stored at node p, or -1
spec rec func nodeVal(a []uint32, p int) int decreases 0 = p < 0 ? 0-1 : (uLeaf(a[p]) ? uValue(a[childBase(a, p)]) : 0-1)
// the value stored for the key K[b..e), or -1
spec func keyVal(a []uint32, K seq[int], b int, e int) int = nodeVal(a, walk(a, 0, K, b, e))

spec func isBytes(K seq[int]) bool = forall i int {K[i]} :: 0 <= i && i < len(K) ==> 0 <= K[i] && K[i] <= 255

// a node that is reached is inside the array and an inner unit
lemma walkIn(a []uint32, n int, K seq[int], b int, e int)
  requires wfTrie(a) && isBytes(K) && 0 <= b && b <= e && e <= len(K) && 0 <= n && n < len(a) && inner(a, n)
  ensures walk(a, n, K, b, e) >= 0 ==> walk(a, n, K, b, e) < len(a) && inner(a, walk(a, n, K, b, e)) && inBase(a, childBase(a, walk(a, n, K, b, e)))
  decreases e - b
  proof { if b < e { use walkIn(a, n, K, b, e-1) } }
lemma walkStep(a []uint32, n int, K seq[int], b int, e int, p int, cb int, q int)
  requires b <= e && 0 <= p && walk(a, n, K, b, e) == p && childBase(a, p) == cb && q == bxor(cb, K[e])
  ensures walk(a, n, K, b, e+1) == (uLabel(a[q]) == K[e] ? q : 0-1)
lemma valAt(a []uint32, p int, cb int)
  requires 0 <= p && childBase(a, p) == cb
  ensures nodeVal(a, p) == (uLeaf(a[p]) ? uValue(a[cb]) : 0-1)
// once lost, lost for good
lemma walkDead(a []uint32, n int, K seq[int], b int, m int, e int)
  requires b <= m && m <= e && walk(a, n, K, b, m) < 0 && 0 <= n
  ensures walk(a, n, K, b, e) < 0
  decreases e - m
  proof { if m < e { use walkDead(a, n, K, b, m, e-1) } }
// going on from the node of a first piece is walking the whole
lemma walkSplit(a []uint32, n int, K seq[int], b int, m int, e int)
  requires 0 <= n && b <= m && m <= e && walk(a, n, K, b, m) >= 0
  ensures walk(a, walk(a, n, K, b, m), K, m, e) == walk(a, n, K, b, e)
  decreases e - m
  proof { if m < e { use walkSplit(a, n, K, b, m, e-1) } }

// only the bytes matter, not the buffer they are in
lemma walkShift(a []uint32, n int, K seq[int], b int, e int, J seq[int], c int)
  requires 0 <= b && b <= e && e <= len(K) && 0 <= c && c + e - b <= len(J) && (forall i int {K[b+i]} :: 0 <= i && i < e - b ==> K[b+i] == J[c+i])
  ensures walk(a, n, K, b, e) == walk(a, n, J, c, c + e - b)
  decreases e - b
  proof { if b < e { use walkShift(a, n, K, b, e-1, J, c)  assert K[b+(e-1-b)] == J[c+(e-1-b)] } }

// ---- the stored keys among the prefixes of K[b..]: values and ends, shortest first, looking at ends up to e
spec rec func preVals(a []uint32, K seq[int], b int, e int) seq[int] decreases e - b =
  e <= b ? seq(K, 0, 0) : (keyVal(a, K, b, e) >= 0 ? preVals(a, K, b, e-1) ++ [keyVal(a, K, b, e)] : preVals(a, K, b, e-1))
spec rec func preEnds(a []uint32, K seq[int], b int, e int) seq[int] decreases e - b =
  e <= b ? seq(K, 0, 0) : (keyVal(a, K, b, e) >= 0 ? preEnds(a, K, b, e-1) ++ [e] : preEnds(a, K, b, e-1))
lemma preDead(a []uint32, K seq[int], b int, m int, e int)
  requires b <= m && m <= e && walk(a, 0, K, b, m) < 0
  ensures preVals(a, K, b, e) == preVals(a, K, b, m) && preEnds(a, K, b, e) == preEnds(a, K, b, m)
  decreases e - m
  proof { if m < e { use preDead(a, K, b, m, e-1)  use walkDead(a, 0, K, b, m, e) } }
lemma preLens(a []uint32, K seq[int], b int, e int)
  requires 0 <= b && 0 <= len(K)
  ensures len(preVals(a, K, b, e)) == len(preEnds(a, K, b, e))
  decreases e - b
  proof { if b < e { use preLens(a, K, b, e-1) } }

func (da *DoubleArray).ExactMatchSearch(key) (v, n)
  hide uOffset,uLabel,uLeaf,uValue
  requires wfTrie(da.array)
  modifies nothing
  loop 1:
    invariant[node] nodePos == walk(da.array, 0, seq(key), 0, $i) && 0 <= nodePos && nodePos < len(da.array) && u == da.array[nodePos] && inner(da.array, nodePos)
  at loop 1 begin { letv p0 := nodePos  letv cb := bxor(nodePos, uOffset(u))  use walkIn(da.array, 0, seq(key), 0, $i)
    assert[cb] childBase(da.array, nodePos) == cb
    if $i < len(key) { assert[q] bxor(cb, key[$i]) == bxor(nodePos, bxor(uOffset(u), key[$i]))
    letv q := bxor(cb, key[$i])  assert[in] 0 <= q && q < len(da.array)
    use walkStep(da.array, 0, seq(key), 0, $i, p0, cb, q)
    assert[step] walk(da.array, 0, seq(key), 0, $i+1) == (uLabel(da.array[q]) == key[$i] ? q : 0-1) } }
  at loop 1 exit {
    if $i < len(key) { assert[lost] walk(da.array, 0, seq(key), 0, $i+1) == 0-1  use walkDead(da.array, 0, seq(key), 0, $i + 1, len(key)) }
    else { use walkIn(da.array, 0, seq(key), 0, $i)  assert[cbx] childBase(da.array, nodePos) == bxor(nodePos, uOffset(u)) use valAt(da.array, nodePos, bxor(nodePos, uOffset(u))) assert[end] keyVal(da.array, seq(key), 0, len(key)) == nodeVal(da.array, nodePos) } }
  ensures[value] v == keyVal(da.array, seq(key), 0, len(key))
  ensures[length] n == (v >= 0 ? len(key) : 0)

spec func pairsAre(r [][2]int, V seq[int], E seq[int]) bool =
  len(r) <= len(V) && (forall j int {r[j]} :: 0 <= j && j < len(r) ==> r[j][0] == V[j]) && (forall j int {r[j]} :: 0 <= j && j < len(r) ==> r[j][1] == E[j])

func (da *DoubleArray).CommonPrefixSearch(key, offset, maxNumResult) (res)
  hide uOffset,uLabel,uLeaf,uValue
  requires wfTrie(da.array) && 0 <= offset
  modifies nothing
  loop 1:
    invariant[range] offset <= i && (offset <= len(key) ==> i <= len(key)) && (offset > len(key) ==> i == offset)
    invariant[node] offset <= len(key) ==> walk(da.array, 0, seq(key), offset, i) >= 0 && nodePos == childBase(da.array, walk(da.array, 0, seq(key), offset, i)) && inBase(da.array, nodePos)
    invariant[fresh] isfresh(result) && result != nil
    invariant[count] len(result) == min(max(0, maxNumResult), len(preVals(da.array, seq(key), offset, i)))
    invariant[pairs] pairsAre(result, preVals(da.array, seq(key), offset, i), preEnds(da.array, seq(key), offset, i))
  at loop 1 begin { if i < len(key) {
    letv w := walk(da.array, 0, seq(key), offset, i)
    letv q := bxor(nodePos, key[i])
    assert[in] 0 <= q && q < len(da.array)
    use walkStep(da.array, 0, seq(key), offset, i, w, nodePos, q)
    use walkIn(da.array, 0, seq(key), offset, i+1)
    assert[step] walk(da.array, 0, seq(key), offset, i+1) == (uLabel(da.array[q]) == key[i] ? q : 0-1)
    use valAt(da.array, q, childBase(da.array, q))
    use preLens(da.array, seq(key), offset, i)
    letv V0 := preVals(da.array, seq(key), offset, i)  letv E0 := preEnds(da.array, seq(key), offset, i)
    letv V1 := preVals(da.array, seq(key), offset, i+1)  letv E1 := preEnds(da.array, seq(key), offset, i+1)
    letv kv := keyVal(da.array, seq(key), offset, i+1)
    assert[V1] V1 == (kv >= 0 ? V0 ++ [kv] : V0)
    assert[E1] E1 == (kv >= 0 ? E0 ++ [i+1] : E0)
    assert[Vp] forall j int {V1[j]} :: 0 <= j && j < len(V0) ==> V1[j] == V0[j]
    assert[Ep] forall j int {E1[j]} :: 0 <= j && j < len(E0) ==> E1[j] == E0[j]
    assert[val] uLabel(da.array[q]) == key[i] ==> keyVal(da.array, seq(key), offset, i+1) == (uLeaf(da.array[q]) ? uValue(da.array[bxor(q, uOffset(da.array[q]))]) : 0-1)
    } }
  at loop 1 exit {
    if i < len(key) { use preDead(da.array, seq(key), offset, i+1, len(key)) } }
  ensures[count] len(res) == min(max(0, maxNumResult), len(preVals(da.array, seq(key), offset, len(key))))
  ensures[pairs] pairsAre(res, preVals(da.array, seq(key), offset, len(key)), preEnds(da.array, seq(key), offset, len(key)))
  ensures[fresh] res != nil && isfresh(res)

// ---- the iterator: what it has yet to deliver from base position x on, at key offset o
spec rec func remVals(a []uint32, K seq[int], x int, o int) seq[int] decreases len(K) - o =
  o >= len(K) || o < 0 ? seq(K, 0, 0) : (uLabel(a[bxor(x, K[o])]) != K[o] ? seq(K, 0, 0) :
    (uLeaf(a[bxor(x, K[o])]) ? [uValue(a[childBase(a, bxor(x, K[o]))])] ++ remVals(a, K, childBase(a, bxor(x, K[o])), o+1) : remVals(a, K, childBase(a, bxor(x, K[o])), o+1)))
spec rec func remEnds(a []uint32, K seq[int], x int, o int) seq[int] decreases len(K) - o =
  o >= len(K) || o < 0 ? seq(K, 0, 0) : (uLabel(a[bxor(x, K[o])]) != K[o] ? seq(K, 0, 0) :
    (uLeaf(a[bxor(x, K[o])]) ? [o+1] ++ remEnds(a, K, childBase(a, bxor(x, K[o])), o+1) : remEnds(a, K, childBase(a, bxor(x, K[o])), o+1)))
lemma remLens(a []uint32, K seq[int], x int, o int)
  hide uOffset,uLabel,uLeaf,uValue
  ensures len(remVals(a, K, x, o)) == len(remEnds(a, K, x, o))
  decreases len(K) - o
  proof { if 0 <= o && o < len(K) { use remLens(a, K, childBase(a, bxor(x, K[o])), o+1) } }
// what the iterator delivers is what the eager search and the lookup of every prefix give
lemma remIsPre(a []uint32, K seq[int], b int, o int)
  hide uOffset,uLabel,uLeaf,uValue
  requires wfTrie(a) && isBytes(K) && 0 <= b && b <= o && o <= len(K) && walk(a, 0, K, b, o) >= 0
  ensures preVals(a, K, b, len(K)) == preVals(a, K, b, o) ++ remVals(a, K, childBase(a, walk(a, 0, K, b, o)), o)
  ensures preEnds(a, K, b, len(K)) == preEnds(a, K, b, o) ++ remEnds(a, K, childBase(a, walk(a, 0, K, b, o)), o)
  decreases len(K) - o
  proof { if o < len(K) {
    letv p := walk(a, 0, K, b, o)  letv x := childBase(a, p)  letv q := bxor(x, K[o])
    use walkStep(a, 0, K, b, o, p, x, q)
    use walkIn(a, 0, K, b, o)  assert q >= 0
    letv V := preVals(a, K, b, o)  letv E := preEnds(a, K, b, o)  letv RV := remVals(a, K, x, o)  letv RE := remEnds(a, K, x, o)
    letv FV := preVals(a, K, b, len(K))  letv FE := preEnds(a, K, b, len(K))
    if walk(a, 0, K, b, o+1) < 0 { use preDead(a, K, b, o+1, len(K))
      assert preVals(a, K, b, o+1) == V && preEnds(a, K, b, o+1) == E
      assert RV == seq(K, 0, 0) && RE == seq(K, 0, 0)
      assert len(RV) == 0 && len(RE) == 0
      assert FV == V ++ RV && FE == E ++ RE
    } else {
      letv x2 := childBase(a, q)
      use remIsPre(a, K, b, o+1)  use valAt(a, q, x2)
      letv rv := remVals(a, K, x2, o+1)  letv re := remEnds(a, K, x2, o+1)
      if uLeaf(a[q]) {
        use uBounds(a[x2])
        assert preVals(a, K, b, o+1) == V ++ [uValue(a[x2])]  assert RV == [uValue(a[x2])] ++ rv
        assert preEnds(a, K, b, o+1) == E ++ [o+1]  assert RE == [o+1] ++ re
        use concatAssoc(V, [uValue(a[x2])], rv)
        use concatAssoc(E, [o+1], re)
        assert FV == V ++ RV && FE == E ++ RE
      } else {
        assert preVals(a, K, b, o+1) == V && preEnds(a, K, b, o+1) == E
        assert RV == rv && RE == re
        assert FV == V ++ RV && FE == E ++ RE
      }
    } } else { assert len(remVals(a, K, childBase(a, walk(a, 0, K, b, o)), o)) == 0 && len(remEnds(a, K, childBase(a, walk(a, 0, K, b, o)), o)) == 0 } }

spec func itVals(it *Iterator) seq[int] = remVals(it.array, seq(it.key), it.nodePos, it.offset)
spec func itEnds(it *Iterator) seq[int] = remEnds(it.array, seq(it.key), it.nodePos, it.offset)
spec func wfIter(it *Iterator) bool =
  wfTrie(it.array) && 0 <= it.offset && (it.offset < len(it.key) ==> inBase(it.array, it.nodePos)) && -1 <= it.rvalue && (it.err != nil ==> it.rvalue == -1 && len(itVals(it)) == 0)
// what is left, the element looked at ahead included
spec func leftVals(it *Iterator) seq[int] = it.rvalue != -1 ? [it.rvalue] ++ itVals(it) : itVals(it)
spec func leftEnds(it *Iterator) seq[int] = it.rvalue != -1 ? [it.roffset] ++ itEnds(it) : itEnds(it)

func newIterator(array, key, offset) (it)
  hide uOffset,uLabel,uLeaf,uValue
  requires wfTrie(array) && 0 <= offset
  modifies nothing
  at return { assert childBase(array, 0) == bxor(0, uOffset(array[0]))
    if offset <= len(key) { use remIsPre(array, seq(key), offset, offset) } }
  ensures[wf] it != nil && isfresh(it) && wfIter(it) && it.array == array && it.key == key && it.err == nil
  ensures[vals] offset <= len(key) ==> leftVals(it) == preVals(array, seq(key), offset, len(key))
  ensures[ends] offset <= len(key) ==> leftEnds(it) == preEnds(array, seq(key), offset, len(key))

func (da *DoubleArray).CommonPrefixSearchItr(key, offset) (it)
  requires wfTrie(da.array) && 0 <= offset
  modifies nothing
  ensures[wf] it != nil && isfresh(it) && wfIter(it) && it.array == da.array && it.key == key && it.err == nil
  ensures[vals] offset <= len(key) ==> leftVals(it) == preVals(da.array, seq(key), offset, len(key))
  ensures[ends] offset <= len(key) ==> leftEnds(it) == preEnds(da.array, seq(key), offset, len(key))

func (it *Iterator).getNext() (v, e)
  hide uOffset,uLabel,uLeaf,uValue
  requires wfIter(it)
  modifies it.offset, it.nodePos
  loop 1:
    invariant 0 <= it.offset && (it.offset < len(it.key) ==> inBase(it.array, it.nodePos))
    invariant itVals(it) == old(itVals(it)) && itEnds(it) == old(itEnds(it))
  at loop 1 begin { if it.offset < len(it.key) {
    letv x := it.nodePos  letv o := it.offset  letv q := bxor(x, it.key[o])
    assert[in] 0 <= q && q < len(it.array)
    letv RV := remVals(it.array, seq(it.key), x, o)  letv RE := remEnds(it.array, seq(it.key), x, o)
    letv x2 := childBase(it.array, q)
    assert[x2] x2 == bxor(q, uOffset(it.array[q]))
    letv RV2 := remVals(it.array, seq(it.key), x2, o+1)  letv RE2 := remEnds(it.array, seq(it.key), x2, o+1)
    assert[rv] RV == (uLabel(it.array[q]) != it.key[o] ? seq(seq(it.key), 0, 0) : (uLeaf(it.array[q]) ? [uValue(it.array[x2])] ++ RV2 : RV2))
    assert[re] RE == (uLabel(it.array[q]) != it.key[o] ? seq(seq(it.key), 0, 0) : (uLeaf(it.array[q]) ? [o+1] ++ RE2 : RE2))
    assert[lens] len(seq(seq(it.key), 0, 0)) == 0
    } }
  ensures[wf] 0 <= it.offset && (it.offset < len(it.key) ==> inBase(it.array, it.nodePos))
  ensures[none] len(old(itVals(it))) == 0 ==> v == -1 && len(itVals(it)) == 0 && len(itEnds(it)) == 0
  ensures[some] len(old(itVals(it))) > 0 ==> v >= 0 && old(itVals(it)) == [v] ++ itVals(it) && old(itEnds(it)) == [e] ++ itEnds(it)

func (it *Iterator).Next() (more)
  requires wfIter(it)
  modifies it.offset, it.nodePos, it.rvalue, it.roffset
  at entry { use remLens(it.array, seq(it.key), it.nodePos, it.offset) }
  ensures[wf] wfIter(it)
  ensures[peek] leftVals(it) == old(leftVals(it)) && leftEnds(it) == old(leftEnds(it))
  ensures[more] more == (len(leftVals(it)) > 0) && more == (it.rvalue != -1)

func (it *Iterator).Get() (v, e)
  requires wfIter(it)
  modifies it.offset, it.nodePos, it.rvalue, it.roffset, it.err
  ensures[wf] wfIter(it)
  ensures[next] len(old(leftVals(it))) > 0 ==> old(leftVals(it)) == [v] ++ leftVals(it) && old(leftEnds(it)) == [e] ++ leftEnds(it) && it.err == old(it.err)
  ensures[none] len(old(leftVals(it))) == 0 ==> v == -1 && it.err != nil

func (it *Iterator).Err() (err)
  modifies nothing
  ensures err == it.err

func (da *DoubleArray).Traverse(key, offset, length, nodePosition) (res)
  hide uOffset,uLabel,uLeaf,uValue
  requires wfTrie(da.array) && 0 <= offset && length <= len(key) && 0 <= nodePosition && nodePosition < len(da.array) && nodePosition <= 4294967295 && inner(da.array, nodePosition)
  modifies nothing
  loop 1:
    invariant offset <= i && (offset <= length ==> i <= length) && (offset > length ==> i == offset)
    invariant id == walk(da.array, nodePosition, seq(key), offset, i) && nodePos == id && u == da.array[id] && 0 <= id && id < len(da.array) && inner(da.array, id)
  at loop 1 begin { if i <= length { use walkIn(da.array, nodePosition, seq(key), offset, i) }  letv p0 := id  letv cb := bxor(id, uOffset(u))
    assert[cb] childBase(da.array, id) == cb
    if i < length { assert[q] bxor(cb, key[i]) == bxor(id, bxor(uOffset(u), key[i]))
      letv q := bxor(cb, key[i])  assert[in] 0 <= q && q < len(da.array)
      use walkStep(da.array, nodePosition, seq(key), offset, i, p0, cb, q)
      assert[step] walk(da.array, nodePosition, seq(key), offset, i+1) == (uLabel(da.array[q]) == key[i] ? q : 0-1) } }
  at loop 1 exit {
    if i < length { assert[lost] walk(da.array, nodePosition, seq(key), offset, i+1) == 0-1  use walkDead(da.array, nodePosition, seq(key), offset, i + 1, length) }
    else { if i <= length { use walkIn(da.array, nodePosition, seq(key), offset, i) }  assert[cbx] childBase(da.array, id) == bxor(id, uOffset(u)) use valAt(da.array, id, bxor(id, uOffset(u))) } }
  ensures[fresh] res != nil && isfresh(res)
  ensures[found] offset <= length && walk(da.array, nodePosition, seq(key), offset, length) >= 0 ==> res.NodePosition == walk(da.array, nodePosition, seq(key), offset, length) && res.Offset == length && res.Result == nodeVal(da.array, res.NodePosition)
  ensures[lost] offset <= length && walk(da.array, nodePosition, seq(key), offset, length) < 0 ==> res.Result == -2 && offset <= res.Offset && res.Offset < length && walk(da.array, nodePosition, seq(key), offset, res.Offset) == res.NodePosition && walk(da.array, nodePosition, seq(key), offset, res.Offset+1) < 0
