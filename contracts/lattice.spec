package gosudachi
properties C01

spec func conn(l *Lattice, a *LatticeNode, b *LatticeNode) int = costOf(l.grammar, a.rightId, b.leftId)
spec func usable(l *Lattice, a *LatticeNode, b *LatticeNode) bool = a.isConnectedToBOS && conn(l, a, b) != 32767
// connection ids the table has
spec func nodeIds(l *Lattice, n *LatticeNode) bool =
  0 <= n.leftId && n.leftId < l.grammar.rightIdSize && 0 <= n.rightId && n.rightId < l.grammar.leftIdSize
// a is one of the nodes ending at position b
spec func endsAt(l *Lattice, b int, a *LatticeNode) bool = exists j int {l.endLists[b][j]} :: 0 <= j && j < len(l.endLists[b]) && l.endLists[b][j] == a

// n is relaxed over all nodes that end where it begins: connected iff one of them can precede it, and then its total is the least
spec rec func relaxed(l *Lattice, n *LatticeNode) bool decreases 0 =
  (n.isConnectedToBOS ==> n.bestPreviousNode != nil && endsAt(l, n.Begin, n.bestPreviousNode) && usable(l, n.bestPreviousNode, n) &&
       n.totalCost == n.bestPreviousNode.totalCost + conn(l, n.bestPreviousNode, n) + n.cost) &&
  (forall j int {l.endLists[n.Begin][j]} :: 0 <= j && j < len(l.endLists[n.Begin]) && usable(l, l.endLists[n.Begin][j], n) ==>
       n.isConnectedToBOS && n.totalCost <= l.endLists[n.Begin][j].totalCost + conn(l, l.endLists[n.Begin][j], n) + n.cost)

spec func wfGram(l *Lattice) bool = l.grammar != nil && wfGrammar(l.grammar) && l.grammar.leftIdSize >= 1 && l.grammar.rightIdSize >= 1
spec func wfBos(l *Lattice) bool = len(l.endLists) >= 1 && len(l.endLists[0]) == 1 && l.endLists[0][0] != nil &&
  l.endLists[0][0].isConnectedToBOS && l.endLists[0][0].totalCost == 0 && l.endLists[0][0].Begin == 0 && l.endLists[0][0].End == 0 && allocated(l.endLists[0][0])
spec func wfNodes(l *Lattice) bool =
  forall e int, k int {l.endLists[e][k]} :: 0 <= e && e < len(l.endLists) && 0 <= k && k < len(l.endLists[e]) ==>
    l.endLists[e][k] != nil && nodeIds(l, l.endLists[e][k]) && l.endLists[e][k].End == e && 0 <= l.endLists[e][k].Begin &&
    l.endLists[e][k] != l.eosNode && allocated(l.endLists[e][k]) && (e > 0 ==> l.endLists[e][k].Begin < e)
spec func wfRelaxed(l *Lattice) bool =
  forall e int, k int {relaxed(l, l.endLists[e][k])} :: 0 < e && e < len(l.endLists) && 0 <= k && k < len(l.endLists[e]) ==> relaxed(l, l.endLists[e][k])
spec func wfBases(l *Lattice) bool = (forall e int {l.endLists[e]} :: 0 <= e && e < len(l.endLists) ==> allocated(l.endLists[e])) &&
  forall e int, f int {l.endLists[e], l.endLists[f]} :: 0 <= e && e < f && f < len(l.endLists) && base(l.endLists[e]) == base(l.endLists[f]) ==> base(l.endLists[e]) == nil
spec func wfLattice(l *Lattice) bool = wfGram(l) && wfBos(l) && wfNodes(l) && wfRelaxed(l) && wfBases(l)

func NewLattice(grammar) (l)
  requires grammar != nil && wfGrammar(grammar) && grammar.leftIdSize >= 1 && grammar.rightIdSize >= 1
  requires len(dictionary.BosParameter) == 3 && (forall i int {dictionary.BosParameter[i]} :: 0 <= i && i < 3 ==> dictionary.BosParameter[i] == 0)
  modifies nothing
  ensures l != nil && isfresh(l) && l.grammar == grammar && len(l.endLists) == 1 && l.eosNode == nil && l.eosParams == dictionary.EosParameter
  ensures wfLattice(l)

func (l *Lattice).HasPreviousNode(index) (res)
  requires 0 <= index && index < len(l.endLists)
  modifies nothing
  ensures res == (len(l.endLists[index]) > 0)

func (l *Lattice).connectNode(rNode)
  requires rNode != nil && wfGram(l) && nodeIds(l, rNode)
  requires 0 <= rNode.Begin && rNode.Begin < len(l.endLists)
  requires forall j int {l.endLists[rNode.Begin][j]} :: 0 <= j && j < len(l.endLists[rNode.Begin]) ==>
     l.endLists[rNode.Begin][j] != nil && l.endLists[rNode.Begin][j] != rNode && nodeIds(l, l.endLists[rNode.Begin][j])
  modifies rNode.totalCost, rNode.bestPreviousNode, rNode.isConnectedToBOS
  loop 1:
    invariant rNode.bestPreviousNode != nil ==> endsAt(l, rNode.Begin, rNode.bestPreviousNode) && usable(l, rNode.bestPreviousNode, rNode) &&
       rNode.totalCost == rNode.bestPreviousNode.totalCost + conn(l, rNode.bestPreviousNode, rNode)
    invariant rNode.bestPreviousNode == nil ==> rNode.totalCost == 0
    invariant forall j int {l.endLists[rNode.Begin][j]} :: 0 <= j && j < $i && usable(l, l.endLists[rNode.Begin][j], rNode) ==>
       rNode.bestPreviousNode != nil && rNode.totalCost <= l.endLists[rNode.Begin][j].totalCost + conn(l, l.endLists[rNode.Begin][j], rNode)
  ensures[relaxed] relaxed(l, rNode)

// node may be put between begin and end now: nothing in the lattice begins at end
spec func canInsert(l *Lattice, begin int, end int, node *LatticeNode) bool =
  node != nil && node != l.eosNode && nodeIds(l, node) && 0 <= begin && begin < end && end < len(l.endLists) &&
  (forall e int, k int {l.endLists[e][k]} :: 0 <= e && e < len(l.endLists) && 0 <= k && k < len(l.endLists[e]) ==> l.endLists[e][k] != node && l.endLists[e][k].Begin < end)

func (l *Lattice).Insert(begin, end, node)
  requires wfLattice(l) && canInsert(l, begin, end, node)
  modifies elems(l.endLists), elems(l.endLists[end]), node.Begin, node.End, node.totalCost, node.bestPreviousNode, node.isConnectedToBOS
  at return {
    assert forall e int, k int {relaxed(l, l.endLists[e][k])} :: 0 < e && e < len(l.endLists) && 0 <= k && k < len(l.endLists[e]) && l.endLists[e][k] != node ==>
       old(relaxed(l, l.endLists[e][k]))
  }
  ensures[wf] wfLattice(l)
  ensures[added] len(l.endLists) == old(len(l.endLists)) && len(l.endLists[end]) == old(len(l.endLists[end])) + 1 && l.endLists[end][len(l.endLists[end])-1] == node &&
     node.Begin == begin && node.End == end
  ensures[kept] forall e int, k int {l.endLists[e][k]} :: 0 <= e && e < len(l.endLists) && 0 <= k && k < old(len(l.endLists[e])) ==> l.endLists[e][k] == old(l.endLists[e][k])
  ensures[all] forall e int, k int {l.endLists[e][k]} :: 0 <= e && e < len(l.endLists) && 0 <= k && k < len(l.endLists[e]) ==> (e == end && l.endLists[e][k] == node) || (k < old(len(l.endLists[e])) && l.endLists[e][k] == old(l.endLists[e][k]))
  ensures[lens] forall e int {l.endLists[e]} :: 0 <= e && e < len(l.endLists) && e != end ==> len(l.endLists[e]) == old(len(l.endLists[e]))
  ensures[bases] forall e int {l.endLists[e]} :: 0 <= e && e < len(l.endLists) ==> base(l.endLists[e]) == old(base(l.endLists[e])) || (e == end && isfresh(l.endLists[e]))

func (l *Lattice).connectEosNode()
  requires wfLattice(l) && l.eosNode != nil && nodeIds(l, l.eosNode) && 0 <= l.eosNode.Begin && l.eosNode.Begin < len(l.endLists)
  modifies l.eosNode.totalCost, l.eosNode.bestPreviousNode, l.eosNode.isConnectedToBOS
  at return {
    assert forall e int, k int {relaxed(l, l.endLists[e][k])} :: 0 < e && e < len(l.endLists) && 0 <= k && k < len(l.endLists[e]) ==>
       old(relaxed(l, l.endLists[e][k]))
  }
  ensures[eos] relaxed(l, l.eosNode)
  ensures[wf] wfLattice(l)

// ---- candidate segmentations: BOS, adjacent candidates, EOS, no inhibited connection
spec rec func isCand(l *Lattice, p seq[*LatticeNode], n int) bool decreases 0 =
  n >= 1 && len(p) == n + 1 && p[0] == l.endLists[0][0] && p[n] == l.eosNode &&
  (forall i int {p[i]} :: 1 <= i && i <= n ==> 0 <= p[i].Begin && p[i].Begin < len(l.endLists) && endsAt(l, p[i].Begin, p[i-1]) && conn(l, p[i-1], p[i]) != 32767) &&
  (forall i int {p[i]} :: 1 <= i && i < n ==> p[i].End > 0)
spec rec func pathCost(l *Lattice, p seq[*LatticeNode], n int) int decreases n =
  n <= 0 ? 0 : pathCost(l, p, n-1) + conn(l, p[n-1], p[n]) + p[n].cost

spec func eosOk(l *Lattice) bool = l.eosNode != nil && relaxed(l, l.eosNode) && 0 <= l.eosNode.Begin && l.eosNode.Begin < len(l.endLists)

// no candidate segmentation is cheaper than the total of its last node
lemma optimal(l *Lattice, p seq[*LatticeNode], n int, m int)
  requires l != nil && wfLattice(l) && l.eosNode != nil && relaxed(l, l.eosNode) && isCand(l, p, n) && 0 <= m && m <= n
  ensures p[m].isConnectedToBOS && p[m].totalCost <= pathCost(l, p, m)
  decreases m
  proof {
    if m > 0 {
      use optimal(l, p, n, m-1)
      assert m < n ==> endsAt(l, p[m+1].Begin, p[m])
      assert relaxed(l, p[m])
    }
  }

// ---- the nodes met going back from the end node
spec rec func back(l *Lattice, k int) *LatticeNode decreases k = k <= 0 ? l.eosNode.bestPreviousNode : back(l, k-1).bestPreviousNode
spec rec func good(l *Lattice, n *LatticeNode) bool decreases 0 =
  n != nil && n.isConnectedToBOS && 0 <= n.End && n.End < len(l.endLists) && endsAt(l, n.End, n) &&
  (n != l.endLists[0][0] ==> n.End > 0 && 0 <= n.Begin && n.Begin < n.End && relaxed(l, n))
// a step to the best predecessor
spec func step(l *Lattice, n *LatticeNode) bool =
  n.bestPreviousNode != nil && n.bestPreviousNode.End == n.Begin && endsAt(l, n.Begin, n.bestPreviousNode) && conn(l, n.bestPreviousNode, n) != 32767 &&
  n.totalCost == n.bestPreviousNode.totalCost + conn(l, n.bestPreviousNode, n) + n.cost
spec rec func onPath(l *Lattice, k int) bool decreases 0 =
  good(l, back(l, k)) && back(l, k) != l.endLists[0][0] && step(l, back(l, k))

lemma goodOf(l *Lattice, b int, n *LatticeNode)
  requires l != nil && wfLattice(l) && 0 <= b && b < len(l.endLists) && endsAt(l, b, n) && n.isConnectedToBOS
  ensures good(l, n) && n.End == b
  proof {
    assert n != nil && n.End == b && 0 <= n.Begin
    assert b > 0 ==> relaxed(l, n) && n.Begin < b
    assert b == 0 ==> n == l.endLists[0][0]
  }
lemma goodEos(l *Lattice)
  requires l != nil && wfLattice(l) && eosOk(l) && l.eosNode.isConnectedToBOS
  ensures good(l, back(l, 0)) && step(l, l.eosNode) && back(l, 0) == l.eosNode.bestPreviousNode
  proof { use goodOf(l, l.eosNode.Begin, l.eosNode.bestPreviousNode) }
lemma goodPrev(l *Lattice, k int)
  requires l != nil && wfLattice(l) && 0 <= k && good(l, back(l, k)) && back(l, k) != l.endLists[0][0]
  ensures onPath(l, k) && good(l, back(l, k+1)) && back(l, k+1) == back(l, k).bestPreviousNode && back(l, k+1).End == back(l, k).Begin && back(l, k).End > back(l, k).Begin
  proof {
    letv n := back(l, k)
    assert relaxed(l, n)
    use goodOf(l, n.Begin, n.bestPreviousNode)
    assert back(l, k+1) == n.bestPreviousNode
  }
// p is the reverse of the first n nodes met going back, between BOS and EOS
spec func backSeg(l *Lattice, p seq[*LatticeNode], n int) bool =
  n >= 0 && len(p) == n + 2 && p[n+1] == l.eosNode && back(l, n) == l.endLists[0][0] && step(l, l.eosNode) &&
  (forall k int {p[k]} :: 0 <= k && k <= n ==> p[k] == back(l, n-k)) && (forall k int {onPath(l, k)} {back(l, k)} :: 0 <= k && k < n ==> onPath(l, k))
lemma segStep(l *Lattice, p seq[*LatticeNode], n int, m int)
  requires l != nil && wfLattice(l) && eosOk(l) && backSeg(l, p, n) && 1 <= m && m <= n + 1
  ensures p[m] != nil && p[m-1] == p[m].bestPreviousNode && step(l, p[m]) && 0 <= p[m].Begin && p[m].Begin < len(l.endLists) && (m <= n ==> p[m].End > 0)
  proof {
    if m <= n {
      assert p[m] == back(l, n-m)
      assert onPath(l, n-m)
      assert p[m-1] == back(l, n-m+1)
      assert back(l, n-m+1) == back(l, n-m).bestPreviousNode
    } else {
      assert p[n] == back(l, 0)
    }
  }
lemma segCost(l *Lattice, p seq[*LatticeNode], n int, m int)
  requires l != nil && wfLattice(l) && eosOk(l) && backSeg(l, p, n) && 0 <= m && m <= n + 1
  ensures p[m].totalCost == pathCost(l, p, m)
  decreases m
  proof {
    if m > 0 {
      use segCost(l, p, n, m-1)
      use segStep(l, p, n, m)
    } else { assert p[0] == back(l, n) }
  }
lemma segCand(l *Lattice, p seq[*LatticeNode], n int)
  requires l != nil && wfLattice(l) && eosOk(l) && backSeg(l, p, n)
  ensures isCand(l, p, n+1) && pathCost(l, p, n+1) == l.eosNode.totalCost
  proof {
    use segCost(l, p, n, n+1)
    use forall m int {p[m]} :: segStep(l, p, n, m)
    assert p[0] == back(l, n)
  }

spec func segOf(l *Lattice, path seq[*LatticeNode]) seq[*LatticeNode] = [l.endLists[0][0]] ++ path ++ [l.eosNode]

func (l *Lattice).GetBestPath() (path, err)
  requires wfLattice(l) && eosOk(l)
  modifies nothing
  at entry { if l.eosNode.isConnectedToBOS { use goodEos(l) } }
  loop 1:
    invariant isfresh(ret) && node == old(back(l, len(ret))) && old(good(l, back(l, len(ret))))
    invariant forall i int {ret[i]} :: 0 <= i && i < len(ret) ==> ret[i] == old(back(l, i))
    invariant forall i int {old(onPath(l, i))} :: 0 <= i && i < len(ret) ==> old(onPath(l, i))
    decreases node.End
  at loop 1 begin { if node != l.endLists[0][0] { use old goodPrev(l, len(ret)) } }
  loop 2:
    invariant 0-1 <= i && i <= len(ret)/2 - 1
    invariant forall k int {ret[k]} :: 0 <= k && k < len(ret) ==> ret[k] == old(back(l, i < k && k < len(ret)-1-i ? len(ret)-1-k : k))
    decreases i + 1
  at return {
    if err == nil {
      letv p := segOf(l, seq(path))
      use old segCand(l, p, len(path))
      use old forall q seq[*LatticeNode], n int {isCand(l, q, n)} :: optimal(l, q, n, n)
    }
    if err != nil {
      use old forall q seq[*LatticeNode], n int {isCand(l, q, n)} :: optimal(l, q, n, n)
    }
  }
  ensures[own] err == nil ==> isfresh(path)
  ensures[reachable] (err == nil) == l.eosNode.isConnectedToBOS
  ensures[cand] err == nil ==> let p := segOf(l, seq(path)) :: let n := len(path)+1 :: old(isCand(l, p, n))
  ensures[cost] err == nil ==> let p := segOf(l, seq(path)) :: let n := len(path)+1 :: old(pathCost(l, p, n) == l.eosNode.totalCost)
  ensures[least] err == nil ==> let p := segOf(l, seq(path)) :: let m := len(path)+1 ::
     old(forall q seq[*LatticeNode], n int {isCand(l, q, n)} :: isCand(l, q, n) ==> pathCost(l, p, m) <= pathCost(l, q, n))
  ensures[none] err != nil ==> old(forall q seq[*LatticeNode], n int {isCand(l, q, n)} :: !isCand(l, q, n))

// ---- emptied between texts (C03)
// nothing ends anywhere but the begin-of-sentence node
spec func emptied(l *Lattice) bool = forall e int {l.endLists[e]} :: 0 < e && e < len(l.endLists) ==> len(l.endLists[e]) == 0
// what holds whatever was done with the lattice before
spec func usedLattice(l *Lattice) bool = wfGram(l) && wfBos(l) && wfBases(l) && nodeIds(l, l.endLists[0][0])

func (l *Lattice).clear()
  property C02, C03
  requires usedLattice(l)
  modifies elems(l.endLists)
  loop 1:
    invariant 1 <= i && i <= len(l.endLists)
    invariant forall e int {l.endLists[e]} :: 0 < e && e < i ==> len(l.endLists[e]) == 0
    invariant forall e int {l.endLists[e]} :: 0 <= e && e < len(l.endLists) ==> base(l.endLists[e]) == old(base(l.endLists[e]))
    invariant forall e int {l.endLists[e]} :: i <= e && e < len(l.endLists) ==> l.endLists[e] == old(l.endLists[e])
    invariant l.endLists[0] == old(l.endLists[0])
    decreases len(l.endLists) - i
  ensures[empty] emptied(l)
  ensures[bos] l.endLists[0] == old(l.endLists[0]) && usedLattice(l)
  ensures[bases] forall e int {l.endLists[e]} :: 0 <= e && e < len(l.endLists) ==> base(l.endLists[e]) == old(base(l.endLists[e]))

func (l *Lattice).expand(newSize)
  property C02, C03
  requires usedLattice(l) && newSize >= 0
  modifies l.endLists, elems(l.endLists)
  loop 1:
    invariant oldlen <= i && i <= reallen && len(l.endLists) == reallen
    invariant forall e int {l.endLists[e]} :: oldlen <= e && e < i ==> len(l.endLists[e]) == 0 && base(l.endLists[e]) != nil && isfresh(l.endLists[e])
    invariant forall e int, f int {l.endLists[e], l.endLists[f]} :: oldlen <= e && e < f && f < i ==> base(l.endLists[e]) != base(l.endLists[f])
    invariant forall e int {l.endLists[e]} :: 0 <= e && e < oldlen ==> l.endLists[e] == old(l.endLists[e])
    decreases reallen - i
  ensures[size] len(l.endLists) == max(old(len(l.endLists)), newSize + 1)
  ensures[kept] forall e int {l.endLists[e]} :: 0 <= e && e < old(len(l.endLists)) ==> l.endLists[e] == old(l.endLists[e])
  ensures[new] forall e int {l.endLists[e]} :: old(len(l.endLists)) <= e && e < len(l.endLists) ==> len(l.endLists[e]) == 0 && isfresh(l.endLists[e])
  ensures[home] base(l.endLists) == old(base(l.endLists)) || isfresh(l.endLists)
  ensures usedLattice(l)

// afterwards the lattice is as good as new: empty, long enough, with an end-of-sentence node of its own
func (l *Lattice).resize(size)
  property C02, C03
  requires usedLattice(l) && emptied(l) && size >= 0 && len(l.eosParams) == 3
  requires 0 <= l.eosParams[0] && l.eosParams[0] < l.grammar.rightIdSize && 0 <= l.eosParams[1] && l.eosParams[1] < l.grammar.leftIdSize
  modifies l.endLists, elems(l.endLists), l.eosNode
  ensures[size] size < len(l.endLists) && emptied(l)
  ensures[bos] l.endLists[0][0] == old(l.endLists[0][0])
  ensures[eos] l.eosNode != nil && isfresh(l.eosNode) && l.eosNode.Begin == size && l.eosNode.End == size && nodeIds(l, l.eosNode) &&
    l.eosNode.leftId == l.eosParams[0] && l.eosNode.rightId == l.eosParams[1] && l.eosNode.cost == l.eosParams[2] && !l.eosNode.isConnectedToBOS && !l.eosNode.isDefined
  ensures[bases] forall e int {l.endLists[e]} :: 0 <= e && e < len(l.endLists) ==> (e < old(len(l.endLists)) && base(l.endLists[e]) == old(base(l.endLists[e]))) || isfresh(l.endLists[e])
  ensures[home] base(l.endLists) == old(base(l.endLists)) || isfresh(l.endLists)
  ensures[wf] wfLattice(l) && usedLattice(l)

func (l *Lattice).GetNodesWithEnd(end) (r)
  requires 0 <= end && end < len(l.endLists)
  modifies nothing
  ensures r == l.endLists[end]

// the cheapest candidate between begin and end, nil if there is none
func (l *Lattice).GetMinimumNode(begin, end) (r)
  property C17
  requires 0 <= end && end < len(l.endLists) && (forall k int {l.endLists[end][k]} :: 0 <= k && k < len(l.endLists[end]) ==> l.endLists[end][k] != nil)
  modifies nothing
  loop 1:
    invariant ret != nil ==> endsAt(l, end, ret) && ret.Begin == begin && mincost == ret.cost
    invariant forall k int {l.endLists[end][k]} :: 0 <= k && k < $i && l.endLists[end][k].Begin == begin ==> ret != nil && ret.cost <= l.endLists[end][k].cost
  ensures[is] r != nil ==> endsAt(l, end, r) && r.Begin == begin
  ensures[least] forall k int {l.endLists[end][k]} :: 0 <= k && k < len(l.endLists[end]) && l.endLists[end][k].Begin == begin ==> r != nil && r.cost <= l.endLists[end][k].cost
