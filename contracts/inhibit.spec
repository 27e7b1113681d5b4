package gosudachi
properties C14

func InhibitConnection(grammar, leftId, rightId)
  requires grammar != nil && wfGrammar(grammar) && idsOk(grammar, leftId, rightId)
  modifies grammar.connectTableBytes, grammar.connectTableOffset, grammar.isCopiedConnectTable, elems(grammar.connectTableBytes)
  ensures[set] costOf(grammar, leftId, rightId) == 32767
  ensures[others] forall l int, r int {costOf(grammar,l,r)} :: idsOk(grammar, l, r) && !(l == leftId && r == rightId) ==> costOf(grammar, l, r) == old(costOf(grammar, l, r))
  ensures[file] mem(grammar.bytebuffer) == old(mem(grammar.bytebuffer))
  ensures wfGrammar(grammar)
  ensures base(grammar.connectTableBytes) == old(base(grammar.connectTableBytes)) || isfresh(grammar.connectTableBytes)

// pair i of the list names the connection (l, r)
spec func inhibits(ps []*[]int, i int, l int, r int) bool = len(*ps[i]) >= 2 && int16((*ps[i])[0]) == l && int16((*ps[i])[1]) == r
spec func inhibited(ps []*[]int, n int, l int, r int) bool = exists i int {ps[i]} :: 0 <= i && i < n && inhibits(ps, i, l, r)

func (p *InhibitConnectionPlugin).Edit(grammar) (err)
  requires grammar != nil && wfGrammar(grammar)
  requires forall i int {p.InhibitedPair[i]} :: 0 <= i && i < len(p.InhibitedPair) ==> p.InhibitedPair[i] != nil &&
     (len(*p.InhibitedPair[i]) >= 2 ==> idsOk(grammar, int16((*p.InhibitedPair[i])[0]), int16((*p.InhibitedPair[i])[1])))
  modifies grammar.connectTableBytes, grammar.connectTableOffset, grammar.isCopiedConnectTable, elems(grammar.connectTableBytes)
  loop 1:
    invariant wfGrammar(grammar)
    invariant mem(grammar.bytebuffer) == old(mem(grammar.bytebuffer))
    invariant base(grammar.connectTableBytes) == old(base(grammar.connectTableBytes)) || isfresh(grammar.connectTableBytes)
    invariant forall l int, r int {costOf(grammar,l,r)} :: idsOk(grammar, l, r) ==> costOf(grammar, l, r) == (inhibited(p.InhibitedPair, $i, l, r) ? 32767 : old(costOf(grammar, l, r)))
  ensures[exact] forall l int, r int {costOf(grammar,l,r)} :: idsOk(grammar, l, r) ==> costOf(grammar, l, r) == (inhibited(p.InhibitedPair, len(p.InhibitedPair), l, r) ? 32767 : old(costOf(grammar, l, r)))
  ensures[file] mem(grammar.bytebuffer) == old(mem(grammar.bytebuffer))
  ensures[ok] err == nil && wfGrammar(grammar)
