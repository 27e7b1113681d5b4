package dictionary
properties C14

spec func tableLen(g *Grammar) int = 2 * (g.leftIdSize * g.rightIdSize)
spec func wfGrammar(g *Grammar) bool =
  g.leftIdSize >= 0 && g.rightIdSize >= 0 && g.connectTableOffset >= 0 &&
  g.connectTableOffset + tableLen(g) <= len(g.connectTableBytes) &&
  (g.isCopiedConnectTable ? base(g.connectTableBytes) != base(g.bytebuffer) : g.connectTableBytes == g.bytebuffer)
spec func cellAddr(g *Grammar, l int, r int) int = g.connectTableOffset + 2 * (g.leftIdSize * r + l)
// the cost stored for the pair (l, r)
spec rec func costOf(g *Grammar, l int, r int) int decreases 0 =
  int16(g.connectTableBytes[cellAddr(g,l,r)] + 256*g.connectTableBytes[cellAddr(g,l,r)+1])
spec func idsOk(g *Grammar, l int, r int) bool = 0 <= l && l < g.leftIdSize && 0 <= r && r < g.rightIdSize

lemma cellIn(L int, R int, l int, r int)
  requires 0 <= l && l < L && 0 <= r && r < R
  ensures 0 <= L*r && L*r + l + 1 <= L*R
lemma mulStep(L int, a int, b int)
  requires a < b && L >= 0
  ensures L*a + L <= L*b
lemma cellsApart(L int, l1 int, r1 int, l2 int, r2 int)
  requires 0 <= l1 && l1 < L && 0 <= l2 && l2 < L && L*r1 + l1 == L*r2 + l2
  ensures r1 == r2 && l1 == l2
  proof { if r1 < r2 { use mulStep(L, r1, r2) } else { if r2 < r1 { use mulStep(L, r2, r1) } } }

func (g *Grammar).GetConnectCost(leftId, rightId) (res)
  requires wfGrammar(g)
  requires idsOk(g, leftId, rightId)
  modifies nothing
  at entry { use cellIn(g.leftIdSize, g.rightIdSize, leftId, rightId) }
  ensures[cost] res == costOf(g, leftId, rightId)

func (g *Grammar).copyConnectTable()
  requires wfGrammar(g)
  modifies g.connectTableBytes, g.connectTableOffset, g.isCopiedConnectTable
  ensures[copied] g.isCopiedConnectTable && isfresh(g.connectTableBytes) && base(g.connectTableBytes) != nil && g.connectTableOffset == 0 && len(g.connectTableBytes) == tableLen(g)
  ensures[same] forall l int, r int {costOf(g,l,r)} :: idsOk(g, l, r) ==> costOf(g, l, r) == old(costOf(g, l, r))
  ensures[same2] forall i int {g.connectTableBytes[i]} :: 0 <= i && i < tableLen(g) ==> g.connectTableBytes[i] == old(g.connectTableBytes)[old(g.connectTableOffset) + i]

func (g *Grammar).SetConnectCost(leftId, rightId, cost)
  requires wfGrammar(g)
  requires idsOk(g, leftId, rightId)
  modifies g.connectTableBytes, g.connectTableOffset, g.isCopiedConnectTable, elems(g.connectTableBytes)
  at entry { use cellIn(g.leftIdSize, g.rightIdSize, leftId, rightId) }
  ensures[set] costOf(g, leftId, rightId) == cost
  ensures[others] forall l int, r int {costOf(g,l,r)} :: idsOk(g, l, r) && !(l == leftId && r == rightId) ==> costOf(g, l, r) == old(costOf(g, l, r))
  ensures[file] mem(g.bytebuffer) == old(mem(g.bytebuffer))
  ensures base(g.connectTableBytes) == old(base(g.connectTableBytes)) || isfresh(g.connectTableBytes)
  ensures[size] len(g.connectTableBytes) - g.connectTableOffset >= tableLen(g) && wfGrammar(g)

// ---- parts of speech
func (g *Grammar).GetPartOfSpeechSize() (n)
  property C13, C15
  modifies nothing
  ensures[size] n == len(g.posList)
func (g *Grammar).AddPosList(fromg)
  property C13, C15
  requires fromg != nil
  modifies g.posList, elems(g.posList)
  ensures[home] base(g.posList) == old(base(g.posList)) || isfresh(g.posList)
  ensures[added] seq(g.posList) == old(seq(g.posList)) ++ old(seq(fromg.posList))
func (g *Grammar).GetPartOfSpeechString(posId) (s)
  property C13
  requires 0 <= posId && posId < len(g.posList)
  modifies nothing
  ensures[pos] s == g.posList[posId]

// ---- parts of speech by their six names: the first that has them all
spec func wfPosList(g *Grammar) bool = len(g.posList) <= 32768 && (forall i int {g.posList[i]} :: 0 <= i && i < len(g.posList) ==> len(g.posList[i]) >= 6)
spec func samePos(a []string, b []string) bool = forall j int {a[j]} :: 0 <= j && j < 6 ==> a[j] == b[j]
spec rec func firstPos(g *Grammar, pos []string, i int) int decreases len(g.posList) - i =
  i < 0 || i >= len(g.posList) ? 0-1 : (samePos(g.posList[i], pos) ? i : firstPos(g, pos, i+1))
spec func posIdOf(g *Grammar, pos []string) int = len(pos) < 6 ? 0-1 : firstPos(g, pos, 0)
lemma firstPosRange(g *Grammar, pos []string, i int)
  requires g != nil && 0 <= i && i <= len(g.posList)
  ensures firstPos(g, pos, i) == 0-1 || (i <= firstPos(g, pos, i) && firstPos(g, pos, i) < len(g.posList))
  decreases len(g.posList) - i
  proof { if i < len(g.posList) { use firstPosRange(g, pos, i+1) } }
func (g *Grammar).GetPartOfSpeechId(pos) (id)
  property C14, C17, C18
  requires wfPosList(g)
  modifies nothing
  loop 1:
    invariant len(pos) >= 6 && firstPos(g, pos, 0) == firstPos(g, pos, $i)
  loop 2:
    invariant 0 <= j && (forall k int {p[k]} :: 0 <= k && k < j ==> p[k] == pos[k])
    decreases 6 - j
  ensures[first] id == posIdOf(g, pos)
