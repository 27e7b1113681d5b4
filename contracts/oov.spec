package gosudachi
properties C18

func CreateNodeOfOOV() (n)
  modifies nothing
  ensures n != nil && isfresh(n) && n.IsOov && !n.isDefined && n.extraWordInfo == nil

// what the tokenizer expects of a provider's candidates
spec func oovNode(n *LatticeNode) bool = n != nil && n.isDefined && n.extraWordInfo != nil && n.extraWordInfo.HeadwordLength >= 1
spec func proposals(t *InputText, nodes []*LatticeNode, offset int) bool =
  (forall k int {nodes[k]} :: 0 <= k && k < len(nodes) ==> oovNode(nodes[k]) && isfresh(nodes[k]) && allocated(nodes[k]) && offset + nodes[k].extraWordInfo.HeadwordLength <= len(t.Bytea)) &&
  (forall i int, j int {nodes[i], nodes[j]} :: 0 <= i && i < j && j < len(nodes) ==> nodes[i] != nodes[j])
// n is the unknown word of len bytes at offset, by entry o
spec func unknownWord(n *LatticeNode, leftId int, rightId int, cost int, posId int, text seq[int], length int) bool =
  n != nil && n.IsOov && n.isDefined && n.leftId == leftId && n.rightId == rightId && n.cost == cost &&
  n.extraWordInfo != nil && n.extraWordInfo.Surface == text && n.extraWordInfo.NormalizedForm == text && n.extraWordInfo.DictionaryForm == text &&
  n.extraWordInfo.HeadwordLength == length && n.extraWordInfo.PosId == posId && len(n.extraWordInfo.ReadingForm) == 0

func (p *MeCabOovProviderPlugin).getOovNode(text, oov, length) (n)
  requires oov != nil
  modifies nothing
  ensures[word] unknownWord(n, oov.leftId, oov.rightId, oov.cost, oov.posId, text, length) && isfresh(n) && isfresh(n.extraWordInfo)

func (p *SimpleOovProviderPlugin).ProvideOOV(inputText, offset, hasOtherWords) (nodes, err)
  requires inputText != nil && wfInput(inputText) && 0 <= offset && offset < len(inputText.Bytea) && aligned(inputText, offset)
  modifies nothing
  at entry { use charAt(inputText, inputText.byteIndexes[offset]+1) use boffStep(txt(inputText), inputText.byteIndexes[offset]) }
  ensures[fit] isfresh(nodes) && proposals(inputText, nodes, offset)
  ensures[none] err == nil && (hasOtherWords ==> len(nodes) == 0)
  ensures[one] !hasOtherWords ==> let e := boff(txt(inputText), inputText.byteIndexes[offset]+1) :: (len(nodes) == 1 && offset < e && e <= len(inputText.Bytea) &&
     unknownWord(nodes[0], p.leftId, p.rightId, p.cost, p.oovPosId, seq(inputText.Bytea, offset, e), e - offset))

// ---- the category-driven provider
// At character c of text s, inside a run that goes on for left bytes, with entries l (n of them):
// the prefix of i characters stays within lim bytes
spec func fits(s seq[int], c int, i int, lim int) bool = c + i <= len(s) && boff(s, c+i) - boff(s, c) <= lim
// the prefixes of 1 to m characters that do, each once per entry: their lengths and their entries
spec rec func preLens(s seq[int], c int, m int, lim int, n int) seq[int] decreases m =
  m <= 0 ? seq(s, 0, 0) : (fits(s, c, m, lim) ? preLens(s, c, m-1, lim, n) ++ times(boff(s, c+m) - boff(s, c), n) : preLens(s, c, m-1, lim, n))
spec rec func preOovs(s seq[int], c int, m int, lim int, l seq[*oov]) seq[*oov] decreases m =
  m <= 0 ? seq(l, 0, 0) : (fits(s, c, m, lim) ? preOovs(s, c, m-1, lim, l) ++ l : preOovs(s, c, m-1, lim, l))
lemma prefixesEnd(s seq[int], c int, i int, m int, lim int, l seq[*oov], n int)
  requires 0 <= c && 1 <= i && i - 1 <= m && !fits(s, c, i, lim)
  ensures preLens(s, c, m, lim, n) == preLens(s, c, i-1, lim, n) && preOovs(s, c, m, lim, l) == preOovs(s, c, i-1, lim, l)
  decreases m
  proof { if m >= i { use prefixesEnd(s, c, i, m-1, lim, l, n) use boffMono(s, c+i, c+m) } }
// the categories that propose words: of the character, with entries, and always invoked or without other words
spec func asks(p *MeCabOovProviderPlugin, types int, t int, other bool) bool =
  band(types, t) == t && (t in p.categories) && (t in p.oovList) && (p.categories[t].isInvoke || !other)
spec func limOf(i *categoryInfo, left int) int = i.isGroup ? left - 1 : left
// all that is proposed for the categories up to t
spec rec func wantLens(p *MeCabOovProviderPlugin, types int, other bool, s seq[int], c int, left int, t int) seq[int] decreases t =
  t <= 0 ? seq(s, 0, 0) :
  !asks(p, types, t, other) ? wantLens(p, types, other, s, c, left, t/2) :
  wantLens(p, types, other, s, c, left, t/2) ++ (p.categories[t].isGroup ? times(left, len(*p.oovList[t])) : seq(s, 0, 0)) ++
    preLens(s, c, p.categories[t].length, limOf(p.categories[t], left), len(*p.oovList[t]))
spec func noOovs(l seq[*oov]) seq[*oov] = seq(l, 0, 0)
spec rec func wantOovs(p *MeCabOovProviderPlugin, types int, other bool, s seq[int], c int, left int, t int) seq[*oov] decreases t =
  t <= 0 ? noOovs(seq(*p.oovList[0])) :
  !asks(p, types, t, other) ? wantOovs(p, types, other, s, c, left, t/2) :
  wantOovs(p, types, other, s, c, left, t/2) ++ (p.categories[t].isGroup ? seq(*p.oovList[t]) : noOovs(seq(*p.oovList[t]))) ++
    preOovs(s, c, p.categories[t].length, limOf(p.categories[t], left), seq(*p.oovList[t]))
// nodes are the unknown words with those lengths and entries, each with the text it covers
spec func wordsAre(nodes []*LatticeNode, b seq[int], offset int, lens seq[int], oovs seq[*oov]) bool =
  len(nodes) == len(lens) && len(nodes) == len(oovs) &&
  (forall k int {nodes[k]} :: 0 <= k && k < len(nodes) ==>
     unknownWord(nodes[k], oovs[k].leftId, oovs[k].rightId, oovs[k].cost, oovs[k].posId, seq(b, offset, offset + lens[k]), lens[k]))
spec func isBit(t int) bool = t == 1 || t == 2 || t == 4 || t == 8 || t == 16 || t == 32 || t == 64 || t == 128 || t == 256 || t == 512 || t == 1024 || t == 2048 || t == 4096 || t == 8192 || t == 16384 || t == 32768 || t == 65536
spec func wfMecab(p *MeCabOovProviderPlugin) bool =
  (forall t int {p.categories[t]} :: (t in p.categories) ==> p.categories[t] != nil) &&
  (forall t int {p.oovList[t]} :: (t in p.oovList) ==> p.oovList[t] != nil) &&
  (forall t int, k int {(*p.oovList[t])[k]} :: (t in p.oovList) && 0 <= k && k < len(*p.oovList[t]) ==> (*p.oovList[t])[k] != nil)

func (p *MeCabOovProviderPlugin).ProvideOOV(inputText, offset, hasOtherWords) (nodes, err)
  requires inputText != nil && wfInput(inputText) && 0 <= offset && offset < len(inputText.Bytea) && aligned(inputText, offset) && wfMecab(p)
  nomerge
  modifies nothing
  at entry {
    letv ts := txt(inputText)
    letv c := inputText.byteIndexes[offset]
    letv b := seq(inputText.Bytea)
    letv types := inputText.charCategories[c]
    letv left := boff(ts, runEnd(seq(inputText.charCategories), c)) - offset
    use runEndRange(seq(inputText.charCategories), c)
    use charAt(inputText, runEnd(seq(inputText.charCategories), c))
    use boffMono(ts, c, runEnd(seq(inputText.charCategories), c))
  }
  at loop 1 begin {
    letv L := wantLens(p, types, hasOtherWords, ts, c, left, t/2)
    letv O := wantOovs(p, types, hasOtherWords, ts, c, left, t/2)
    letv t0 := t
    letv v := seq(*p.oovList[t])
    letv W := wantLens(p, types, hasOtherWords, ts, c, left, t)
    letv V := wantOovs(p, types, hasOtherWords, ts, c, left, t)
    if t <= 32768 {
      assert t/2 < t
      letv l1 := limOf(p.categories[t], left)
      assert[nl] L ++ seq(ts, 0, 0) ++ preLens(ts, c, 0, l1, len(v)) == L
      assert[no] O ++ noOovs(v) ++ preOovs(ts, c, 0, l1, v) == O
      if asks(p, types, t, hasOtherWords) {
        assert[ul] W == L ++ (p.categories[t].isGroup ? times(left, len(v)) : seq(ts, 0, 0)) ++ preLens(ts, c, p.categories[t].length, limOf(p.categories[t], left), len(v))
        assert[uo] V == O ++ (p.categories[t].isGroup ? v : noOovs(v)) ++ preOovs(ts, c, p.categories[t].length, limOf(p.categories[t], left), v)
      } else { assert[el] W == L assert[eo] V == O }
    }
  }
  loop 1:
    invariant[fit] proposals(inputText, nodes, offset)
    invariant isBit(t) && isfresh(nodes)
    invariant wordsAre(nodes, b, offset, wantLens(p, types, hasOtherWords, ts, c, left, t/2), wantOovs(p, types, hasOtherWords, ts, c, left, t/2))
    decreases 65536 - t
  at loop 1 end { assert t/2 == t0 }
  at loop 2 begin { use timesLen(left, $i) }
  at loop 2 exit {
    letv l0 := limOf(cinfo, left)
    assert[whole] v[0:$i] == v
    assert[gl] L ++ times(left, len(v)) ++ preLens(ts, c, 0, l0, len(v)) == L ++ times(left, $i)
    assert[go] O ++ v ++ preOovs(ts, c, 0, l0, v) == O ++ v[0:$i]
    letv LG := L ++ times(left, len(v)) ++ preLens(ts, c, 0, l0, len(v))
    letv OG := O ++ v ++ preOovs(ts, c, 0, l0, v)
    assert[gw] wordsAre(nodes, b, offset, LG, OG)
  }
  loop 2:
    invariant[fit] proposals(inputText, nodes, offset)
    invariant isfresh(nodes) && seq(*oovs) == v
    invariant wordsAre(nodes, b, offset, L ++ times(left, $i), O ++ v[0:$i])
  at loop 3 begin {
    use timesLen(left, len(v))
    letv L3 := L ++ (cinfo.isGroup ? times(left, len(v)) : seq(ts, 0, 0)) ++ preLens(ts, c, i-1, limOf(cinfo, left), len(v))
    letv O3 := O ++ (cinfo.isGroup ? v : noOovs(v)) ++ preOovs(ts, c, i-1, limOf(cinfo, left), v)
    letv lim := limOf(cinfo, left)
    use charAt(inputText, min(c + i, len(ts)))
    if i <= cinfo.length && !fits(ts, c, i, lim) { use prefixesEnd(ts, c, i, cinfo.length, lim, v, len(v)) }
    if i > cinfo.length || !fits(ts, c, i, lim) {
      assert[pl] preLens(ts, c, i-1, lim, len(v)) == preLens(ts, c, cinfo.length, lim, len(v))
      assert[po] preOovs(ts, c, i-1, lim, v) == preOovs(ts, c, cinfo.length, lim, v)
      assert[ll] L3 == W
      assert[oo] O3 == V
      assert[wa] wordsAre(nodes, b, offset, W, V)
    }
  }
  loop 3:
    invariant[fit] proposals(inputText, nodes, offset)
    invariant 1 <= i && isfresh(nodes) && i - 1 <= max(0, cinfo.length) && seq(*oovs) == v
    invariant wordsAre(nodes, b, offset, L ++ (cinfo.isGroup ? times(left, len(v)) : seq(ts, 0, 0)) ++ preLens(ts, c, i-1, limOf(cinfo, left), len(v)),
       O ++ (cinfo.isGroup ? v : noOovs(v)) ++ preOovs(ts, c, i-1, limOf(cinfo, left), v))
    decreases cinfo.length - i
  loop 4:
    invariant[fit] proposals(inputText, nodes, offset)
    invariant isfresh(nodes) && seq(*oovs) == v
    invariant wordsAre(nodes, b, offset, L3 ++ times(sublength, $i), O3 ++ v[0:$i])
  at loop 4 begin {
    letv LA0 := L3 ++ times(sublength, $i)
    letv OA0 := O3 ++ v[0:$i]
    assert[b0] wordsAre(nodes, b, offset, LA0, OA0)
    snap b4
    use timesLen(sublength, $i) assert[al] aligned(inputText, offset+sublength) if $i < len(v) { assert[ml] L3 ++ times(sublength, $i+1) == (L3 ++ times(sublength, $i)) ++ [sublength] assert[mo] O3 ++ v[0:$i+1] == (O3 ++ v[0:$i]) ++ [v[$i]] } assert[sub] s == b[offset:offset+sublength] }
  at loop 4 exit {
      assert[whole] v[0:$i] == v
      assert[fl] preLens(ts, c, i, lim, len(v)) == preLens(ts, c, i-1, lim, len(v)) ++ times(sublength, len(v))
      assert[fo] preOovs(ts, c, i, lim, v) == preOovs(ts, c, i-1, lim, v) ++ v
      assert[nl] L3 ++ times(sublength, len(v)) == L ++ (cinfo.isGroup ? times(left, len(v)) : seq(ts, 0, 0)) ++ preLens(ts, c, i, lim, len(v))
      assert[no] O3 ++ v == O ++ (cinfo.isGroup ? v : noOovs(v)) ++ preOovs(ts, c, i, lim, v)
  }
  at call getOovNode 2 after { assert[kept0] forall k int {nodes[k]} :: 0 <= k && k < len(nodes) ==> nodes[k] == snapped("b4", nodes[k]) && nodes[k].extraWordInfo == snapped("b4", nodes[k].extraWordInfo) assert[new0] forall k int {nodes[k]} :: 0 <= k && k < len(nodes) ==> nodes[k] != $result }
  at loop 4 end {
    assert[grown] len(nodes) == snapped("b4", len(nodes)) + 1
    letv q := nodes[len(nodes)-1]
    assert[e0] len(nodes) == len(L3) + $i
    assert[e1] unknownWord(q, v[$i-1].leftId, v[$i-1].rightId, v[$i-1].cost, v[$i-1].posId, seq(b, offset, offset + sublength), sublength)
    assert[newfit] oovNode(q) && isfresh(q) && allocated(q) && offset + q.extraWordInfo.HeadwordLength <= len(inputText.Bytea)
    letv LA := LA0
    letv OA := OA0
    assert[ea] LA == L3 ++ times(sublength, $i-1) && OA == O3 ++ v[0:$i-1]
    assert[eb] forall k int {nodes[k]} :: 0 <= k && k < len(nodes) - 1 ==> nodes[k] == snapped("b4", nodes[k])
    assert[oldfit] forall k int {nodes[k]} :: 0 <= k && k < len(nodes) - 1 ==> oovNode(nodes[k]) && isfresh(nodes[k]) && allocated(nodes[k]) && offset + nodes[k].extraWordInfo.HeadwordLength <= len(inputText.Bytea)
    letv LB := LA ++ [sublength]
    letv OB := OA ++ [v[$i-1]]
    assert[e2] len(LA) == len(nodes) - 1 && len(OA) == len(nodes) - 1
    assert[e4] forall k int {nodes[k]} :: 0 <= k && k < len(nodes) - 1 ==> unknownWord(nodes[k], OA[k].leftId, OA[k].rightId, OA[k].cost, OA[k].posId, seq(b, offset, offset + LA[k]), LA[k])
    assert[e5] forall k int {OB[k]} :: 0 <= k && k < len(nodes) - 1 ==> OB[k] == OA[k] && LB[k] == LA[k]
    assert[e6] OB[len(nodes)-1] == v[$i-1] && LB[len(nodes)-1] == sublength
    assert[e3] wordsAre(nodes, b, offset, LB, OB)
  }
  ensures[err] err == nil
  ensures[fit] isfresh(nodes) && proposals(inputText, nodes, offset)
  ensures[words] let c := inputText.byteIndexes[offset] :: let left := boff(txt(inputText), runEnd(seq(inputText.charCategories), c)) - offset ::
    wordsAre(nodes, seq(inputText.Bytea), offset, wantLens(p, inputText.charCategories[c], hasOtherWords, txt(inputText), c, left, 32768), wantOovs(p, inputText.charCategories[c], hasOtherWords, txt(inputText), c, left, 32768))
