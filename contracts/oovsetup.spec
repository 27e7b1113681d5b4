// C18: how the unknown-word providers are set up; C17: the path plugins' settings.
package gosudachi
properties C18

func (p *SimpleOovProviderPlugin).SetUp(grammar) (err)
  requires p.config != nil && grammar != nil && wfPosList(grammar)
  modifies p.oovPosId, p.leftId, p.rightId, p.cost, p.config
  ensures[missing] old(p.config.OovPos == nil || p.config.LeftId == nil || p.config.RightId == nil || p.config.Cost == nil) ==> err != nil
  ensures[known] !old(p.config.OovPos == nil || p.config.LeftId == nil || p.config.RightId == nil || p.config.Cost == nil) ==> (err == nil) == (posIdOf(grammar, *old(p.config.OovPos)) >= 0)
  ensures[taken] err == nil ==> p.oovPosId == posIdOf(grammar, *old(p.config.OovPos)) && p.leftId == *old(p.config.LeftId) && p.rightId == *old(p.config.RightId) && p.cost == *old(p.config.Cost)
func (p *JoinKatakanaOovPlugin).SetUp(grammar) (err)
  property C17
  requires p.config != nil && grammar != nil && wfPosList(grammar)
  modifies p.oovPosId, p.minLength, p.config
  ensures[known] (err == nil) == old(p.config.OovPOS != nil && posIdOf(grammar, *p.config.OovPOS) >= 0 && (p.config.MinLength == nil || *p.config.MinLength >= 0))
  ensures[taken] err == nil ==> p.oovPosId == posIdOf(grammar, *old(p.config.OovPOS)) && p.minLength == old(p.config.MinLength == nil ? 1 : *p.config.MinLength)
func (p *JoinNumericPlugin).SetUp(grammar) (err)
  property C17
  requires p.config != nil && grammar != nil && wfPosList(grammar)
  modifies p.numericPosId, p.enableNormalize, p.config
  ensures[taken] err == nil && p.numericPosId == posIdOf(grammar, NumericPos) && p.enableNormalize == old(p.config.EnableNormalize == nil || *p.config.EnableNormalize)

// ---- the category definitions file
ghostfield MeCabOovProviderPlugin.catsRead bool
ghostfield MeCabOovProviderPlugin.oovsRead bool
// lines that say nothing about categories: blank, comments, and the characters' own
spec rec func idle(l seq[int]) bool decreases 0 = skipLine(l) || (len(l) > 2 && l[0] == 48 && l[1] == 120)
spec rec func charLineOk(l seq[int]) bool decreases 0 = idle(l) || (nFields(l) >= 4 && isCat(fieldAt(l, 0)) && isInt(fieldAt(l, 3)))
spec rec func definesCat(l seq[int], t int) bool decreases 0 = !idle(l) && codeOf(fieldAt(l, 0)) == t
spec rec func catsIn(R seq[int], t int) int decreases len(R) = len(R) == 0 || !restShort(R) ? 0 : (definesCat(lineOf(R), t) ? 1 : 0) + catsIn(restOf(R), t)
spec rec func catLine(R seq[int], t int) seq[int] decreases len(R) = len(R) == 0 || !restShort(R) ? R : (definesCat(lineOf(R), t) ? lineOf(R) : catLine(restOf(R), t))
spec rec func charDefOk(R seq[int]) bool decreases len(R) = len(R) == 0 || !restShort(R) || (charLineOk(lineOf(R)) && charDefOk(restOf(R)))
spec rec func infoFrom(c *categoryInfo, l seq[int], t int) bool decreases 0 =
  c != nil && c.catType == t && c.isInvoke == (fieldAt(l, 1) != "0") && c.isGroup == (fieldAt(l, 2) != "0") && c.length == intVal(fieldAt(l, 3))

func (p *MeCabOovProviderPlugin).readCharacterProperty(charDef) (err)
  requires p.categories != nil && data.Assets != nil
  modifies map(p.categories), p.catsRead
  nomerge
  at entry { ghost p.catsRead := false }
  at call OpenFile before { assert[file] $arg0 == charDef && charDef != "" }
  at call Open before { assert[builtin] charDef == "" && $arg1 == "char.def" }
  at call NewLineNumberReader before { assume[reading a file ends with an error of its own] $arg0.term != nil && $arg0.term != bufio.ErrBufferFull }
  at call NewLineNumberReader after { letv R0 := $result.r.rest }
  loop 1:
    invariant[reader] (isfresh(r.rawBuffer) || r.rawBuffer == nil) && isfresh(r.r.buf) && (r.rawBuffer == nil || base(r.rawBuffer) != base(r.r.buf))
    invariant[once] forall t int {catsIn(R0, t)} {t in p.categories} :: ((t in p.categories) ? 1 : 0) + catsIn(r.r.rest, t) == (old(t in p.categories) ? 1 : 0) + catsIn(R0, t)
    invariant[kept] forall t int {p.categories[t]} :: old(t in p.categories) ==> (t in p.categories) && p.categories[t] == old(p.categories[t])
    invariant[line] forall t int {catLine(R0, t)} {t in p.categories} :: !(t in p.categories) ==> catLine(R0, t) == catLine(r.r.rest, t)
    invariant[info] forall t int {p.categories[t]} :: (t in p.categories) && !old(t in p.categories) ==> infoFrom(p.categories[t], catLine(R0, t), t) && isfresh(p.categories[t]) && allocated(p.categories[t])
    invariant[wellformed] charDefOk(R0) == charDefOk(r.r.rest)
  at loop 1 begin { letv R := r.r.rest if len(R) > 0 { use restShorter(R) } }
  at call ReadLine after { letv failed := $result1 letv L := lineOf(R) if failed == nil { assert[line] seq($result0) == L && r.r.rest == restOf(R) && len(R) > 0 } }
  at call IsSkipLine after { letv l0 := $arg0 assert[bytes] (forall j int {l0[j]} :: 0 <= j && j < len(l0) ==> l0[j] == L[j]) && (forall j int {L[j]} :: 0 <= j && j < len(L) ==> l0[j] == L[j]) assert[skip] $result == skipLine(L) }
  at call Fields after { assert[fields] $arg0 == L && !idle(L) }
  at call GetCategoryType after { assert[code] $result1 == nil ==> isCat(fieldAt(L, 0)) && $result0 == codeOf(fieldAt(L, 0)) assert[name] $result1 != nil ==> !isCat(fieldAt(L, 0)) }
  at loop 1 exit { if failed == io.EOF { assert[all] len(R) == 0
      assert[once] forall t int {catsIn(R0, t)} {t in p.categories} :: ((t in p.categories) ? 1 : 0) == (old(t in p.categories) ? 1 : 0) + catsIn(R0, t)
      assert[wellformed] charDefOk(R0) } ghost p.catsRead := failed == io.EOF && len(R) == 0 && charDefOk(R0) }
  ensures[whole] err == nil ==> p.catsRead
  ensures[kept] forall t int {p.categories[t]} :: old(t in p.categories) ==> (t in p.categories) && p.categories[t] == old(p.categories[t])
  ensures[made] forall t int {p.categories[t]} :: (t in p.categories) && !old(t in p.categories) ==> p.categories[t] != nil && isfresh(p.categories[t])

// ---- the entries file: every line is one entry of a category
spec func col(l seq[int], i int) seq[int] = columnAt(l, seq(","), i)
spec func is16(s seq[int]) bool = isDec(s) && 0-32768 <= decNum(s) && decNum(s) <= 32767
spec rec func posCols(a []string, l seq[int]) bool decreases 0 = forall j int {a[j]} :: 0 <= j && j < 6 ==> a[j] == col(l, 4+j)
spec rec func posOfLine(g *dictionary.Grammar, l seq[int], i int) int decreases len(g.posList) - i =
  i < 0 || i >= len(g.posList) ? 0-1 : (posCols(g.posList[i], l) ? i : posOfLine(g, l, i+1))
spec func posLineAt(g *dictionary.Grammar, l seq[int], i int, id int) bool =
  id < 0 ? id == 0-1 && (forall k int {g.posList[k]} :: i <= k && k < len(g.posList) ==> !posCols(g.posList[k], l)) :
  i <= id && id < len(g.posList) && posCols(g.posList[id], l) && (forall k int {g.posList[k]} :: i <= k && k < id ==> !posCols(g.posList[k], l))
lemma posLineIs(g *dictionary.Grammar, l seq[int], i int, id int)
  requires g != nil && 0 <= i && i <= len(g.posList) && posLineAt(g, l, i, id)
  ensures posOfLine(g, l, i) == id
  decreases len(g.posList) - i
  proof { if i < len(g.posList) && id != i { use posLineIs(g, l, i+1, id) } }
lemma firstPosIs(g *dictionary.Grammar, pos []string, l seq[int], i int)
  requires g != nil && 0 <= i && i <= len(g.posList) && (forall j int {pos[j]} :: 0 <= j && j < 6 ==> pos[j] == col(l, 4+j))
  ensures posLineAt(g, l, i, firstPos(g, pos, i))
  decreases len(g.posList) - i
  proof { use firstPosRange(g, pos, i) if i < len(g.posList) { use firstPosIs(g, pos, l, i+1) use firstPosRange(g, pos, i+1) assert posCols(g.posList[i], l) == samePos(g.posList[i], pos) } }
spec rec func oovLineOk(p *MeCabOovProviderPlugin, g *dictionary.Grammar, l seq[int]) bool decreases 0 =
  nColumns(l, seq(",")) >= 10 && isCat(col(l, 0)) && (codeOf(col(l, 0)) in p.categories) && is16(col(l, 1)) && is16(col(l, 2)) && is16(col(l, 3)) && posOfLine(g, l, 0) >= 0
spec rec func oovFor(l seq[int], t int) bool decreases 0 = codeOf(col(l, 0)) == t
spec rec func unkDefOk(p *MeCabOovProviderPlugin, g *dictionary.Grammar, R seq[int]) bool decreases len(R) = len(R) == 0 || !restShort(R) || (oovLineOk(p, g, lineOf(R)) && unkDefOk(p, g, restOf(R)))
// how many lines are for a category, and the n-th of them
spec rec func oovsIn(R seq[int], t int) int decreases len(R) = len(R) == 0 || !restShort(R) ? 0 : (oovFor(lineOf(R), t) ? 1 : 0) + oovsIn(restOf(R), t)
spec rec func oovLine(R seq[int], t int, n int) seq[int] decreases len(R) = len(R) == 0 || !restShort(R) ? R :
  (oovFor(lineOf(R), t) ? (n <= 0 ? lineOf(R) : oovLine(restOf(R), t, n-1)) : oovLine(restOf(R), t, n))
spec func entryFrom(o *oov, l seq[int], pos int) bool =
  o != nil && o.leftId == decNum(col(l, 1)) && o.rightId == decNum(col(l, 2)) && o.cost == decNum(col(l, 3)) && o.posId == pos
spec func haveOovs(p *MeCabOovProviderPlugin, t int) int = (t in p.oovList) ? len(*p.oovList[t]) : 0

func (p *MeCabOovProviderPlugin).readOov(unkDef, grammar) (err)
  requires p.categories != nil && p.oovList != nil && data.Assets != nil && grammar != nil && wfPosList(grammar)
  requires[empty] forall t int {t in p.oovList} :: !(t in p.oovList)
  modifies map(p.oovList), p.oovsRead
  nomerge
  at entry { ghost p.oovsRead := false }
  at call OpenFile before { assert[file] $arg0 == unkDef && unkDef != "" }
  at call Open before { assert[builtin] unkDef == "" && $arg1 == "unk.def" }
  at call NewLineNumberReader before { assume[reading a file ends with an error of its own] $arg0.term != nil && $arg0.term != bufio.ErrBufferFull }
  at call NewLineNumberReader after { letv R0 := $result.r.rest }
  loop 1:
    invariant[reader] (isfresh(r.rawBuffer) || r.rawBuffer == nil) && isfresh(r.r.buf) && (r.rawBuffer == nil || base(r.rawBuffer) != base(r.r.buf))
    invariant[lists] forall t int {p.oovList[t]} :: (t in p.oovList) ==> p.oovList[t] != nil && isfresh(p.oovList[t]) && allocated(p.oovList[t]) && (t in p.categories) && isfresh(*p.oovList[t]) && allocated(*p.oovList[t])
    invariant[apart] forall t int, u int {p.oovList[t], p.oovList[u]} :: (t in p.oovList) && (u in p.oovList) && t != u ==> p.oovList[t] != p.oovList[u] && (base(*p.oovList[t]) != base(*p.oovList[u]) || base(*p.oovList[t]) == nil)
    invariant[count] forall t int {oovsIn(R0, t)} {t in p.oovList} :: haveOovs(p, t) + oovsIn(r.r.rest, t) == oovsIn(R0, t)
    invariant[nth] forall t int, n int {oovLine(R0, t, n)} :: n >= haveOovs(p, t) ==> oovLine(R0, t, n) == oovLine(r.r.rest, t, n - haveOovs(p, t))
    invariant[entries] forall t int, k int {(*p.oovList[t])[k]} :: (t in p.oovList) && 0 <= k && k < len(*p.oovList[t]) ==> isfresh((*p.oovList[t])[k]) && allocated((*p.oovList[t])[k]) && entryFrom((*p.oovList[t])[k], oovLine(R0, t, k), old(posOfLine(grammar, oovLine(R0, t, k), 0)))
    invariant[wellformed] let R := r.r.rest :: (old(unkDefOk(p, grammar, R0)) == old(unkDefOk(p, grammar, R)))
  at loop 1 begin { snap it letv R := r.r.rest if len(R) > 0 { use restShorter(R) } }
  at call ReadLine after { letv failed := $result1 letv L := lineOf(R) if failed == nil { assert[line] seq($result0) == L && r.r.rest == restOf(R) && len(R) > 0 } }
  at call Split before { assert[cols] $arg0 == L && $arg1 == "," }
  at call GetCategoryType after { assert[code] $result1 == nil ==> isCat(col(L, 0)) && $result0 == codeOf(col(L, 0)) assert[name] $result1 != nil ==> !isCat(col(L, 0)) }
  at call GetPartOfSpeechId before { letv PS := $arg1 }
  at call GetPartOfSpeechId after { letv I := $result use firstPosIs(grammar, PS, L, 0) assert[here] posLineAt(grammar, L, 0, I) use old posLineIs(grammar, L, 0, I) assert[pos] I == old(posOfLine(grammar, L, 0)) letv C := codeOf(col(L, 0)) letv N := haveOovs(p, C) assert[next] oovLine(R0, C, N) == L }
  at loop 1 end { assert[lens] forall t int {haveOovs(p, t)} :: haveOovs(p, t) == snapped("it", haveOovs(p, t)) + (t == C ? 1 : 0)
    assert[kept] forall t int, k int {(*p.oovList[t])[k]} :: (t in p.oovList) && 0 <= k && k < snapped("it", haveOovs(p, t)) ==> (*p.oovList[t])[k] == snapped("it", (*p.oovList[t])[k])
    assert[new] let e := (*p.oovList[C])[N] :: isfresh(e) && allocated(e) && entryFrom(e, L, I)
  }
  at loop 1 exit { if failed == io.EOF { assert[all] len(R) == 0
      assert[count] forall t int {oovsIn(R0, t)} {t in p.oovList} :: haveOovs(p, t) == oovsIn(R0, t)
      assert[wellformed] old(unkDefOk(p, grammar, R0)) } ghost p.oovsRead := failed == io.EOF && len(R) == 0 && old(unkDefOk(p, grammar, R0)) }
  ensures[whole] err == nil ==> p.oovsRead
  ensures[lists] err == nil ==> forall t int {p.oovList[t]} :: (t in p.oovList) ==> p.oovList[t] != nil && (t in p.categories)
  ensures[entries] err == nil ==> forall t int, k int {(*p.oovList[t])[k]} :: (t in p.oovList) && 0 <= k && k < len(*p.oovList[t]) ==> (*p.oovList[t])[k] != nil

func (p *MeCabOovProviderPlugin).SetUp(grammar) (err)
  requires p.config != nil && data.Assets != nil && grammar != nil && wfPosList(grammar)
  requires[once] p.oovList == nil || (forall t int {t in p.oovList} :: !(t in p.oovList))
  requires[once2] p.categories == nil || (forall t int {t in p.categories} :: !(t in p.categories))
  modifies p.config, p.config.CharDef, p.config.UnkDef, p.categories, p.oovList, map(p.categories), map(p.oovList), p.catsRead, p.oovsRead
  at call readCharacterProperty before { assert[file] $arg0 == p && $arg1 == (old(p.config.CharDef) == nil ? "" : old(*p.config.CharDef)) }
  at call readOov before { assert[file] $arg0 == p && $arg1 == (old(p.config.UnkDef) == nil ? "" : old(*p.config.UnkDef)) && $arg2 == grammar }
  ensures[wf] err == nil ==> wfMecab(p)
  ensures[whole] err == nil ==> p.catsRead && p.oovsRead
