// Loading user dictionaries: the cost of a word's own segmentation, clamped; where the new dictionary comes to stand (C13, C15).
package gosudachi
properties C15

func (l *MorphemeList).Length() (n)
  property C15, C25
  modifies nothing
  ensures n == len(l.path)
spec func ownCost(l *MorphemeList) int = len(l.path) == 0 ? 0 : l.path[len(l.path)-1].cost - l.path[0].cost
func (l *MorphemeList).GetInternalCost() (c)
  requires forall i int {l.path[i]} :: 0 <= i && i < len(l.path) ==> l.path[i] != nil
  modifies nothing
  ensures[cost] c == ownCost(l)
spec func clamp16(x int) int = x > 32767 ? 32767 : (x < 0-32768 ? 0-32768 : x)
func (d *JapaneseDictionary).ReadUserDictionary$1(text) (cost, err)
  requires *tokenizer != nil && wfTokenizer(*tokenizer) && validStr(text) && (*tokenizer).grammar.CharCategory != nil && wfCat((*tokenizer).grammar.CharCategory)
  modifies (*tokenizer).lattice.endLists, (*tokenizer).lattice.eosNode, elems((*tokenizer).lattice.endLists), elems((*tokenizer).lattice.endLists[e]) for e int : 0 <= e && e < len((*tokenizer).lattice.endLists)
  hide okUnit, relaxed, wfNode, isCand, runEnd, runBegin
  at call Tokenize before { assert[text] $arg2 == text }
  at call Tokenize after { letv M := $result0 }
  at return { if err == nil { assert[clamped] cost == clamp16(ownCost(M) - 20*len(M.path)) } }
  ensures[ready] wfTokenizer(*tokenizer)
func NewJapaneseTokenizer(grammar, lexicon, inputTextPlugins, oovProviderPlugins, pathRewritePlugins) (t)
  property C02, C03, C15, C26, C27
  requires grammar != nil && wfGrammar(grammar) && grammar.leftIdSize >= 1 && grammar.rightIdSize >= 1
  requires len(dictionary.BosParameter) == 3 && (forall i int {dictionary.BosParameter[i]} :: 0 <= i && i < 3 ==> dictionary.BosParameter[i] == 0)
  requires len(dictionary.EosParameter) == 3 && (forall i int {dictionary.EosParameter[i]} :: 0 <= i && i < 3 ==> dictionary.EosParameter[i] == 0)
  requires lexicon != nil && wfSet(lexicon) && wfListed(lexicon) && linkIdsOk(lexicon, grammar) && pluginsOk(inputTextPlugins, oovProviderPlugins, pathRewritePlugins)
  modifies nothing
  hide okUnit, relaxed, isCand
  ensures t != nil && isfresh(t) && t.grammar == grammar && t.lexicon == lexicon
  ensures[plugins] t.inputTextPlugins == inputTextPlugins && t.oovProviderPlugins == oovProviderPlugins && t.pathRewritePlugins == pathRewritePlugins && (len(oovProviderPlugins) > 0 ==> t.defaultOovProvider == oovProviderPlugins[0]) && (len(oovProviderPlugins) == 0 ==> t.defaultOovProvider == nil)
  ensures[ready] wfTokenizer(t)
func (d *JapaneseDictionary).ReadUserDictionary(filename, utf16string) (err)
  property C13, C15, C27
  at call ReadUserDictionary before { assert[how] $arg0 == filename && $arg1 == utf16string }
  requires d.lexicon != nil && d.grammar != nil && wfGrammar(d.grammar) && d.grammar.leftIdSize >= 1 && d.grammar.rightIdSize >= 1
  requires len(dictionary.BosParameter) == 3 && (forall i int {dictionary.BosParameter[i]} :: 0 <= i && i < 3 ==> dictionary.BosParameter[i] == 0)
  requires len(dictionary.EosParameter) == 3 && (forall i int {dictionary.EosParameter[i]} :: 0 <= i && i < 3 ==> dictionary.EosParameter[i] == 0)
  requires wfSet(d.lexicon) && wfListed(d.lexicon) && linkIdsOk(d.lexicon, d.grammar) && pluginsOk(d.inputTextPlugins, d.oovProviderPlugins, d.pathRewritePlugins)
  hide okUnit, relaxed, isCand
  modifies d.dictionaries, elems(d.dictionaries), d.lexicon.lexicons, d.lexicon.posOffsets, elems(d.lexicon.lexicons), elems(d.lexicon.posOffsets), d.grammar.posList, elems(d.grammar.posList)
  at call CalculateCost before {
    assume[a dictionary file read holds words as the builder lays them out, in memory of its own] wfLex($arg0) && !$arg0.wordParams.isCopied && isfresh($arg0.wordParams) && isfresh($arg0.wordParams.bytebuffer)
    letv L0 := $arg0
    assert[ready] wfTokenizer(tokenizer)
  }
  at call Add before { assert[costed] $arg1 == L0 }
  ensures[full] len(old(seq(d.lexicon.lexicons))) >= 16 ==> err != nil
  ensures[refused] err != nil ==> seq(d.lexicon.lexicons) == old(seq(d.lexicon.lexicons)) && seq(d.lexicon.posOffsets) == old(seq(d.lexicon.posOffsets)) && seq(d.grammar.posList) == old(seq(d.grammar.posList))
  ensures[added] err == nil ==> len(d.lexicon.lexicons) == len(old(seq(d.lexicon.lexicons))) + 1 && (let W := seq(d.lexicon.lexicons) :: seq(W, 0, len(W) - 1) == old(seq(d.lexicon.lexicons)))
  ensures[home] (base(d.dictionaries) == old(base(d.dictionaries)) || isfresh(d.dictionaries)) && (base(d.lexicon.lexicons) == old(base(d.lexicon.lexicons)) || isfresh(d.lexicon.lexicons)) && (base(d.lexicon.posOffsets) == old(base(d.lexicon.posOffsets)) || isfresh(d.lexicon.posOffsets)) && (base(d.grammar.posList) == old(base(d.grammar.posList)) || isfresh(d.grammar.posList))
  ensures[file] err == nil ==> len(d.lexicon.lexicons) == old(len(d.lexicon.lexicons)) + 1 && d.lexicon.lexicons[old(len(d.lexicon.lexicons))].file == filename && (forall k int {d.lexicon.lexicons[k]} :: 0 <= k && k < old(len(d.lexicon.lexicons)) ==> d.lexicon.lexicons[k] == old(d.lexicon.lexicons[k]))
  ensures[offset] err == nil ==> seq(d.lexicon.posOffsets) == old(seq(d.lexicon.posOffsets)) ++ [int32(len(old(seq(d.grammar.posList))))]
