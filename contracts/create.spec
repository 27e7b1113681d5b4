// C27: a dictionary opened from a configuration holds its parts, set up with its grammar, in order; whatever fails is reported.
package gosudachi
properties C27

// the environment: a plugin's own doing is its own; what has been set up with what is noted for the argument only
ghostfield InputTextPlugin.ready bool
ghostfield OovProviderPlugin.ready *dictionary.Grammar
ghostfield PathRewritePlugin.ready *dictionary.Grammar
ghostfield EditConnectionCostPlugin.ready *dictionary.Grammar
ghostfield EditConnectionCostPlugin.edited *dictionary.Grammar
extern func "gosudachi.InputTextPlugin.SetUp"(p) (err)
  requires p != nil
  modifies p.ready
  ensures err == nil ==> p.ready
extern func "gosudachi.OovProviderPlugin.SetUp"(p, grammar) (err)
  requires p != nil && grammar != nil
  modifies p.ready
  ensures err == nil ==> p.ready == grammar
extern func "gosudachi.PathRewritePlugin.SetUp"(p, grammar) (err)
  requires p != nil && grammar != nil
  modifies p.ready
  ensures err == nil ==> p.ready == grammar
extern func "gosudachi.EditConnectionCostPlugin.SetUp"(p, grammar) (err)
  requires p != nil && grammar != nil
  modifies p.ready
  ensures err == nil ==> p.ready == grammar
extern func "gosudachi.EditConnectionCostPlugin.Edit"(p, grammar) (err)
  requires p != nil && grammar != nil && p.ready == grammar
  modifies p.edited, grammar.connectTableBytes, grammar.connectTableOffset, grammar.isCopiedConnectTable, elems(grammar.connectTableBytes)
  ensures base(grammar.connectTableBytes) == old(base(grammar.connectTableBytes)) || isfresh(grammar.connectTableBytes)
  ensures err == nil ==> p.edited == grammar

func (d *JapaneseDictionary).ReadSystemDictionary(filename, utf16string) (err)
  modifies d.dictionaries, elems(d.dictionaries), d.grammar, d.lexicon
  at call ReadSystemDictionary before { assert[how] $arg0 == filename && $arg1 == utf16string }
  ensures[refused] err != nil ==> d.grammar == old(d.grammar) && d.lexicon == old(d.lexicon) && d.dictionaries == old(d.dictionaries)
  ensures[kind] err == nil ==> len(fileOf(filename)) >= 272 && u64le(fileOf(filename), 0) == 8315566796372513255
  ensures[parts] err == nil ==> d.grammar != nil && isfresh(d.grammar) && d.lexicon != nil && isfresh(d.lexicon) && len(d.lexicon.lexicons) == 1 && d.lexicon.lexicons[0] != nil && d.lexicon.lexicons[0].file == filename
  ensures[own] err == nil ==> isfresh(d.lexicon.lexicons) && isfresh(d.lexicon.posOffsets) && isfresh(d.grammar.posList) && isfresh(d.grammar.connectTableBytes)
  ensures[home] base(d.dictionaries) == old(base(d.dictionaries)) || isfresh(d.dictionaries)
  ensures[kept] err == nil ==> len(d.dictionaries) == old(len(d.dictionaries)) + 1 && d.dictionaries[old(len(d.dictionaries))].Grammar == d.grammar && d.dictionaries[old(len(d.dictionaries))].Lexicon == d.lexicon.lexicons[0]

// the built-in definitions are read where no file is given
extern func "http.FileSystem.Open"(fs, name) (f, err)
  modifies nothing
  ensures err == nil ==> f != nil
extern func "http.File.Close"(f) (err)
  modifies nothing
func (d *JapaneseDictionary).ReadCharacterDefinition(charDef) (err)
  requires d.grammar != nil && data.Assets != nil
  modifies d.grammar.CharCategory
  at call ReadCharacterDefinition before { assume[reading a file ends with an error of its own] $arg1 != nil && $arg1.term != nil && $arg1.term != bufio.ErrBufferFull }
  at call OpenFile before { assert[file] $arg0 == charDef && charDef != "" }
  at call Open before { assert[builtin] charDef == "" && $arg1 == "char.def" }
  ensures[refused] err != nil ==> d.grammar.CharCategory == old(d.grammar.CharCategory)
  ensures[set] err == nil ==> isfresh(d.grammar.CharCategory) && d.grammar.CharCategory != nil && wfCat(d.grammar.CharCategory)

// what a configuration asks for: the edits of the table, the plugins, the user dictionaries
spec func readyAll(d *JapaneseDictionary, ip []InputTextPlugin, op []OovProviderPlugin, pp []PathRewritePlugin) bool =
  (forall k int {ip[k]} :: 0 <= k && k < len(ip) ==> ip[k].ready) &&
  (forall k int {op[k]} :: 0 <= k && k < len(op) ==> op[k].ready == d.grammar) &&
  (forall k int {pp[k]} :: 0 <= k && k < len(pp) ==> pp[k].ready == d.grammar)
func NewJapaneseDictionary(config, inputTextPlugins, oovProviderPlugins, pathRewritePlugins, editConnectionCostPlugins) (d, err)
  requires config != nil && data.Assets != nil && pluginsOk(inputTextPlugins, oovProviderPlugins, pathRewritePlugins)
  requires forall k int {editConnectionCostPlugins[k]} :: 0 <= k && k < len(editConnectionCostPlugins) ==> editConnectionCostPlugins[k] != nil
  modifies all InputTextPlugin.ready, all OovProviderPlugin.ready, all PathRewritePlugin.ready, all EditConnectionCostPlugin.ready, all EditConnectionCostPlugin.edited
  at call ReadSystemDictionary before { assert[how] $arg1 == config.SystemDict && $arg2 == config.Utf16String }
  at call ReadCharacterDefinition before { assert[how] $arg1 == config.CharacterDefinitionFile }
  at call ReadUserDictionary before { assert[how] $arg2 == config.Utf16String
    assume[a dictionary file read holds a well-formed grammar and words] wfGrammar(d.grammar) && d.grammar.leftIdSize >= 1 && d.grammar.rightIdSize >= 1 && wfSet(d.lexicon) && wfListed(d.lexicon) && linkIdsOk(d.lexicon, d.grammar)
    assume[the marks of begin and end are as the program sets them] len(dictionary.BosParameter) == 3 && (forall i int {dictionary.BosParameter[i]} :: 0 <= i && i < 3 ==> dictionary.BosParameter[i] == 0) && len(dictionary.EosParameter) == 3 && (forall i int {dictionary.EosParameter[i]} :: 0 <= i && i < 3 ==> dictionary.EosParameter[i] == 0)
  }
  loop 1:
    invariant[own] isfresh(d.grammar.connectTableBytes)
    invariant[edited] forall k int {editConnectionCostPlugins[k]} :: 0 <= k && k < $i ==> editConnectionCostPlugins[k].ready == d.grammar && editConnectionCostPlugins[k].edited == d.grammar
  loop 2:
    invariant[ready] forall k int {inputTextPlugins[k]} :: 0 <= k && k < $i ==> inputTextPlugins[k].ready
  loop 3:
    invariant[ready] forall k int {oovProviderPlugins[k]} :: 0 <= k && k < $i ==> oovProviderPlugins[k].ready == d.grammar
  loop 4:
    invariant[ready] forall k int {pathRewritePlugins[k]} :: 0 <= k && k < $i ==> pathRewritePlugins[k].ready == d.grammar
  loop 5:
    invariant[own] isfresh(d.dictionaries) && isfresh(d.lexicon.lexicons) && isfresh(d.lexicon.posOffsets) && isfresh(d.grammar.posList)
    invariant[count] len(d.lexicon.lexicons) == 1 + $i
    invariant[files] d.lexicon.lexicons[0].file == config.SystemDict && (forall k int {d.lexicon.lexicons[k]} :: 1 <= k && k <= $i ==> d.lexicon.lexicons[k].file == config.UserDict[k-1])
  ensures[failed] err != nil ==> d == nil
  ensures[providers] err == nil ==> len(oovProviderPlugins) > 0
  ensures[plugins] err == nil ==> d != nil && d.inputTextPlugins == inputTextPlugins && d.oovProviderPlugins == oovProviderPlugins && d.pathRewritePlugins == pathRewritePlugins
  ensures[ready] err == nil ==> readyAll(d, inputTextPlugins, oovProviderPlugins, pathRewritePlugins)
  ensures[edited] err == nil ==> (forall k int {editConnectionCostPlugins[k]} :: 0 <= k && k < len(editConnectionCostPlugins) ==> editConnectionCostPlugins[k].ready == d.grammar && editConnectionCostPlugins[k].edited == d.grammar)
  ensures[files] err == nil ==> len(d.lexicon.lexicons) == 1 + len(config.UserDict) && d.lexicon.lexicons[0].file == config.SystemDict && (forall k int {d.lexicon.lexicons[k]} :: 1 <= k && k <= len(config.UserDict) ==> d.lexicon.lexicons[k].file == config.UserDict[k-1])
  ensures[chars] err == nil ==> d.grammar.CharCategory != nil && wfCat(d.grammar.CharCategory)
func (d *JapaneseDictionary).Create() (t)
  requires d.grammar != nil && wfGrammar(d.grammar) && d.grammar.leftIdSize >= 1 && d.grammar.rightIdSize >= 1
  requires len(dictionary.BosParameter) == 3 && (forall i int {dictionary.BosParameter[i]} :: 0 <= i && i < 3 ==> dictionary.BosParameter[i] == 0)
  requires len(dictionary.EosParameter) == 3 && (forall i int {dictionary.EosParameter[i]} :: 0 <= i && i < 3 ==> dictionary.EosParameter[i] == 0)
  requires d.lexicon != nil && wfSet(d.lexicon) && wfListed(d.lexicon) && linkIdsOk(d.lexicon, d.grammar) && pluginsOk(d.inputTextPlugins, d.oovProviderPlugins, d.pathRewritePlugins)
  modifies nothing
  hide okUnit, relaxed, isCand
  ensures[ready] t != nil && isfresh(t) && wfTokenizer(t) && t.grammar == d.grammar && t.lexicon == d.lexicon
  ensures[plugins] t.inputTextPlugins == d.inputTextPlugins && t.oovProviderPlugins == d.oovProviderPlugins && t.pathRewritePlugins == d.pathRewritePlugins
