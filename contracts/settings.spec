// C19: settings select the configured files and plugins.
package gosudachi
properties C19

// ---- assumed about the libraries
extern func "encoding/json.NewDecoder"(r) (d)
  modifies nothing
  ensures d != nil && isfresh(d)
extern func "(*encoding/json.Decoder).Decode[*struct]"(d, v) (err)
  modifies v.*
  ensures true
extern func "encoding/json.Unmarshal[*struct]"(data, v) (err)
  modifies v.*
  ensures true
// decoding into the configuration of a plugin changes that configuration only
extern func "encoding/json.Unmarshal"(data, v) (err)
  modifies nothing
  ensures true
spec func absPath(s seq[int]) bool
spec func joined(a seq[int], b seq[int]) seq[int]
extern func "path/filepath.IsAbs"(path) (b)
  modifies nothing
  ensures b == absPath(path)
extern func "path/filepath.Join"(elem) (p)
  modifies nothing
  ensures len(elem) == 2 ==> p == joined(elem[0], elem[1])

// ---- paths
spec func resolved(dir string, path string) string = path == "" || absPath(path) || dir == "" ? path : joined(dir, path)
func (settings *SettingsJSON).getPath(path) (r)
  modifies nothing
  ensures[path] r == resolved(settings.path, path)

func (settings *SettingsJSON).ParseSettingsJSON(defpath, reader) (err)
  modifies settings.path, settings.BaseConfig.SystemDict, settings.BaseConfig.CharacterDefinitionFile, settings.BaseConfig.Utf16String, settings.BaseConfig.UserDict, elems(settings.BaseConfig.UserDict), settings.inputTextPlugin, settings.oovProviderPlugin, settings.pathRewritePlugin, settings.editConnectionCostPlugin
  at call Decode before { letv d := $arg1 assert[empty] d.Path == nil && d.SystemDict == nil && d.CharacterDefinitionFile == nil && d.Utf16String == nil && d.UserDict == nil && d.InputTextPlugin == nil && d.OovProviderPlugin == nil && d.PathRewritePlugin == nil && d.EditConnectionCostPlugin == nil }
  at call Decode after { letv failed := $result
    assume[decoded] (d.UserDict != nil ==> isfresh(d.UserDict) && isfresh(*d.UserDict)) && (d.Path != nil ==> isfresh(d.Path)) && (d.SystemDict != nil ==> isfresh(d.SystemDict)) && (d.CharacterDefinitionFile != nil ==> isfresh(d.CharacterDefinitionFile))
    letv dir := d.Path != nil ? *d.Path : (settings.path == "" ? defpath : settings.path)
    letv nu := len(settings.BaseConfig.UserDict)
    letv uds := d.UserDict
  }
  loop 1:
    invariant settings.path == dir && uds != nil && uds == d.UserDict && isfresh(*uds) && nu >= 0 && $i <= len(*uds)
    invariant (base(settings.BaseConfig.UserDict) == old(base(settings.BaseConfig.UserDict)) || isfresh(settings.BaseConfig.UserDict)) && (base(settings.BaseConfig.UserDict) != base(*uds) || base(*uds) == nil) && nu == old(len(settings.BaseConfig.UserDict))
    invariant[added] len(settings.BaseConfig.UserDict) == nu + $i && (forall k int {settings.BaseConfig.UserDict[k]} :: nu <= k && k < nu + $i ==> settings.BaseConfig.UserDict[k] == resolved(dir, (*uds)[k-nu]))
    invariant[kept] forall k int {settings.BaseConfig.UserDict[k]} :: 0 <= k && k < nu ==> settings.BaseConfig.UserDict[k] == old(settings.BaseConfig.UserDict[k])
  at return { if err == nil {
    assert[well] failed == nil
    assert[path] settings.path == dir
    assert[system] settings.BaseConfig.SystemDict == (d.SystemDict != nil ? resolved(dir, *d.SystemDict) : old(settings.BaseConfig.SystemDict))
    assert[chardef] settings.BaseConfig.CharacterDefinitionFile == (d.CharacterDefinitionFile != nil ? resolved(dir, *d.CharacterDefinitionFile) : old(settings.BaseConfig.CharacterDefinitionFile))
    assert[utf16] settings.BaseConfig.Utf16String == (d.Utf16String != nil ? *d.Utf16String : old(settings.BaseConfig.Utf16String))
    assert[userlen] len(settings.BaseConfig.UserDict) == nu + (uds != nil ? len(*uds) : 0) && nu == old(len(settings.BaseConfig.UserDict))
    assert[userkept] forall k int {settings.BaseConfig.UserDict[k]} :: 0 <= k && k < nu ==> settings.BaseConfig.UserDict[k] == old(settings.BaseConfig.UserDict[k])
    assert[useradded] uds != nil ==> (forall k int {settings.BaseConfig.UserDict[k]} :: nu <= k && k < len(settings.BaseConfig.UserDict) ==> settings.BaseConfig.UserDict[k] == resolved(dir, (*uds)[k-nu]))
    assert[input] settings.inputTextPlugin == (d.InputTextPlugin != nil ? *d.InputTextPlugin : old(settings.inputTextPlugin))
    assert[oov] settings.oovProviderPlugin == (d.OovProviderPlugin != nil ? *d.OovProviderPlugin : old(settings.oovProviderPlugin))
    assert[rewrite] settings.pathRewritePlugin == (d.PathRewritePlugin != nil ? *d.PathRewritePlugin : old(settings.pathRewritePlugin))
    assert[edit] settings.editConnectionCostPlugin == (d.EditConnectionCostPlugin != nil ? *d.EditConnectionCostPlugin : old(settings.editConnectionCostPlugin))
  } }
  ensures[failed] err != nil ==> settings.path == old(settings.path) && settings.BaseConfig.SystemDict == old(settings.BaseConfig.SystemDict) && settings.BaseConfig.CharacterDefinitionFile == old(settings.BaseConfig.CharacterDefinitionFile) && settings.BaseConfig.Utf16String == old(settings.BaseConfig.Utf16String) && settings.BaseConfig.UserDict == old(settings.BaseConfig.UserDict)

// ---- plugins
// what makes the plugins is the caller's: any plugin, or none
extern func "gosudachi.MakeInputTextPluginFunc"(n) (p)
  modifies nothing
  ensures true
extern func "gosudachi.InputTextPlugin.GetConfigStruct"(p) (c)
  modifies all DefaultInputTextPlugin.config, all ProlongedSoundMarkInputTextPlugin.config, all MeCabOovProviderPlugin.config, all SimpleOovProviderPlugin.config, all JoinNumericPlugin.config, all JoinKatakanaOovPlugin.config
  ensures true
func (settings *SettingsJSON).GetInputTextPluginArray(makeproc) (ret, err)
  requires makeproc != nil
  modifies all DefaultInputTextPlugin.config, all ProlongedSoundMarkInputTextPlugin.config, all MeCabOovProviderPlugin.config, all SimpleOovProviderPlugin.config, all JoinNumericPlugin.config, all JoinKatakanaOovPlugin.config
  nomerge
  at loop 1 begin { letv n0 := len(ret) letv k0 := $i if k0 < len(settings.inputTextPlugin) { letv entry := settings.inputTextPlugin[k0] } }
  at call Unmarshal before {
    letv raw := $arg0
    assert[own] raw == entry
  }
  at call Unmarshal 1 before { letv pn := $arg1 assert[empty] pn.Class == nil && pn.Name == nil }
  at call Unmarshal 1 after { letv e1 := $result letv want := pn.Name != nil ? *pn.Name : (pn.Class != nil ? *pn.Class : "") }
  at call MakeInputTextPluginFunc before { assert[name] $arg0 == want }
  at call MakeInputTextPluginFunc after { letv made := $result }
  at call GetConfigStruct before { assert[plugin] $arg0 == made }
  at call GetConfigStruct after { letv conf := $result }
  at call Unmarshal 2 before { assert[config] $arg1 == conf }
  at call Unmarshal 2 after { letv e2 := $result }
  at loop 1 end { assert[added] len(ret) == n0 + 1 && ret[n0] == made && made != nil assert[well] e1 == nil && e2 == nil }
  loop 1:
    invariant len(ret) == $i && isfresh(ret)
    invariant settings.inputTextPlugin == old(settings.inputTextPlugin) && (forall k int {settings.inputTextPlugin[k]} :: 0 <= k && k < len(settings.inputTextPlugin) ==> settings.inputTextPlugin[k] == old(settings.inputTextPlugin[k]))
  ensures[all] err == nil ==> len(ret) == len(settings.inputTextPlugin)
// what makes the plugins is the caller's: any plugin, or none
extern func "gosudachi.MakeOovProviderPluginFunc"(n) (p)
  modifies nothing
  ensures true
extern func "gosudachi.OovProviderPlugin.GetConfigStruct"(p) (c)
  modifies all DefaultInputTextPlugin.config, all ProlongedSoundMarkInputTextPlugin.config, all MeCabOovProviderPlugin.config, all SimpleOovProviderPlugin.config, all JoinNumericPlugin.config, all JoinKatakanaOovPlugin.config
  ensures true
func (settings *SettingsJSON).GetOovProviderPluginArray(makeproc) (ret, err)
  requires makeproc != nil
  modifies all DefaultInputTextPlugin.config, all ProlongedSoundMarkInputTextPlugin.config, all MeCabOovProviderPlugin.config, all SimpleOovProviderPlugin.config, all JoinNumericPlugin.config, all JoinKatakanaOovPlugin.config
  nomerge
  at loop 1 begin { letv n0 := len(ret) letv k0 := $i if k0 < len(settings.oovProviderPlugin) { letv entry := settings.oovProviderPlugin[k0] } }
  at call Unmarshal before {
    letv raw := $arg0
    assert[own] raw == entry
  }
  at call Unmarshal 1 before { letv pn := $arg1 assert[empty] pn.Class == nil && pn.Name == nil }
  at call Unmarshal 1 after { letv e1 := $result letv want := pn.Name != nil ? *pn.Name : (pn.Class != nil ? *pn.Class : "") }
  at call MakeOovProviderPluginFunc before { assert[name] $arg0 == want }
  at call MakeOovProviderPluginFunc after { letv made := $result }
  at call GetConfigStruct before { assert[plugin] $arg0 == made }
  at call GetConfigStruct after { letv conf := $result }
  at call Unmarshal 2 before { assert[config] $arg1 == conf }
  at call Unmarshal 2 after { letv e2 := $result }
  at loop 1 end { assert[added] len(ret) == n0 + 1 && ret[n0] == made && made != nil assert[well] e1 == nil && e2 == nil }
  loop 1:
    invariant len(ret) == $i && isfresh(ret)
    invariant settings.oovProviderPlugin == old(settings.oovProviderPlugin) && (forall k int {settings.oovProviderPlugin[k]} :: 0 <= k && k < len(settings.oovProviderPlugin) ==> settings.oovProviderPlugin[k] == old(settings.oovProviderPlugin[k]))
  ensures[all] err == nil ==> len(ret) == len(settings.oovProviderPlugin)
// what makes the plugins is the caller's: any plugin, or none
extern func "gosudachi.MakeEditConnectionCostPluginFunc"(n) (p)
  modifies nothing
  ensures true
extern func "gosudachi.EditConnectionCostPlugin.GetConfigStruct"(p) (c)
  modifies all DefaultInputTextPlugin.config, all ProlongedSoundMarkInputTextPlugin.config, all MeCabOovProviderPlugin.config, all SimpleOovProviderPlugin.config, all JoinNumericPlugin.config, all JoinKatakanaOovPlugin.config
  ensures true
func (settings *SettingsJSON).GetEditConnectionCostPluginArray(makeproc) (ret, err)
  requires makeproc != nil
  modifies all DefaultInputTextPlugin.config, all ProlongedSoundMarkInputTextPlugin.config, all MeCabOovProviderPlugin.config, all SimpleOovProviderPlugin.config, all JoinNumericPlugin.config, all JoinKatakanaOovPlugin.config
  nomerge
  at loop 1 begin { letv n0 := len(ret) letv k0 := $i if k0 < len(settings.editConnectionCostPlugin) { letv entry := settings.editConnectionCostPlugin[k0] } }
  at call Unmarshal before {
    letv raw := $arg0
    assert[own] raw == entry
  }
  at call Unmarshal 1 before { letv pn := $arg1 assert[empty] pn.Class == nil && pn.Name == nil }
  at call Unmarshal 1 after { letv e1 := $result letv want := pn.Name != nil ? *pn.Name : (pn.Class != nil ? *pn.Class : "") }
  at call MakeEditConnectionCostPluginFunc before { assert[name] $arg0 == want }
  at call MakeEditConnectionCostPluginFunc after { letv made := $result }
  at call GetConfigStruct before { assert[plugin] $arg0 == made }
  at call GetConfigStruct after { letv conf := $result }
  at call Unmarshal 2 before { assert[config] $arg1 == conf }
  at call Unmarshal 2 after { letv e2 := $result }
  at loop 1 end { assert[added] len(ret) == n0 + 1 && ret[n0] == made && made != nil assert[well] e1 == nil && e2 == nil }
  loop 1:
    invariant len(ret) == $i && isfresh(ret)
    invariant settings.editConnectionCostPlugin == old(settings.editConnectionCostPlugin) && (forall k int {settings.editConnectionCostPlugin[k]} :: 0 <= k && k < len(settings.editConnectionCostPlugin) ==> settings.editConnectionCostPlugin[k] == old(settings.editConnectionCostPlugin[k]))
  ensures[all] err == nil ==> len(ret) == len(settings.editConnectionCostPlugin)
// what makes the plugins is the caller's: any plugin, or none
extern func "gosudachi.MakePathRewritePluginFunc"(n) (p)
  modifies nothing
  ensures true
extern func "gosudachi.PathRewritePlugin.GetConfigStruct"(p) (c)
  modifies all DefaultInputTextPlugin.config, all ProlongedSoundMarkInputTextPlugin.config, all MeCabOovProviderPlugin.config, all SimpleOovProviderPlugin.config, all JoinNumericPlugin.config, all JoinKatakanaOovPlugin.config
  ensures true
func (settings *SettingsJSON).GetPathRewritePluginArray(makeproc) (ret, err)
  requires makeproc != nil
  modifies all DefaultInputTextPlugin.config, all ProlongedSoundMarkInputTextPlugin.config, all MeCabOovProviderPlugin.config, all SimpleOovProviderPlugin.config, all JoinNumericPlugin.config, all JoinKatakanaOovPlugin.config
  nomerge
  at loop 1 begin { letv n0 := len(ret) letv k0 := $i if k0 < len(settings.pathRewritePlugin) { letv entry := settings.pathRewritePlugin[k0] } }
  at call Unmarshal before {
    letv raw := $arg0
    assert[own] raw == entry
  }
  at call Unmarshal 1 before { letv pn := $arg1 assert[empty] pn.Class == nil && pn.Name == nil }
  at call Unmarshal 1 after { letv e1 := $result letv want := pn.Name != nil ? *pn.Name : (pn.Class != nil ? *pn.Class : "") }
  at call MakePathRewritePluginFunc before { assert[name] $arg0 == want }
  at call MakePathRewritePluginFunc after { letv made := $result }
  at call GetConfigStruct before { assert[plugin] $arg0 == made }
  at call GetConfigStruct after { letv conf := $result }
  at call Unmarshal 2 before { assert[config] $arg1 == conf }
  at call Unmarshal 2 after { letv e2 := $result }
  at loop 1 end { assert[added] len(ret) == n0 + 1 && ret[n0] == made && made != nil assert[well] e1 == nil && e2 == nil }
  loop 1:
    invariant len(ret) == $i && isfresh(ret)
    invariant settings.pathRewritePlugin == old(settings.pathRewritePlugin) && (forall k int {settings.pathRewritePlugin[k]} :: 0 <= k && k < len(settings.pathRewritePlugin) ==> settings.pathRewritePlugin[k] == old(settings.pathRewritePlugin[k]))
  ensures[all] err == nil ==> len(ret) == len(settings.pathRewritePlugin)

// ---- the plugins that come with the program, by name
func DefMakeInputTextPlugin(k) (p)
  modifies nothing
  ensures[DefaultInputTextPlugin] (k == "DefaultInputTextPlugin" || k == "com.worksap.nlp.sudachi.DefaultInputTextPlugin") ==> p != nil && typeis(p, *DefaultInputTextPlugin) && isfresh(as(p, *DefaultInputTextPlugin))
  ensures[ProlongedSoundMarkInputTextPlugin] (k == "ProlongedSoundMarkInputTextPlugin" || k == "com.worksap.nlp.sudachi.ProlongedSoundMarkInputTextPlugin") ==> p != nil && typeis(p, *ProlongedSoundMarkInputTextPlugin) && isfresh(as(p, *ProlongedSoundMarkInputTextPlugin))
  ensures[other] !((k == "DefaultInputTextPlugin" || k == "com.worksap.nlp.sudachi.DefaultInputTextPlugin") || (k == "ProlongedSoundMarkInputTextPlugin" || k == "com.worksap.nlp.sudachi.ProlongedSoundMarkInputTextPlugin")) ==> p == nil
func DefMakeEditConnectionCostPlugin(k) (p)
  modifies nothing
  ensures[InhibitConnectionPlugin] (k == "InhibitConnectionPlugin" || k == "com.worksap.nlp.sudachi.InhibitConnectionPlugin") ==> p != nil && typeis(p, *InhibitConnectionPlugin) && isfresh(as(p, *InhibitConnectionPlugin))
  ensures[other] !((k == "InhibitConnectionPlugin" || k == "com.worksap.nlp.sudachi.InhibitConnectionPlugin")) ==> p == nil
func DefMakeOovProviderPlugin(k) (p)
  modifies nothing
  ensures[MeCabOovProviderPlugin] (k == "MeCabOovProviderPlugin" || k == "com.worksap.nlp.sudachi.MeCabOovProviderPlugin") ==> p != nil && typeis(p, *MeCabOovProviderPlugin) && isfresh(as(p, *MeCabOovProviderPlugin))
  ensures[SimpleOovProviderPlugin] (k == "SimpleOovProviderPlugin" || k == "com.worksap.nlp.sudachi.SimpleOovProviderPlugin") ==> p != nil && typeis(p, *SimpleOovProviderPlugin) && isfresh(as(p, *SimpleOovProviderPlugin))
  ensures[other] !((k == "MeCabOovProviderPlugin" || k == "com.worksap.nlp.sudachi.MeCabOovProviderPlugin") || (k == "SimpleOovProviderPlugin" || k == "com.worksap.nlp.sudachi.SimpleOovProviderPlugin")) ==> p == nil
func DefMakePathRewritePlugin(k) (p)
  modifies nothing
  ensures[JoinNumericPlugin] (k == "JoinNumericPlugin" || k == "com.worksap.nlp.sudachi.JoinNumericPlugin") ==> p != nil && typeis(p, *JoinNumericPlugin) && isfresh(as(p, *JoinNumericPlugin))
  ensures[JoinKatakanaOovPlugin] (k == "JoinKatakanaOovPlugin" || k == "com.worksap.nlp.sudachi.JoinKatakanaOovPlugin") ==> p != nil && typeis(p, *JoinKatakanaOovPlugin) && isfresh(as(p, *JoinKatakanaOovPlugin))
  ensures[other] !((k == "JoinNumericPlugin" || k == "com.worksap.nlp.sudachi.JoinNumericPlugin") || (k == "JoinKatakanaOovPlugin" || k == "com.worksap.nlp.sudachi.JoinKatakanaOovPlugin")) ==> p == nil
func (p *ProlongedSoundMarkInputTextPlugin).GetConfigStruct() (c)
  requires p != nil
  modifies p.config
  ensures typeis(c, *ProlongedSoundMarkInputTextPluginConfig) && as(c, *ProlongedSoundMarkInputTextPluginConfig) == p.config && p.config != nil && (old(p.config) != nil ==> p.config == old(p.config))
func (p *MeCabOovProviderPlugin).GetConfigStruct() (c)
  requires p != nil
  modifies p.config
  ensures typeis(c, *MeCabOovProviderPluginConfig) && as(c, *MeCabOovProviderPluginConfig) == p.config && p.config != nil && (old(p.config) != nil ==> p.config == old(p.config))
func (p *SimpleOovProviderPlugin).GetConfigStruct() (c)
  requires p != nil
  modifies p.config
  ensures typeis(c, *SimpleOovProviderPluginConfig) && as(c, *SimpleOovProviderPluginConfig) == p.config && p.config != nil && (old(p.config) != nil ==> p.config == old(p.config))
func (p *JoinNumericPlugin).GetConfigStruct() (c)
  requires p != nil
  modifies p.config
  ensures typeis(c, *JoinNumericPluginConfig) && as(c, *JoinNumericPluginConfig) == p.config && p.config != nil && (old(p.config) != nil ==> p.config == old(p.config))
func (p *JoinKatakanaOovPlugin).GetConfigStruct() (c)
  requires p != nil
  modifies p.config
  ensures typeis(c, *JoinKatakanaOovPluginConfig) && as(c, *JoinKatakanaOovPluginConfig) == p.config && p.config != nil && (old(p.config) != nil ==> p.config == old(p.config))
func (p *InhibitConnectionPlugin).GetConfigStruct() (c)
  modifies nothing
  ensures typeis(c, *InhibitConnectionPlugin) && as(c, *InhibitConnectionPlugin) == p
