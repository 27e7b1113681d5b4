// C05: the default normaliser rewrites by its table, by lower case and by NFKC.
package gosudachi
properties C05

// ---- facts assumed about the libraries
spec func lowerOf(r int) int
spec func normForm(f norm.Form, s seq[int]) seq[int]
extern func "unicode.ToLower"(r) (l)
  modifies nothing
  ensures l == lowerOf(r) && (validRune(r) ==> validRune(l))
extern func "unicode/utf8.EncodeRune"(p, r) (n)
  requires len(p) >= 4
  modifies elems(p)
  ensures n == len(strOfRunes([r])) && 0 <= n && n <= 4 && seq(p, 0, n) == strOfRunes([r])
extern func "(golang.org/x/text/unicode/norm.Form).Bytes"(f, b) (res)
  modifies nothing
  ensures seq(res) == normForm(f, seq(b)) && (isfresh(res) || base(res) == base(b))
axiom runesSome(s seq[int])
  ensures len(s) > 0 ==> len(runes(s)) > 0
  note "a string that is not empty has a character"
// ---- the table: longest keys are known by their first character
spec func wfTable(p *DefaultInputTextPlugin) bool =
  p.replaceCharMap != nil && p.keyLengths != nil && p.ignoreNormalizeMap != nil &&
  (forall k string {k in p.replaceCharMap} :: (k in p.replaceCharMap) ==> len(runes(k)) > 0 && (runes(k)[0] in p.keyLengths) && p.keyLengths[runes(k)[0]] >= len(runes(k)))

// ---- what the normaliser makes of a text
spec rec func keyIn(p *DefaultInputTextPlugin, s seq[int], i int, l int) bool decreases 0 = strOfRunes(seq(s, i, i+l)) in p.replaceCharMap
// length of the longest key of at most l characters at i, 0 if there is none
spec rec func longestKey(p *DefaultInputTextPlugin, s seq[int], i int, l int) int decreases l =
  l <= 0 ? 0 : (keyIn(p, s, i, l) ? l : longestKey(p, s, i, l-1))
spec func normChar(p *DefaultInputTextPlugin, c int) seq[int] =
  (lowerOf(c) in p.ignoreNormalizeMap) ? [lowerOf(c)] : runes(normForm(norm.NFKC, strOfRunes([lowerOf(c)])))
spec rec func normFrom(p *DefaultInputTextPlugin, s seq[int], i int) seq[int] decreases len(s) - i =
  i < 0 || i >= len(s) ? seq(s, 0, 0) :
  (longestKey(p, s, i, len(s)-i) > 0 && longestKey(p, s, i, len(s)-i) <= len(s) - i ?
    seq(p.replaceCharMap[strOfRunes(seq(s, i, i+longestKey(p, s, i, len(s)-i)))]) ++ normFrom(p, s, i + longestKey(p, s, i, len(s)-i)) :
    normChar(p, s[i]) ++ normFrom(p, s, i+1))

// what the table puts in a text is not empty and made of characters (the table file's fields are; NFKC's results are, an assumption)
spec func fullTable(p *DefaultInputTextPlugin) bool = forall k string {p.replaceCharMap[k]} :: (k in p.replaceCharMap) ==> len(p.replaceCharMap[k]) > 0 && validRunes(seq(p.replaceCharMap[k]))
axiom normFormText(f norm.Form, s seq[int])
  ensures len(s) > 0 ==> len(runes(normForm(f, s))) > 0 && validRunes(runes(normForm(f, s)))
  note "the normalisation form of a text that is not empty is valid UTF-8 and not empty"
lemma longestSkip(p *DefaultInputTextPlugin, s seq[int], i int, l int, n int)
  requires p != nil && 0 <= l && l <= n && (forall m int {keyIn(p, s, i, m)} :: l < m && m <= n ==> !keyIn(p, s, i, m))
  ensures longestKey(p, s, i, n) == longestKey(p, s, i, l)
  decreases n
  proof { if l < n { use longestSkip(p, s, i, l, n-1) } }

func (p *DefaultInputTextPlugin).Rewrite(builder) (err)
  requires builder != nil && wfBuilder(builder) && wfTable(p) && validRunes(seq(builder.modifiedRunes))
  requires forall k string {p.replaceCharMap[k]} :: (k in p.replaceCharMap) ==> base(p.replaceCharMap[k]) != base(builder.modifiedRunes) && allocated(p.replaceCharMap[k])
  modifies builder.modifiedRunes, builder.textOffsets, elems(builder.modifiedRunes), elems(builder.textOffsets)
  at entry { letv s := seq(builder.modifiedRunes) letv want := normFrom(p, s, 0) }
  loop 1:
    invariant[ok] old(builderOk(builder) && fullTable(p)) ==> builderOk(builder)
    invariant 0 <= i && i <= len(s) && seq(runes) == s && isfresh(runes) && (base(runes) != base(builder.modifiedRunes) || base(runes) == nil) && wfBuilder(builder)
    invariant base(builder.modifiedRunes) == old(base(builder.modifiedRunes)) || isfresh(builder.modifiedRunes)
    invariant base(builder.textOffsets) == old(base(builder.textOffsets)) || isfresh(builder.textOffsets)
    invariant i + offset + nextOffset == len(builder.modifiedRunes) - (len(s) - i) && 0 <= i + offset + nextOffset
    invariant seq(builder.modifiedRunes, i + offset + nextOffset, len(builder.modifiedRunes)) == seq(s, i, len(s))
    invariant seq(builder.modifiedRunes, 0, i + offset + nextOffset) ++ old(normFrom(p, s, i)) == want
    decreases len(s) - i
  at loop 1 begin {
    letv i0 := i
    letv t0 := seq(builder.modifiedRunes)
    letv d0 := i + offset + nextOffset
    if i < len(s) {
      use forall m int {keyIn(p, s, i, m)} :: encLen(seq(s, i, i+m))
      assert[keys] forall m int {keyIn(p, s, i, m)} :: 0 < m && m <= len(s) - i && keyIn(p, s, i, m) ==> (s[i] in p.keyLengths) && p.keyLengths[s[i]] >= m
      use restStep(s, i)
    }
  }
  loop 2:
    invariant l <= len(s) - i && 0 <= i && i == i0 && i < len(s)
    invariant[longer] forall m int {keyIn(p, s, i, m)} :: (l < 0 ? 0 : l) < m && m <= len(s) - i ==> !keyIn(p, s, i, m)
    decreases l
  nomerge
  at loop 1 end {
    letv t1 := seq(builder.modifiedRunes)
    letv d1 := i + offset + nextOffset
    letv r1 := seq(t1, d0, d1)
    use subSub(t0, d0, len(t0), 1, len(t0) - d0)
    use subSub(s, i0, len(s), 1, len(s) - i0)
    assert[char] t0[d0] == s[i0]
    if t1 == t0 && d1 == d0 + 1 { assert[same] seq(t1, d1, len(t1)) == seq(s, i, len(s)) assert[one] r1 == [s[i0]] }
    assert[rest] seq(t1, d1, len(t1)) == seq(s, i, len(s))
    assert[kept] seq(t1, 0, d1) == seq(t0, 0, d0) ++ r1
    assert[step] old(normFrom(p, s, i0)) == r1 ++ old(normFrom(p, s, i))
    letv rest := old(normFrom(p, s, i))
    letv done := seq(t0, 0, d0)
    use concatAssoc(done, r1, rest)
    assert[before] done ++ (r1 ++ rest) == want
    assert[want] seq(t1, 0, d1) ++ rest == want
  }
  at loop 2 exit {
    if l > 0 { use longestSkip(p, s, i0, l, len(s) - i0) assert[found] longestKey(p, s, i0, len(s)-i0) == l }
    else { use longestSkip(p, s, i0, 0, len(s) - i0) assert[none] longestKey(p, s, i0, len(s)-i0) == 0 }
  }
  at call EncodeRune before { assert[valid] validRune(s[i]) && validRune(lower) assert[one] validRunes([lower]) use encLen([lower]) use normFormText(norm.NFKC, strOfRunes([lower])) assert[some] boff([lower], 1) == boff([lower], 0) + rlen(lower) }
  at call Replace 2 before { assert[full] len($arg3) > 0 && validRunes(seq($arg3)) }
  at call Replace before { letv rep := seq($arg3) letv n := $arg2 - $arg1 assert[place] $arg1 == d0 && $arg0 == builder assert[rep] old(normFrom(p, s, i0)) == rep ++ old(normFrom(p, s, i0 + n)) }
  at call Replace after {
    use spliceSeq(t0, seq(t0, 0, d0), seq(s, i0, len(s)), d0, d0 + n, rep, seq(builder.modifiedRunes))
    use subSub(s, i0, len(s), n, len(s) - i0)
    assert[rest] seq(builder.modifiedRunes) == seq(t0, 0, d0) ++ rep ++ seq(s, i0 + n, len(s))
  }
  ensures[normalised] err == nil && seq(builder.modifiedRunes) == old(normFrom(p, seq(builder.modifiedRunes), 0))
  ensures wfBuilder(builder)
  ensures[ok] old(builderOk(builder) && fullTable(p)) ==> builderOk(builder)
  ensures[own] (base(builder.modifiedRunes) == old(base(builder.modifiedRunes)) || isfresh(builder.modifiedRunes)) && (base(builder.textOffsets) == old(base(builder.textOffsets)) || isfresh(builder.textOffsets))

// ---- the table file: what its lines say
spec rec func skipLine(l seq[int]) bool decreases 0 = (len(l) > 0 && l[0] == 35) || (forall j int {l[j]} :: 0 <= j && j < len(l) ==> l[j] == 32 || l[j] == 10 || l[j] == 9)
spec func lineDefines(l seq[int], k seq[int]) bool = !skipLine(l) && nFields(l) == 2 && fieldAt(l, 0) == k
spec func lineExempts(l seq[int], c int) bool = !skipLine(l) && nFields(l) == 1 && len(runes(fieldAt(l, 0))) == 1 && runes(fieldAt(l, 0))[0] == c
spec func lineOk(l seq[int]) bool = skipLine(l) || nFields(l) == 2 || (nFields(l) == 1 && len(runes(fieldAt(l, 0))) == 1)
spec rec func restShort(R seq[int]) bool decreases 0 = len(restOf(R)) < len(R)
lemma nlIndexRange(R seq[int], i int)
  requires 0 <= i && i <= len(R)
  ensures nlIndex(R, i) < 0 || (i <= nlIndex(R, i) && nlIndex(R, i) < len(R))
  decreases len(R) - i
  proof { if i < len(R) { use nlIndexRange(R, i+1) } }
lemma restShorter(R seq[int])
  requires len(R) > 0
  ensures restShort(R)
  proof { use nlIndexRange(R, 0) }
// how many lines of R define key k, the first definition, whether some line exempts a character, whether every line is well formed
spec rec func defsIn(R seq[int], k seq[int]) int decreases len(R) = len(R) == 0 || !restShort(R) ? 0 : (lineDefines(lineOf(R), k) ? 1 : 0) + defsIn(restOf(R), k)
spec rec func defOf(R seq[int], k seq[int]) seq[int] decreases len(R) = len(R) == 0 || !restShort(R) ? seq(R, 0, 0) : (lineDefines(lineOf(R), k) ? fieldAt(lineOf(R), 1) : defOf(restOf(R), k))
spec rec func exemptIn(R seq[int], c int) bool decreases len(R) = len(R) > 0 && restShort(R) && (lineExempts(lineOf(R), c) || exemptIn(restOf(R), c))
spec rec func tableOk(R seq[int]) bool decreases len(R) = len(R) == 0 || !restShort(R) || (lineOk(lineOf(R)) && tableOk(restOf(R)))

ghostfield DefaultInputTextPlugin.tableRead bool
func (p *DefaultInputTextPlugin).readRewriteLists(rewriteDef) (err)
  requires wfTable(p) && data.Assets != nil
  modifies map(p.replaceCharMap), map(p.keyLengths), map(p.ignoreNormalizeMap), p.tableRead
  at entry { ghost p.tableRead := false }
  at call NewLineNumberReader before { assume[reader] $arg0.term != nil && $arg0.term != bufio.ErrBufferFull }
  at call NewLineNumberReader after { letv R0 := $result.r.rest }
  loop 1:
    invariant wfTable(p)
    invariant[reader] (isfresh(r.rawBuffer) || r.rawBuffer == nil) && isfresh(r.r.buf) && (r.rawBuffer == nil || base(r.rawBuffer) != base(r.r.buf))
    invariant[once] forall k string {defsIn(R0, k)} {k in p.replaceCharMap} :: ((k in p.replaceCharMap) ? 1 : 0) + defsIn(r.r.rest, k) == (old(k in p.replaceCharMap) ? 1 : 0) + defsIn(R0, k)
    invariant[exempt] forall c int {exemptIn(R0, c)} {c in p.ignoreNormalizeMap} :: ((c in p.ignoreNormalizeMap) || exemptIn(r.r.rest, c)) == (old(c in p.ignoreNormalizeMap) || exemptIn(R0, c))
    invariant[first] forall k string {defOf(R0, k)} {k in p.replaceCharMap} :: !(k in p.replaceCharMap) ==> defOf(R0, k) == defOf(r.r.rest, k)
    invariant[value] forall k string {p.replaceCharMap[k]} :: (k in p.replaceCharMap) && !old(k in p.replaceCharMap) ==> seq(p.replaceCharMap[k]) == runes(defOf(R0, k)) && isfresh(p.replaceCharMap[k])
    invariant[kept] forall k string {p.replaceCharMap[k]} :: old(k in p.replaceCharMap) ==> (k in p.replaceCharMap) && p.replaceCharMap[k] == old(p.replaceCharMap[k])
    invariant[wellformed] tableOk(R0) == tableOk(r.r.rest)
  nomerge
  at loop 1 begin { letv R := r.r.rest if len(R) > 0 { use restShorter(R) } }
  at call ReadLine after { letv failed := $result1 letv L := lineOf(R) if failed == nil { assert[line] seq($result0) == L && r.r.rest == restOf(R) && len(R) > 0 } }
  at call IsSkipLine after { letv l0 := $arg0 assert[bytes] (forall j int {l0[j]} :: 0 <= j && j < len(l0) ==> l0[j] == L[j]) && (forall j int {L[j]} :: 0 <= j && j < len(L) ==> l0[j] == L[j]) assert[skip] $result == skipLine(L) }
  at call Fields after { assert[fields] $arg0 == L && !skipLine(L) use forall i int {fieldAt(L, i)} :: runesSome(fieldAt(L, i)) }
  at loop 1 exit { if failed == io.EOF { assert[all] len(R) == 0 assert[once] forall k string {defsIn(R0, k)} {k in p.replaceCharMap} :: ((k in p.replaceCharMap) ? 1 : 0) == (old(k in p.replaceCharMap) ? 1 : 0) + defsIn(R0, k)
      assert[exempt] forall c int {exemptIn(R0, c)} {c in p.ignoreNormalizeMap} :: (c in p.ignoreNormalizeMap) == (old(c in p.ignoreNormalizeMap) || exemptIn(R0, c))
      assert[wellformed] tableOk(R0) } ghost p.tableRead := failed == io.EOF && len(R) == 0 && tableOk(R0) }
  ensures[whole] err == nil ==> p.tableRead
  ensures wfTable(p)

func (p *DefaultInputTextPlugin).SetUp() (err)
  requires p.config != nil && data.Assets != nil
  requires p.replaceCharMap == nil || wfTable(p)
  modifies p.config, p.rewriteDef, p.ignoreNormalizeMap, p.keyLengths, p.replaceCharMap, p.tableRead, map(p.ignoreNormalizeMap), map(p.keyLengths), map(p.replaceCharMap)
  ensures[whole] err == nil ==> p.tableRead
  ensures wfTable(p)
  at call readRewriteLists before { assert[file] $arg0 == p && $arg1 == (old(p.rewriteDef) == "" ? old(p.config.RewriteDef) : old(p.rewriteDef)) }
func (p *DefaultInputTextPlugin).GetConfigStruct() (c)
  modifies p.config
  ensures typeis(c, *DefaultInputTextPluginConfig) && as(c, *DefaultInputTextPluginConfig) == p.config && p.config != nil && (old(p.config) != nil ==> p.config == old(p.config))
func NewDefaultInputTextPlugin(config) (p)
  modifies nothing
  ensures p != nil && isfresh(p) && wfTable(p) && p.config != nil && p.rewriteDef == "" && (config != nil ==> p.config == config)
  ensures[empty] forall k string {k in p.replaceCharMap} :: !(k in p.replaceCharMap)
  ensures[none] forall c int {c in p.ignoreNormalizeMap} :: !(c in p.ignoreNormalizeMap)
