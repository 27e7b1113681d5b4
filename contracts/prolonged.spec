package gosudachi
properties C06

// the interface every input text plugin meets: it edits through Replace only
spec rec func markStart(p *ProlongedSoundMarkInputTextPlugin, s seq[int], n int) int decreases n =
  n <= 0 || !(s[n-1] in p.prolongedSoundMarkMap) ? n : markStart(p, s, n-1)
// the first n characters of s with every run of two or more marks replaced by the symbol
spec rec func collapsed(p *ProlongedSoundMarkInputTextPlugin, rep seq[int], s seq[int], n int) seq[int] decreases n =
  n <= 0 ? seq(s, 0, 0) :
  (s[n-1] in p.prolongedSoundMarkMap) && n - markStart(p, s, n) >= 2 && markStart(p, s, n) >= 0 ? collapsed(p, rep, s, markStart(p, s, n)) ++ rep :
  collapsed(p, rep, s, n-1) ++ [s[n-1]]
lemma markStartRange(p *ProlongedSoundMarkInputTextPlugin, s seq[int], n int)
  requires p != nil && 0 <= n && n <= len(s)
  ensures 0 <= markStart(p, s, n) && markStart(p, s, n) <= n
  decreases n
  proof { if n > 0 && (s[n-1] in p.prolongedSoundMarkMap) { use markStartRange(p, s, n-1) } }

func (p *ProlongedSoundMarkInputTextPlugin).Rewrite(builder) (err)
  requires builder != nil && wfBuilder(builder) && base(p.replacementSymbol) != nil && base(p.replacementSymbol) != base(builder.modifiedRunes)
  modifies builder.modifiedRunes, builder.textOffsets, elems(builder.modifiedRunes), elems(builder.textOffsets)
  at entry { letv s := seq(builder.modifiedRunes) letv rep := seq(p.replacementSymbol) }
  nomerge
  loop 1:
    invariant 0 <= i && i <= runelen && seq(runes) == s && runelen == len(s) && base(p.replacementSymbol) != base(builder.modifiedRunes)
    invariant seq(p.replacementSymbol) == rep && wfBuilder(builder) && (base(runes) != base(builder.modifiedRunes) || base(runes) == nil)
    invariant base(builder.modifiedRunes) == old(base(builder.modifiedRunes)) || isfresh(builder.modifiedRunes)
    invariant base(builder.textOffsets) == old(base(builder.textOffsets)) || isfresh(builder.textOffsets)
    invariant[ok] old(builderOk(builder)) && len(rep) > 0 && validRunes(rep) ==> builderOk(builder)
    invariant isProlongedSoundMark ==> markStartIndex < i && 0 <= markStartIndex && markStart(p, s, i) == markStartIndex
    invariant !isProlongedSoundMark ==> markStart(p, s, i) == i
    invariant let m := isProlongedSoundMark ? markStartIndex : i :: (len(collapsed(p, rep, s, m)) == m - offset && seq(builder.modifiedRunes) == collapsed(p, rep, s, m) ++ seq(s, m, len(s)))
    decreases runelen - i
  at call Replace before { letv t0 := seq(builder.modifiedRunes) }
  at call Replace after {
    use spliceSeq(t0, collapsed(p, rep, s, markStartIndex), seq(s, markStartIndex, len(s)), markStartIndex - offset, i - offset, rep, seq(builder.modifiedRunes))
    use subSub(s, markStartIndex, len(s), i - markStartIndex, len(s) - markStartIndex)
    assert seq(builder.modifiedRunes) == collapsed(p, rep, s, i) ++ seq(s, i, len(s))
    if i < runelen { use restStep(s, i) }
  }
  ensures[collapsed] err == nil && seq(builder.modifiedRunes) == old(collapsed(p, seq(p.replacementSymbol), seq(builder.modifiedRunes), len(builder.modifiedRunes)))
  ensures wfBuilder(builder)
  ensures[ok] old(builderOk(builder)) && len(p.replacementSymbol) > 0 && old(validRunes(seq(p.replacementSymbol))) ==> builderOk(builder)
  ensures[own] (base(builder.modifiedRunes) == old(base(builder.modifiedRunes)) || isfresh(builder.modifiedRunes)) && (base(builder.textOffsets) == old(base(builder.textOffsets)) || isfresh(builder.textOffsets))

// the configured marks are the first characters of the strings given
spec func isMarkOf(m []string, n int, r int) bool = exists k int {m[k]} :: 0 <= k && k < n && len(runes(m[k])) > 0 && runes(m[k])[0] == r
func (p *ProlongedSoundMarkInputTextPlugin).SetUp() (err)
  requires p.config != nil
  modifies p.config, p.prolongedSoundMarkMap, p.replacementSymbol, map(p.prolongedSoundMarkMap)
  loop 1:
    invariant p.prolongedSoundMarkMap != nil && (p.prolongedSoundMarkMap == old(p.prolongedSoundMarkMap) || isfresh(p.prolongedSoundMarkMap)) && p.config == old(p.config)
    invariant forall r int {r in p.prolongedSoundMarkMap} :: (r in p.prolongedSoundMarkMap) == (old(p.prolongedSoundMarkMap != nil && (r in p.prolongedSoundMarkMap)) || isMarkOf(*p.config.ProlongedSoundMarks, $i, r))
  ensures[spec] (err == nil) == old(p.config.ProlongedSoundMarks != nil && len(*p.config.ProlongedSoundMarks) > 0 && p.config.ReplacementSymbol != nil)
  ensures[symbol] err == nil ==> seq(p.replacementSymbol) == old(runes(*p.config.ReplacementSymbol)) && isfresh(p.replacementSymbol)
  ensures[marks] err == nil ==> forall r int {r in p.prolongedSoundMarkMap} :: (r in p.prolongedSoundMarkMap) == old((p.prolongedSoundMarkMap != nil && (r in p.prolongedSoundMarkMap)) || isMarkOf(*p.config.ProlongedSoundMarks, len(*p.config.ProlongedSoundMarks), r))
