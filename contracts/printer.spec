// C23: the printer writes every word as stored.
package dictionary
properties C23
spec rec func joinSeq(s seq[string], n int, sep string) string decreases n = n <= 0 ? seq(sep, 0, 0) : (n == 1 ? s[0] : joinSeq(s, n-1, sep) ++ sep ++ s[n-1])
extern func "strings.Join"(a, sep) (r)
  modifies nothing
  ensures r == joinSeq(seq(a), len(a), sep)
spec func itoa(n int) string
extern func "strconv.Itoa"(n) (r)
  modifies nothing
  ensures r == itoa(n)

func wordIdToString(wid) (r)
  modifies nothing
  ensures[form] r == (wid < 0 ? "*" : itoa(wid))
func getUnitType(wi) (r)
  requires wi != nil
  modifies nothing
  ensures[unit] r == (len(wi.AUnitSplit) == 0 ? "A" : (len(wi.BUnitSplit) == 0 ? "B" : "C"))
spec rec func splitText(s seq[int], n int) string decreases n = n <= 0 ? "" : (n == 1 ? itoa(s[0]) : splitText(s, n-1) ++ "/" ++ itoa(s[n-1]))
lemma joinSplit(S seq[string], s seq[int], n int)
  requires 0 <= n && n <= len(S) && n <= len(s) && (forall k int {S[k]} :: 0 <= k && k < n ==> S[k] == itoa(s[k]))
  ensures joinSeq(S, n, "/") == splitText(s, n)
  decreases n
  proof { if n > 1 { use joinSplit(S, s, n-1) } }
func splitToString(split) (r)
  modifies nothing
  at call Join before { letv S := seq($arg0) letv s0 := seq(split) assert[parts] forall k int {S[k]} :: 0 <= k && k < len(S) ==> S[k] == itoa(s0[k]) use joinSplit(S, s0, len(s0)) }
  loop 1:
    invariant isfresh(splitstrs) && len(splitstrs) == $i && (forall k int {splitstrs[k]} :: 0 <= k && k < $i ==> splitstrs[k] == itoa(split[k]))
  ensures[split] r == (len(split) == 0 ? "*" : splitText(seq(split), len(split)))

// the part-of-speech names of number k
spec rec func posText(g *Grammar, k int) string decreases 0 = joinSeq(seq(g.posList[k]), len(g.posList[k]), ",")
func (bd *BinaryDictionary).Close() (err)
  property C23
  modifies nothing
  ensures true
func PrintDictionary(filename, utf16string, systemDict, output) (err)
  property C23
  requires systemDict != nil ==> systemDict.Grammar != nil
  modifies nothing
  nomerge
  at call NewBinaryDictionary after { letv d := $result0
    if $result1 == nil {
      // the file holds a dictionary (what C12 is about), with no more parts of speech than ids
      assume[dictionary] wfLex(d.Lexicon) && (d.Grammar != nil ==> 0 <= len(d.Grammar.posList) && len(d.Grammar.posList) <= 32767) && (systemDict != nil ==> 0 <= len(systemDict.Grammar.posList) && len(systemDict.Grammar.posList) <= 32767)
      letv own := d.Header.Version == dictionary.UserDictVersion2 ? len(d.Grammar.posList) : 0
      letv L := d.Lexicon
      letv I := L.wordInfos
      letv P := L.wordParams
      letv b := seq(I.bytebuffer)
      letv w := wide(I)
      letv g := d.Header.Version == dictionary.SystemDictVersion ? d.Grammar : systemDict.Grammar
    }
  }
    loop 1:
    invariant forall k int {g.posList[k]} :: 0 <= k && k < len(g.posList) ==> g.posList[k] == snapped("opened", g.posList[k]) && mem(g.posList[k]) == snapped("opened", mem(g.posList[k]))
    invariant G != nil ==> forall k int {G.posList[k]} :: 0 <= k && k < len(G.posList) ==> G.posList[k] == snapped("opened", G.posList[k]) && mem(G.posList[k]) == snapped("opened", mem(G.posList[k]))
    invariant 0 <= pid && pid <= possize && possize == len(g.posList) && g == grammar && d == dic && isfresh(posStrings) && !snapped("opened", allocated(posStrings)) && len(posStrings) == pid
    invariant forall k int {posStrings[k]} :: 0 <= k && k < pid ==> posStrings[k] == snapped("opened", posText(g, k))
  at call GetPartOfSpeechSize 1 before {
    snap opened
    letv total := len(g.posList) + own
    letv G := d.Grammar
    // whatever is stored has been allocated
    assume[heap] (forall k int {g.posList[k]} :: 0 <= k && k < len(g.posList) ==> allocated(g.posList[k])) && (G != nil ==> (forall k int {G.posList[k]} :: 0 <= k && k < len(G.posList) ==> allocated(G.posList[k])))
  }
  at call GetPartOfSpeechString after { letv k := $arg1 letv gr := $arg0 letv R := seq($result) assert[range] 0 <= k && k < len(gr.posList) letv pl := gr.posList[k] assert[same] pl == snapped("opened", gr.posList[k]) && snapped("opened", allocated(pl)) assert[bytes] forall j int {pl[j]} :: 0 <= j && j < len(pl) ==> pl[j] == snapped("opened", pl[j]) assert[names] R == snapped("opened", seq(gr.posList[k])) }
  at call Join before { assert[comma] $arg1 == "," && seq($arg0) == R && len($arg0) == len(R) }
  at call Join after { assert[text] $result == snapped("opened", posText(gr, k)) }
  at call GetWordInfo after { letv o := wordAt(I, $arg1)
    // a word's part of speech is one of the dictionary's
    assume[pos] 0 <= rPos(w, b, o) && rPos(w, b, o) < total
    letv wi0 := $result
    letv pn := rPos(w, b, o)
    letv dic0 := rDic(w, b, o)
    letv A := arrVal(b, oA(w, b, o))
    letv B := arrVal(b, oB(w, b, o))
    letv S := arrVal(b, oS(w, b, o))
    assert[fields] wi0.PosId == pn && wi0.DictionaryFormWordId == dic0 && seq(wi0.AUnitSplit) == A && seq(wi0.BUnitSplit) == B && seq(wi0.WordStructure) == S
    letv row := $arg1
  }
  loop 2:
    invariant forall k int {g.posList[k]} :: 0 <= k && k < len(g.posList) ==> g.posList[k] == snapped("opened", g.posList[k]) && mem(g.posList[k]) == snapped("opened", mem(g.posList[k]))
    invariant G != nil ==> forall k int {G.posList[k]} :: 0 <= k && k < len(G.posList) ==> G.posList[k] == snapped("opened", G.posList[k]) && mem(G.posList[k]) == snapped("opened", mem(G.posList[k]))
    invariant 0 <= pid && pid <= own && g == grammar && d == dic && isfresh(posStrings) && !snapped("opened", allocated(posStrings)) && len(posStrings) == len(g.posList) + pid
    invariant d.Header.Version == dictionary.UserDictVersion2 && d.Grammar != nil && own == len(d.Grammar.posList)
    invariant forall k int {posStrings[k]} :: 0 <= k && k < len(g.posList) ==> posStrings[k] == snapped("opened", posText(g, k))
    invariant forall k int {posStrings[k]} :: len(g.posList) <= k && k < len(g.posList) + pid ==> posStrings[k] == snapped("opened", posText(G, k - len(g.posList)))
  loop 3:
    invariant 0 <= wordId && wordId <= P.size && lexicon == L && wfLex(L) && L.wordInfos == I && L.wordParams == P && seq(I.bytebuffer) == b && wide(I) == w
    invariant len(posStrings) == total
    invariant forall k int {posStrings[k]} :: 0 <= k && k < len(g.posList) ==> posStrings[k] == snapped("opened", posText(g, k))
    invariant forall k int {posStrings[k]} :: len(g.posList) <= k && k < total ==> posStrings[k] == snapped("opened", posText(G, k - len(g.posList)))
    decreases P.size - wordId
  at call Fprintf before {
    assert[format] $arg1 == "%s,%d,%d,%d,%s,%s,%s,%s,%s,%s,%s,%s,%s\n" && len($arg2) == 13 && $arg0 == output
    assert[surface] typeis($arg2[0], string) && as($arg2[0], string) == rSurface(w, b, o) && typeis($arg2[4], string) && as($arg2[4], string) == rSurface(w, b, o)
    assert[params] typeis($arg2[1], int16) && as($arg2[1], int16) == pLeft(P, wordId) && typeis($arg2[2], int16) && as($arg2[2], int16) == pRight(P, wordId) && typeis($arg2[3], int16) && as($arg2[3], int16) == pCost(P, wordId)
    letv names := as($arg2[5], string)
    assert[pos] typeis($arg2[5], string) && names == posStrings[pn]
    if pn < len(g.posList) { assert[pos] names == snapped("opened", posText(g, pn)) }
    else { assert[pos] names == snapped("opened", posText(G, pn - len(g.posList))) }
    assert[forms] typeis($arg2[6], string) && as($arg2[6], string) == rReading(w, b, o) && typeis($arg2[7], string) && as($arg2[7], string) == rNorm(w, b, o)
    assert[dicform] typeis($arg2[8], string) && as($arg2[8], string) == (dic0 < 0 ? "*" : itoa(dic0))
    assert[unit] typeis($arg2[9], string) && as($arg2[9], string) == (len(A) == 0 ? "A" : (len(B) == 0 ? "B" : "C"))
    assert[splits] typeis($arg2[10], string) && as($arg2[10], string) == (len(A) == 0 ? "*" : splitText(A, len(A))) && typeis($arg2[11], string) && as($arg2[11], string) == (len(B) == 0 ? "*" : splitText(B, len(B))) && typeis($arg2[12], string) && as($arg2[12], string) == (len(S) == 0 ? "*" : splitText(S, len(S)))
  }
  at loop 3 begin { letv printed := 0 - 1 }
  at call Fprintf after { letv printed := printed < 0 ? wordId : 0 - 1 }
  at loop 3 end { assert[each] printed == wordId - 1 && printed >= 0 }
  at loop 3 exit { assert[all] wordId == P.size }
