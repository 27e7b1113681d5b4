// C12: how the builder finds the word a reference means.
package dictionary
properties C12

spec rec func isEntry(e *wordEntry, h seq[int], p int, r seq[int]) bool decreases 0 = e.WordInfo.Surface == h && e.WordInfo.PosId == p && e.WordInfo.ReadingForm == r
spec func builtOk(d *DictionaryBuilder) bool =
  len(d.wordEntries) < 268435456 && (forall i int {d.wordEntries[i]} :: 0 <= i && i < len(d.wordEntries) ==> d.wordEntries[i] != nil && d.wordEntries[i].WordInfo != nil) &&
  (d.systemLexicon != nil ==> wfLex(d.systemLexicon))
lemma userBit(x int32) bv
  requires 0 <= x && x < 268435456
  ensures bor(x, 268435456) == x + 268435456
spec rec func firstEntry(d *DictionaryBuilder, h seq[int], p int, r seq[int], i int) int decreases len(d.wordEntries) - i =
  i < 0 || i >= len(d.wordEntries) ? 0-1 : (isEntry(d.wordEntries[i], h, p, r) ? i : firstEntry(d, h, p, r, i+1))
// the first of the builder's own words (of dictionary 1 when there is a system dictionary), or else the system dictionary's
func (dicbuilder *DictionaryBuilder).getWordId(headword, posId, readingForm) (id)
  requires builtOk(dicbuilder)
  modifies nothing
  loop 1:
    invariant firstEntry(dicbuilder, headword, posId, readingForm, 0) == firstEntry(dicbuilder, headword, posId, readingForm, $i)
  at loop 1 begin { letv n := $i if n < len(dicbuilder.wordEntries) { use userBit(n) assert[wide] int32(n) == n } }
  ensures[own] let k := firstEntry(dicbuilder, headword, posId, readingForm, 0) :: (k >= 0 ==> id == (dicbuilder.systemLexicon != nil ? k + 268435456 : k))
  ensures[none] firstEntry(dicbuilder, headword, posId, readingForm, 0) < 0 && dicbuilder.systemLexicon == nil ==> id == -1
  ensures[system] firstEntry(dicbuilder, headword, posId, readingForm, 0) < 0 && dicbuilder.systemLexicon != nil ==> id == -1 || (hasWord(dicbuilder.systemLexicon, id) && isThat(dicbuilder.systemLexicon.wordInfos, id, headword, posId, readingForm))

// ---- what the builder writes: strings in its encoding, the parts of speech in order
dynamic func "dictionary.writeStringFunc"(buffer, s) (err)
  dispatch writeString, writeStringUtf16
spec func wideB(d *DictionaryBuilder) bool = d.writeStringF == funcval(writeStringUtf16)
spec func encodes(d *DictionaryBuilder) bool = d.buffer != nil && (d.writeStringF == funcval(writeString) || d.writeStringF == funcval(writeStringUtf16))
spec rec func strBytes(w bool, s seq[int]) seq[int] decreases 0 = w ? lenBytes(len(utf16of(runes(s)))) ++ le2s(utf16of(runes(s))) : lenBytes(len(s)) ++ s
spec rec func fitsStr(w bool, s seq[int]) bool decreases 0 = w ? len(utf16of(runes(s))) <= 32767 : len(s) <= 32767
func (dicbuilder *DictionaryBuilder).writeString(s) (err)
  property C11, C12
  requires encodes(dicbuilder)
  modifies dicbuilder.buffer.data
  at entry { letv d := dicbuilder.buffer.data letv u := utf16of(runes(s)) use concatAssoc(d, lenBytes(len(u)), le2s(u)) use concatAssoc(d, lenBytes(len(s)), seq(s)) }
  ensures[accept] (err == nil) == fitsStr(wideB(dicbuilder), s)
  ensures[bytes] err == nil ==> dicbuilder.buffer.data == old(dicbuilder.buffer.data) ++ strBytes(wideB(dicbuilder), s)
func (dicbuilder *DictionaryBuilder).writeIntArray(a) (err)
  property C11, C12
  requires dicbuilder.buffer != nil
  modifies dicbuilder.buffer.data
  ensures[accept] (err == nil) == (len(a) <= 255)
  ensures[bytes] err == nil ==> dicbuilder.buffer.data == old(dicbuilder.buffer.data) ++ [len(a)] ++ le4s(seq(a))
spec rec func rowBytes(w bool, row []string, n int) seq[int] decreases n = n <= 0 ? seq([n], 0, 0) : rowBytes(w, row, n-1) ++ strBytes(w, row[n-1])
spec rec func tableBytes(w bool, t [][]string, n int) seq[int] decreases n = n <= 0 ? seq([n], 0, 0) : tableBytes(w, t, n-1) ++ rowBytes(w, t[n-1], len(t[n-1]))
func (dicbuilder *DictionaryBuilder).convertPOSTable(postable) (err)
  property C12
  requires encodes(dicbuilder) && postable != nil
  modifies dicbuilder.buffer.data
  at entry { letv d := dicbuilder.buffer.data letv w := wideB(dicbuilder) letv T := postable.table letv H := d ++ le2(uint16(len(T))) }
  at loop 1 begin { letv n := $i letv D := H ++ tableBytes(w, T, n) if n < len(T) { letv row := T[n] assert[step] tableBytes(w, T, n+1) == tableBytes(w, T, n) ++ rowBytes(w, row, len(row)) use concatAssoc(H, tableBytes(w, T, n), rowBytes(w, row, len(row))) } }
  loop 1:
    invariant[rows] dicbuilder.buffer.data == H ++ tableBytes(w, T, $i)
  at loop 2 begin { letv m := $i if m < len(row) { use concatAssoc(D, rowBytes(w, row, m), strBytes(w, row[m])) assert[one] rowBytes(w, row, m+1) == rowBytes(w, row, m) ++ strBytes(w, row[m]) } }
  loop 2:
    invariant[names] dicbuilder.buffer.data == D ++ rowBytes(w, row, $i)
  ensures[bytes] err == nil ==> dicbuilder.buffer.data == old(dicbuilder.buffer.data) ++ le2(uint16(len(postable.table))) ++ tableBytes(wideB(dicbuilder), postable.table, len(postable.table))
