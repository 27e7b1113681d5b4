// The read side of a dictionary's words: what the bytes say (C12), for the word ids of one dictionary.
package dictionary
properties C12

// ---- strings in either text encoding
spec rec func strOk(w bool, b seq[int], o int) bool decreases 0 = hasLen(b, o) && lenEnd(b, o) + (w ? 2 : 1) * lenAt(b, o) <= len(b)
spec rec func strEnd(w bool, b seq[int], o int) int decreases 0 = lenEnd(b, o) + (w ? 2 : 1) * lenAt(b, o)
spec rec func strVal(w bool, b seq[int], o int) seq[int] decreases 0 =
  w ? strOfRunes(fromUtf16(u16sAt(b, lenEnd(b, o), lenAt(b, o)))) : seq(b, lenEnd(b, o), lenEnd(b, o) + lenAt(b, o))
dynamic func "dictionary.bufferToStringFunc"(bytebuffer, offset) (end, s)
  dispatch bufferToString, bufferToStringUtf16

// ---- a word's record
spec rec func arrOk(b seq[int], o int) bool decreases 0 = 0 <= o && o < len(b) && o + 1 + 4*b[o] <= len(b)
spec rec func arrEnd(b seq[int], o int) int decreases 0 = o + 1 + 4*b[o]
spec rec func arrVal(b seq[int], o int) seq[int] decreases 0 = i32sAt(b, o+1, b[o])
spec rec func oLen(w bool, b seq[int], o int) int decreases 0 = strEnd(w, b, o)
spec rec func oPos(w bool, b seq[int], o int) int decreases 0 = lenEnd(b, oLen(w, b, o))
spec rec func oNorm(w bool, b seq[int], o int) int decreases 0 = oPos(w, b, o) + 2
spec rec func oDic(w bool, b seq[int], o int) int decreases 0 = strEnd(w, b, oNorm(w, b, o))
spec rec func oRead(w bool, b seq[int], o int) int decreases 0 = oDic(w, b, o) + 4
spec rec func oA(w bool, b seq[int], o int) int decreases 0 = strEnd(w, b, oRead(w, b, o))
spec rec func oB(w bool, b seq[int], o int) int decreases 0 = arrEnd(b, oA(w, b, o))
spec rec func oS(w bool, b seq[int], o int) int decreases 0 = arrEnd(b, oB(w, b, o))
spec rec func recEnd(w bool, b seq[int], o int) int decreases 0 = arrEnd(b, oS(w, b, o))
spec func recOk(w bool, b seq[int], o int) bool =
  strOk(w, b, o) && hasLen(b, oLen(w, b, o)) && oPos(w, b, o) + 2 <= len(b) && strOk(w, b, oNorm(w, b, o)) &&
  oDic(w, b, o) + 4 <= len(b) && strOk(w, b, oRead(w, b, o)) && arrOk(b, oA(w, b, o)) && arrOk(b, oB(w, b, o)) && arrOk(b, oS(w, b, o))
spec func rSurface(w bool, b seq[int], o int) seq[int] = strVal(w, b, o)
spec func rLength(w bool, b seq[int], o int) int = lenAt(b, oLen(w, b, o))
spec func rPos(w bool, b seq[int], o int) int = int16(u16le(b, oPos(w, b, o)))
spec func orElse(s seq[int], t seq[int]) seq[int] = len(s) == 0 ? t : s
spec func rNorm(w bool, b seq[int], o int) seq[int] = orElse(strVal(w, b, oNorm(w, b, o)), rSurface(w, b, o))
spec func rDic(w bool, b seq[int], o int) int = int32(u32le(b, oDic(w, b, o)))
spec func rReading(w bool, b seq[int], o int) seq[int] = orElse(strVal(w, b, oRead(w, b, o)), rSurface(w, b, o))

// ---- the words of a list
spec func wide(l *wordInfoList) bool = l.bufferToStringF == funcval(bufferToStringUtf16)
spec rec func wAt(b seq[int], f int, id int) int decreases 0 = int32(u32le(b, f + 4*id))
spec func wordAt(l *wordInfoList, id int) int = wAt(seq(l.bytebuffer), l.offset, id)
spec func offOkB(b seq[int], f int, id int) bool = 0 <= f + 4*id && f + 4*id + 4 <= len(b) && 0 <= wAt(b, f, id)
spec func hasDicFormB(w bool, b seq[int], f int, id int) bool = rDic(w, b, wAt(b, f, id)) >= 0 && rDic(w, b, wAt(b, f, id)) != id
spec func dicAtB(w bool, b seq[int], f int, id int) int = wAt(b, f, rDic(w, b, wAt(b, f, id)))
spec func hasDicForm(l *wordInfoList, id int) bool = hasDicFormB(wide(l), seq(l.bytebuffer), l.offset, id)
spec func dicAt(l *wordInfoList, id int) int = dicAtB(wide(l), seq(l.bytebuffer), l.offset, id)
spec rec func okAt(w bool, b seq[int], f int, id int) bool decreases 0 =
  offOkB(b, f, id) && recOk(w, b, wAt(b, f, id)) &&
  (hasDicFormB(w, b, f, id) ==> offOkB(b, f, rDic(w, b, wAt(b, f, id))) && strOk(w, b, dicAtB(w, b, f, id)))
spec func wordOk(l *wordInfoList, id int) bool = okAt(wide(l), seq(l.bytebuffer), l.offset, id)
spec func wfWords(l *wordInfoList) bool =
  (l.bufferToStringF == funcval(bufferToString) || l.bufferToStringF == funcval(bufferToStringUtf16)) &&
  (forall id int {wordOk(l, id)} :: 0 <= id && id < l.wordSize ==> wordOk(l, id))
spec func dicForm(l *wordInfoList, id int) seq[int] =
  hasDicForm(l, id) ? strVal(wide(l), seq(l.bytebuffer), dicAt(l, id)) : rSurface(wide(l), seq(l.bytebuffer), wordAt(l, id))
// wi is word id of l
spec rec func isWord(wi *WordInfo, l *wordInfoList, id int) bool decreases 0 =
  let b := seq(l.bytebuffer) :: let w := wide(l) :: let o := wordAt(l, id) ::
  (wi.Surface == rSurface(w, b, o) && wi.HeadwordLength == rLength(w, b, o) && wi.PosId == rPos(w, b, o) &&
   wi.NormalizedForm == rNorm(w, b, o) && wi.DictionaryFormWordId == rDic(w, b, o) && wi.DictionaryForm == dicForm(l, id) &&
   wi.ReadingForm == rReading(w, b, o) && seq(wi.AUnitSplit) == arrVal(b, oA(w, b, o)) &&
   seq(wi.BUnitSplit) == arrVal(b, oB(w, b, o)) && seq(wi.WordStructure) == arrVal(b, oS(w, b, o)))

func (l *wordInfoList).wordIdToOffset(wordId) (o)
  requires l.offset + 4*wordId >= 0 && l.offset + 4*wordId + 4 <= len(l.bytebuffer)
  modifies nothing
  ensures[at] o == wordAt(l, wordId)
func (l *wordInfoList).getWordInfo(wordId) (wi)
  requires (l.bufferToStringF == funcval(bufferToString) || l.bufferToStringF == funcval(bufferToStringUtf16)) && wordOk(l, wordId)
  modifies nothing
  at entry {
    letv w := wide(l)
    letv bb := seq(l.bytebuffer)
    letv o0 := wordAt(l, wordId)
    letv o1 := oLen(w, bb, o0)
    letv o2 := oPos(w, bb, o0)
    letv o3 := oNorm(w, bb, o0)
    letv o4 := oDic(w, bb, o0)
    letv o5 := oRead(w, bb, o0)
    letv o6 := oA(w, bb, o0)
    letv o7 := oB(w, bb, o0)
    letv o8 := oS(w, bb, o0)
    assert[e1] o1 == strEnd(w, bb, o0)
    assert[e2] o2 == lenEnd(bb, o1) && o3 == o2 + 2
    assert[e4] o4 == strEnd(w, bb, o3) && o5 == o4 + 4
    assert[e6] o6 == strEnd(w, bb, o5)
    assert[e7] o7 == arrEnd(bb, o6)
    assert[e8] o8 == arrEnd(bb, o7)
  }
  at call wordIdToOffset 1 after { assert[c0] $result == o0 }
  at call bufferToStringFunc 1 after { assert[c1] $result0 == o1 && $result1 == rSurface(w, bb, o0) }
  at call bufferToStringLength 1 after { assert[c2] $result0 == o2 && $result1 == rLength(w, bb, o0) }
  at call bufferToInt16 1 after { assert[c3] $result0 == o3 && $result1 == rPos(w, bb, o0) }
  at call bufferToStringFunc 2 after { assert[c4] $result0 == o4 && $result1 == strVal(w, bb, o3) }
  at call bufferToInt32 1 after { assert[c5] $result0 == o5 && $result1 == rDic(w, bb, o0) }
  at call bufferToStringFunc 3 after { assert[c6] $result0 == o6 && $result1 == strVal(w, bb, o5) }
  at call bufferToInt32Array 1 after { assert[c7] $result0 == o7 && seq($result1) == arrVal(bb, o6) }
  at call bufferToInt32Array 2 after { assert[c8] $result0 == o8 && seq($result1) == arrVal(bb, o7) }
  at call bufferToInt32Array 3 after { assert[c9] seq($result1) == arrVal(bb, o8) }
  at call wordIdToOffset 2 after { assert[c10] hasDicForm(l, wordId) && $result == dicAt(l, wordId) }
  at call bufferToStringFunc 4 after { assert[c11] hasDicForm(l, wordId) && $result1 == dicForm(l, wordId) }
  at return {
    assert[f4] wi.NormalizedForm == rNorm(w, bb, o0)
    assert[f6] wi.ReadingForm == rReading(w, bb, o0)
    assert[f7] seq(wi.AUnitSplit) == arrVal(bb, o6) && seq(wi.BUnitSplit) == arrVal(bb, o7) && seq(wi.WordStructure) == arrVal(bb, o8)
    assert[f10] wi.DictionaryForm == dicForm(l, wordId)
  }
  ensures[word] isWord(wi, l, wordId)
  ensures[length] 0 <= wi.HeadwordLength && wi.HeadwordLength <= 32767
  ensures[own] isfresh(wi) && wi != nil && isfresh(wi.AUnitSplit) && isfresh(wi.BUnitSplit) && isfresh(wi.WordStructure)
  ensures[apart] base(wi.AUnitSplit) != base(wi.BUnitSplit) && base(wi.BUnitSplit) != base(wi.WordStructure) && base(wi.AUnitSplit) != base(wi.WordStructure)
