// C22: the lines of a lexicon source and their fields.
package dictionary
properties C22

func newLexiconReader(r) (res)
  property C22
  modifies nothing
  ensures isfresh(res) && res != nil && res.r != nil && res.r.rest == r.rest && res.r.term == r.term && res.numLine == 0
  ensures isfresh(res.r) && isfresh(res.r.buf) && res.rawBuffer == nil && res.fieldBuffer == nil
// the reader's buffers are its own
spec func ownBuffers(r *lexiconReader) bool =
  r.r != nil && (r.rawBuffer == nil || base(r.rawBuffer) != base(r.r.buf)) && (r.fieldBuffer == nil || (base(r.fieldBuffer) != base(r.r.buf) && base(r.fieldBuffer) != base(r.rawBuffer)))

func (r *lexiconReader).readLine() (line, err)
  property C22
  requires ownBuffers(r) && r.r.term != nil && r.r.term != bufio.ErrBufferFull
  modifies r.r.rest, elems(r.r.buf), elems(r.rawBuffer), r.numLine, r.rawBuffer
  loop 1:
    invariant r.rawBuffer != nil ==> base(r.rawBuffer) != base(r.r.buf)
    invariant r.r == old(r.r) && r.r.buf == old(r.r.buf)
    invariant seq(r.rawBuffer) ++ r.r.rest == old(r.r.rest)
    invariant err == bufio.ErrBufferFull ==> (forall i int {r.rawBuffer[i]} :: 0 <= i && i < len(r.rawBuffer) ==> r.rawBuffer[i] != 10)
    invariant err == nil ==> len(r.rawBuffer) > 0 && r.rawBuffer[len(r.rawBuffer)-1] == 10 && (forall i int {r.rawBuffer[i]} :: 0 <= i && i < len(r.rawBuffer)-1 ==> r.rawBuffer[i] != 10)
    invariant err != nil ==> (forall i int {r.rawBuffer[i]} :: 0 <= i && i < len(r.rawBuffer) ==> r.rawBuffer[i] != 10)
    invariant err != nil && err != bufio.ErrBufferFull ==> len(r.r.rest) == 0 && err == r.r.term
    invariant len(r.rawBuffer) > 0
    invariant isfresh(r.rawBuffer) || base(r.rawBuffer) == base(old(r.rawBuffer))
    decreases len(r.r.rest) + (err == bufio.ErrBufferFull ? 1 : 0)
  at return {
    letv R := old(r.r.rest)
    letv k := len(R) - len(r.r.rest) - 1
    if k >= 0 && R[k] == 10 { use nlIndexChar(R, 0, k) } else { use nlIndexNone(R, 0) }
  }
  ensures[line] err == nil ==> seq(line) == lineOf(old(r.r.rest)) && r.r.rest == restOf(old(r.r.rest)) && r.numLine == old(r.numLine) + 1
  ensures[eof] err != nil ==> err == r.r.term && r.numLine == old(r.numLine)
  ensures[end] len(old(r.r.rest)) == 0 ==> err != nil
  ensures[all] len(old(r.r.rest)) > 0 && r.r.term == io.EOF ==> err == nil
  ensures[own] ownBuffers(r) && (line == nil || base(line) == base(r.r.buf) || base(line) == base(r.rawBuffer))
  ensures base(r.rawBuffer) == old(base(r.rawBuffer)) || isfresh(r.rawBuffer)

// ---- the comma-separated parts of a line, their escapes replaced
spec rec func commaAt(s seq[int], i int) int decreases len(s) - i =
  (i < 0 || i >= len(s)) ? 0-1 : (s[i] == 44 ? i : commaAt(s, i+1))
lemma commaAtIs(s seq[int], i int, k int)
  requires 0 <= i && i <= k && k < len(s) && s[k] == 44
  requires forall j int {s[j]} :: i <= j && j < k ==> s[j] != 44
  ensures commaAt(s, i) == k
  decreases k - i
  proof { if i < k { use commaAtIs(s, i+1, k) } }
lemma commaAtNone(s seq[int], i int)
  requires 0 <= i && i <= len(s)
  requires forall j int {s[j]} :: i <= j && j < len(s) ==> s[j] != 44
  ensures commaAt(s, i) == 0-1
  decreases len(s) - i
  proof { if i < len(s) { use commaAtNone(s, i+1) } }
lemma commaRange(s seq[int], i int)
  requires 0 <= i
  ensures commaAt(s, i) < len(s) && commaAt(s, i) >= 0-1
  decreases len(s) - i
  proof { if i < len(s) { use commaRange(s, i+1) } }
spec rec func nParts(s seq[int]) int decreases len(s) =
  let k := commaAt(s, 0) :: ((k < 0 || k >= len(s)) ? 1 : 1 + nParts(seq(s, k+1, len(s))))
spec rec func part(s seq[int], n int) seq[int] decreases len(s) =
  let k := commaAt(s, 0) :: ((k < 0 || k >= len(s)) ? s : (n <= 0 ? seq(s, 0, k) : part(seq(s, k+1, len(s)), n-1)))

func (r *lexiconReader).readRecord(dst) (res, err)
  property C22
  requires ownBuffers(r) && r.r.term != nil && r.r.term != bufio.ErrBufferFull
  modifies r.r.rest, elems(r.r.buf), elems(r.rawBuffer), r.numLine, r.rawBuffer, r.fieldBuffer, elems(r.fieldBuffer), elems(dst)
  at loop 1 begin { letv L := seq(line) }
  at call IndexByte after { if $result >= 0 { use commaAtIs(L, 0, $result) } else { use commaAtNone(L, 0) } }
  at call decode before { assert[part] seq($arg1) == part(L, 0) }
  at call decode after { assert[d1] seq($result) == decodeFrom(part(L, 0), 0)
    assert[d2] part(old(lineOf(r.r.rest)), len(dst)) == part(L, 0) }
  at loop 1 end {
    assert[same] seq(line) == seq(L, commaAt(L, 0) + 1, len(L))
    assert[last] seq(dst[len(dst)-1]) == decodeFrom(part(L, 0), 0) }
  at return {
    if err == nil {
      assert[count] len(res) == nParts(old(lineOf(r.r.rest)))
      assert[last] seq(res[len(res)-1]) == decodeFrom(part(old(lineOf(r.r.rest)), len(res)-1), 0)
      assert[fields] forall k int {res[k]} :: 0 <= k && k < len(res)-1 ==> seq(res[k]) == decodeFrom(part(old(lineOf(r.r.rest)), k), 0) } }
  loop 1:
    invariant[own] ownBuffers(r) && (line == nil || base(line) == base(r.r.buf) || base(line) == base(r.rawBuffer))
    invariant[read] r.r == old(r.r) && r.r.buf == old(r.r.buf) && r.r.rest == restOf(old(r.r.rest)) && r.numLine == old(r.numLine) + 1
    invariant[ownRaw] isfresh(r.rawBuffer) || base(r.rawBuffer) == base(old(r.rawBuffer))
    invariant[ownField] isfresh(r.fieldBuffer) || base(r.fieldBuffer) == base(old(r.fieldBuffer))
    invariant[ownRecord] isfresh(dst) || base(dst) == base(old(dst))
    invariant[count] len(dst) + nParts(seq(line)) == nParts(old(lineOf(r.r.rest)))
    invariant[rest] forall k int {part(old(lineOf(r.r.rest)), k)} :: k >= len(dst) ==> part(old(lineOf(r.r.rest)), k) == part(seq(line), k - len(dst))
    invariant[fields] forall k int {dst[k]} :: 0 <= k && k < len(dst) ==> seq(dst[k]) == decodeFrom(part(old(lineOf(r.r.rest)), k), 0)
    decreases len(line)
  ensures[fields] err == nil ==> len(res) == nParts(lineOf(old(r.r.rest))) && (forall k int {res[k]} :: 0 <= k && k < len(res) ==> seq(res[k]) == decodeFrom(part(lineOf(old(r.r.rest)), k), 0))
  ensures[line] err == nil ==> r.r.rest == restOf(old(r.r.rest)) && r.numLine == old(r.numLine) + 1
  ensures[eof] err != nil ==> err == r.r.term && r.numLine == old(r.numLine) && res == nil
  ensures[end] len(old(r.r.rest)) == 0 ==> err != nil
  ensures[all] len(old(r.r.rest)) > 0 && r.r.term == io.EOF ==> err == nil
  ensures ownBuffers(r) && r.r == old(r.r)
  ensures isfresh(res) || base(res) == base(dst)
  ensures base(r.rawBuffer) == old(base(r.rawBuffer)) || isfresh(r.rawBuffer)
  ensures base(r.fieldBuffer) == old(base(r.fieldBuffer)) || isfresh(r.fieldBuffer)
