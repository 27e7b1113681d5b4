package lnreader
properties C21

// ---- the text of a source as a byte sequence R, cut into lines
spec rec func nlIndex(R seq[int], i int) int decreases len(R) - i =
  (i < 0 || i >= len(R)) ? 0-1 : (R[i] == 10 ? i : nlIndex(R, i+1))
// the first line with its terminator removed (LF or CRLF)
spec func firstNL(R seq[int]) int = nlIndex(R, 0)
spec func lineOf(R seq[int]) seq[int] =
  let k := firstNL(R) :: (k < 0 ? R : (k > 0 && R[k-1] == 13 ? seq(R, 0, k-1) : seq(R, 0, k)))
spec func restOf(R seq[int]) seq[int] =
  let k := firstNL(R) :: (k < 0 ? seq(R, len(R), len(R)) : seq(R, k+1, len(R)))

lemma nlIndexChar(R seq[int], i int, k int)
  requires 0 <= i && i <= k && k < len(R) && R[k] == 10
  requires forall j int {R[j]} :: i <= j && j < k ==> R[j] != 10
  ensures nlIndex(R, i) == k
  decreases k - i
  proof { if i < k { use nlIndexChar(R, i+1, k) } }
lemma nlIndexNone(R seq[int], i int)
  requires 0 <= i && i <= len(R)
  requires forall j int {R[j]} :: i <= j && j < len(R) ==> R[j] != 10
  ensures nlIndex(R, i) == 0-1
  decreases len(R) - i
  proof { if i < len(R) { use nlIndexNone(R, i+1) } }

func NewLineNumberReader(r) (res)
  modifies nothing
  ensures isfresh(res) && res != nil && res.r != nil && res.r.rest == r.rest && res.r.term == r.term && res.NumLine == 0
  ensures[own] base(res.rawBuffer) != base(res.r.buf) || res.rawBuffer == nil
  ensures allocated(res.r.buf)
  ensures isfresh(res.r) && isfresh(res.r.buf) && (isfresh(res.rawBuffer) || res.rawBuffer == nil)

func (r *LineNumberReader).ReadLine() (line, err)
  requires r.r != nil && r.r.term != nil && r.r.term != bufio.ErrBufferFull
  requires r.rawBuffer == nil || base(r.rawBuffer) != base(r.r.buf)
  modifies r.r.rest, elems(r.r.buf), elems(r.rawBuffer), r.NumLine, r.rawBuffer
  loop 1:
    invariant r.rawBuffer != nil ==> base(r.rawBuffer) != base(r.r.buf)
    invariant r.r == old(r.r) && r.r.buf == old(r.r.buf)
    invariant seq(r.rawBuffer) ++ r.r.rest == old(r.r.rest)
    invariant err == bufio.ErrBufferFull ==> (forall i int {r.rawBuffer[i]} :: 0 <= i && i < len(r.rawBuffer) ==> r.rawBuffer[i] != 10)
    invariant err == nil ==> len(r.rawBuffer) > 0 && r.rawBuffer[len(r.rawBuffer)-1] == 10 && (forall i int {r.rawBuffer[i]} :: 0 <= i && i < len(r.rawBuffer)-1 ==> r.rawBuffer[i] != 10)
    invariant err != nil ==> (forall i int {r.rawBuffer[i]} :: 0 <= i && i < len(r.rawBuffer) ==> r.rawBuffer[i] != 10)
    invariant err != nil && err != bufio.ErrBufferFull ==> len(r.r.rest) == 0 && err == r.r.term
    invariant len(r.rawBuffer) > 0
    invariant isfresh(r.rawBuffer) || base(r.rawBuffer) == base(old(r.rawBuffer))
    decreases len(r.r.rest) + (err == bufio.ErrBufferFull ? 1 : 0)
  at return {
    letv R := old(r.r.rest)
    letv k := len(R) - len(r.r.rest) - 1
    if k >= 0 && R[k] == 10 { use nlIndexChar(R, 0, k) } else { use nlIndexNone(R, 0) }
  }
  ensures[line] err == nil ==> seq(line) == lineOf(old(r.r.rest)) && r.r.rest == restOf(old(r.r.rest)) && r.NumLine == old(r.NumLine) + 1
  ensures[eof] err != nil ==> err == r.r.term && r.NumLine == old(r.NumLine)
  ensures[end] len(old(r.r.rest)) == 0 ==> err != nil
  ensures[all] len(old(r.r.rest)) > 0 && r.r.term == io.EOF ==> err == nil
  ensures[complete] len(old(r.r.rest)) > 0 && firstNL(old(r.r.rest)) >= 0 ==> err == nil
  ensures r.rawBuffer == nil || base(r.rawBuffer) != base(r.r.buf)
  ensures base(r.rawBuffer) == old(base(r.rawBuffer)) || isfresh(r.rawBuffer)

spec func blank(c int) bool = c == 32 || c == 10 || c == 9
func IsSkipLine(l) (res)
  modifies nothing
  loop 1:
    invariant forall j int {l[j]} :: 0 <= j && j < $i ==> blank(l[j])
    invariant $i > 0 ==> l[0] != 35
  ensures[skip] res == ((len(l) > 0 && l[0] == 35) || (forall j int {l[j]} :: 0 <= j && j < len(l) ==> blank(l[j])))
func IsEmptyLine(l) (res)
  modifies nothing
  loop 1:
    invariant forall j int {l[j]} :: 0 <= j && j < $i ==> blank(l[j])
  ensures[empty] res == (forall j int {l[j]} :: 0 <= j && j < len(l) ==> blank(l[j]))
