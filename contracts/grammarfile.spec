// C12: the grammar section: the parts of speech, the size of the connection table and its costs.
package dictionary
properties C12

// ---- facts assumed about the libraries: a buffered writer holds what is written until it is flushed
ghostfield bufio.Writer.data seq[int]
extern func "bufio.NewWriter"(w) (b)
  modifies nothing
  ensures b != nil && isfresh(b) && len(b.data) == 0
extern func "(*bytes.Buffer).WriteTo"(b, w) (n, err)
  modifies b.data, as(w, *bufio.Writer).data
  ensures typeis(w, *bufio.Writer) && err == nil ==> as(w, *bufio.Writer).data == old(as(w, *bufio.Writer).data) ++ old(b.data) && n == len(old(b.data)) && len(b.data) == 0
extern func "(*bufio.Writer).Write"(b, p) (n, err)
  modifies b.data
  ensures err == nil ==> b.data == old(b.data) ++ seq(p) && n == len(p)
extern func "(*bufio.Writer).Flush"(b) (err)
  modifies nothing
extern func "message.NewPrinter"(t, opts) (p)
  modifies nothing
  ensures p != nil
extern func "(*message.Printer).Fprintf"(p, w, key, a) (n, err)
  modifies nothing

// what has been flushed to the file by the last call
ghostfield DictionaryBuilder.wrote seq[int]
spec func posSection(d *DictionaryBuilder, t [][]string) seq[int] = le2(uint16(len(t))) ++ tableBytes(wideB(d), t, len(t))

func (dicbuilder *DictionaryBuilder).WriteGrammarUser(postable, writer) (err)
  requires encodes(dicbuilder) && postable != nil && len(dicbuilder.buffer.data) == 0
  modifies dicbuilder.buffer.data, dicbuilder.position, dicbuilder.wrote
  at entry { letv P := posSection(dicbuilder, postable.table) }
  at call convertPOSTable after { assert[pos] $result == nil ==> dicbuilder.buffer.data == P }
  at call Flush after { ghost dicbuilder.wrote := $arg0.data assert[section] $arg0.data == P ++ le2(0) ++ le2(0) }
  ensures[section] err == nil ==> dicbuilder.wrote == old(posSection(dicbuilder, postable.table)) ++ le2(0) ++ le2(0)
  ensures[position] err == nil ==> dicbuilder.position == old(dicbuilder.position) + len(dicbuilder.wrote)
  ensures[clean] err == nil ==> len(dicbuilder.buffer.data) == 0

// ---- the matrix file: a line with the two sizes, then lines that set one cost each; later lines win
spec rec func num16(s seq[int]) bool decreases 0 = isDec(s) && 0-32768 <= decNum(s) && decNum(s) <= 32767
spec rec func blankLine(l seq[int]) bool decreases 0 = forall j int {l[j]} :: 0 <= j && j < len(l) ==> blank(l[j])
spec func setLine(l seq[int]) bool = !blankLine(l) && nFields(l) >= 3
spec rec func costLineOk(l seq[int], L int, R int) bool decreases 0 = setLine(l) ==> num16(fieldAt(l, 0)) && num16(fieldAt(l, 1)) && num16(fieldAt(l, 2)) &&
  0 <= decNum(fieldAt(l, 0)) && decNum(fieldAt(l, 0)) < L && 0 <= decNum(fieldAt(l, 1)) && decNum(fieldAt(l, 1)) < R
spec rec func setsCost(l seq[int], a int, b int) bool decreases 0 = setLine(l) && decNum(fieldAt(l, 0)) == a && decNum(fieldAt(l, 1)) == b
spec rec func costIn(T seq[int], a int, b int, cur int) int decreases len(T) = len(T) == 0 || !restShort(T) ? cur : costIn(restOf(T), a, b, setsCost(lineOf(T), a, b) ? decNum(fieldAt(lineOf(T), 2)) : cur)
spec rec func costsOk(T seq[int], L int, R int) bool decreases len(T) = len(T) == 0 || !restShort(T) || (costLineOk(lineOf(T), L, R) && costsOk(restOf(T), L, R))
spec func sizesOk(l seq[int]) bool = nFields(l) >= 2 && num16(fieldAt(l, 0)) && num16(fieldAt(l, 1)) && decNum(fieldAt(l, 0)) >= 0 && decNum(fieldAt(l, 1)) >= 0
spec rec func cellVal(m []byte, o int) int decreases 0 = int16(m[o] + 256*m[o+1])
spec rec func seqVal(m seq[int], o int) int decreases 0 = int16(m[o] + 256*m[o+1])
spec func cellO(L int, a int, b int) int = 2 * (a + L * b)

func (dicbuilder *DictionaryBuilder).WriteGrammar(postable, input, writer) (err)
  requires encodes(dicbuilder) && postable != nil && len(dicbuilder.buffer.data) == 0 && input != nil && input.term != nil && input.term != bufio.ErrBufferFull
  modifies dicbuilder.buffer.data, dicbuilder.position, dicbuilder.wrote
  nomerge
  at entry { letv P := posSection(dicbuilder, postable.table) letv F := input.rest letv HL := lineOf(F) letv T := restOf(F) }
  at call convertPOSTable after { assert[pos] $result == nil ==> dicbuilder.buffer.data == P }
  at call ReadLine 1 after { if $result1 == nil { assert[header] seq($result0) == HL && r.r.rest == T && len(F) > 0 } }
  at call Fields 1 after { assert[sizes] $arg0 == HL }
  at call WriteTo 2 after { assert[sizesOk] sizesOk(HL) letv LS := decNum(fieldAt(HL, 0)) letv RS := decNum(fieldAt(HL, 1)) letv S := P ++ le2(LS) ++ le2(RS) assert[head] $result1 == nil ==> bwriter.data == S }
  loop 1:
    invariant[reader] (isfresh(r.rawBuffer) || r.rawBuffer == nil) && isfresh(r.r.buf) && (r.rawBuffer == nil || base(r.rawBuffer) != base(r.r.buf))
    invariant[own] isfresh(matrix) && base(matrix) != base(r.r.buf) && (r.rawBuffer == nil || base(matrix) != base(r.rawBuffer)) && len(matrix) == 2 * (LS * RS)
    invariant[whole] costsOk(T, LS, RS) == costsOk(r.r.rest, LS, RS)
    invariant[cells] forall a int, b int {costIn(T, a, b, 0)} :: 0 <= a && a < LS && 0 <= b && b < RS ==> costIn(T, a, b, 0) == costIn(r.r.rest, a, b, cellVal(matrix, cellO(LS, a, b)))
  at loop 1 begin { snap it letv T1 := r.r.rest if len(T1) > 0 { use restShorter(T1) } }
  at call ReadLine 2 after { letv failed := $result1 letv L := lineOf(T1) if failed == nil { assert[line] seq($result0) == L && r.r.rest == restOf(T1) && len(T1) > 0 } }
  at call IsEmptyLine after { letv l0 := $arg0 assert[bytes] (forall j int {l0[j]} :: 0 <= j && j < len(l0) ==> l0[j] == L[j]) && (forall j int {L[j]} :: 0 <= j && j < len(L) ==> l0[j] == L[j]) assert[skip] $result == blankLine(L) }
  at call PutUint16 before { use cellIn(LS, RS, decNum(fieldAt(L, 0)), decNum(fieldAt(L, 1))) }
  at loop 1 end {
    letv A := decNum(fieldAt(L, 0))
    letv B := decNum(fieldAt(L, 1))
    if setLine(L) { assert[now] cellVal(matrix, cellO(LS, A, B)) == decNum(fieldAt(L, 2)) use forall a int, b int {cellVal(matrix, cellO(LS, a, b))} :: cellsApart(LS, a, b, A, B) }
    assert[others] forall a int, b int {cellVal(matrix, cellO(LS, a, b))} :: 0 <= a && a < LS && 0 <= b && b < RS && !setsCost(L, a, b) ==> cellVal(matrix, cellO(LS, a, b)) == snapped("it", cellVal(matrix, cellO(LS, a, b)))
  }
  at loop 1 exit { if failed == io.EOF { assert[all] len(T1) == 0 assert[costs] forall a int, b int {costIn(T, a, b, 0)} :: 0 <= a && a < LS && 0 <= b && b < RS ==> costIn(T, a, b, 0) == cellVal(matrix, cellO(LS, a, b)) } }
  at call Flush after {
    letv w := $arg0.data
    assert[section] w == S ++ seq(matrix) && len(S) == len(P) + 4 && len(w) == len(S) + 2 * (LS * RS)
    use forall a int, b int {cellVal(matrix, cellO(LS, a, b))} :: cellIn(LS, RS, a, b) assert[placed] forall a int, b int {costIn(T, a, b, 0)} :: 0 <= a && a < LS && 0 <= b && b < RS ==> costIn(T, a, b, 0) == seqVal(w, len(S) + cellO(LS, a, b))
    ghost dicbuilder.wrote := $arg0.data
  }
  ensures[refused] err == nil ==> sizesOk(lineOf(old(input.rest))) && costsOk(restOf(old(input.rest)), decNum(fieldAt(lineOf(old(input.rest)), 0)), decNum(fieldAt(lineOf(old(input.rest)), 1)))
  ensures[section] err == nil ==> let h := lineOf(old(input.rest)) :: let l := decNum(fieldAt(h, 0)) :: let r := decNum(fieldAt(h, 1)) :: let s := old(posSection(dicbuilder, postable.table)) ++ le2(l) ++ le2(r) ::
    len(dicbuilder.wrote) == len(s) + 2 * (l * r) && seq(dicbuilder.wrote, 0, len(s)) == s &&
    (forall a int, b int {costIn(restOf(old(input.rest)), a, b, 0)} :: 0 <= a && a < l && 0 <= b && b < r ==> costIn(restOf(old(input.rest)), a, b, 0) == seqVal(dicbuilder.wrote, len(s) + cellO(l, a, b)))
  ensures[position] err == nil ==> dicbuilder.position == old(dicbuilder.position) + len(dicbuilder.wrote)
  ensures[clean] err == nil ==> len(dicbuilder.buffer.data) == 0
