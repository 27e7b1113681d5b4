package gosudachi
properties C16

// A stringNumber is the integer written by its digits times ten to its exponent.
spec func sg(n *stringNumber) seq[int] = seq(n.significand)
spec func ex(n *stringNumber) int = n.point < 0 ? n.scale : n.scale - (len(n.significand) - n.point)
spec func wfNum(n *stringNumber) bool =
  n != nil && n.scale >= 0 && n.point >= 0-1 && n.point != 0 && n.point <= len(n.significand) &&
  (len(n.significand) == 0 ==> n.scale == 0 && n.point == 0-1) &&
  (forall i int {n.significand[i]} :: 0 <= i && i < len(n.significand) ==> 48 <= n.significand[i] && n.significand[i] <= 57)
spec func apart(a *stringNumber, b *stringNumber) bool =
  a != nil && b != nil && a != b && (base(a.significand) != base(b.significand) || base(a.significand) == nil)
spec rec func zeros(n int) seq[int] decreases n = n <= 0 ? seq([48], 0, 0) : zeros(n-1) ++ [48]
spec rec func pow10(n int) int decreases n = n <= 0 ? 1 : 10 * pow10(n-1)
spec rec func digval(s seq[int]) int decreases len(s) = len(s) == 0 ? 0 : 10 * digval(seq(s, 0, len(s)-1)) + (s[len(s)-1] - 48)

lemma zerosLen(n int)
  ensures len(zeros(n)) == max(n, 0) && (forall i int {zeros(n)[i]} :: 0 <= i && i < n ==> zeros(n)[i] == 48)
  decreases n
  proof { if n > 0 { use zerosLen(n-1) } }
lemma digvalSnoc(s seq[int], d int)
  ensures digval(s ++ [d]) == 10 * digval(s) + (d - 48)
  proof { assert seq(s ++ [d], 0, len(s)) == s }
lemma mulTen(d int, p int)
  ensures d * (10 * p) == 10 * (d * p)
// behind k zeros
lemma digvalZeros(s seq[int], k int)
  requires k >= 0
  ensures digval(s ++ zeros(k)) == digval(s) * pow10(k)
  decreases k
  proof { if k == 0 { assert s ++ zeros(k) == s } else { use digvalZeros(s, k-1) use digvalSnoc(s ++ zeros(k-1), 48) use concatAssoc(s, zeros(k-1), [48]) use mulTen(digval(s), pow10(k-1)) } }
lemma digvalCat(a seq[int], b seq[int])
  ensures digval(a ++ b) == digval(a) * pow10(len(b)) + digval(b)
  decreases len(b)
  proof { if len(b) == 0 { assert a ++ b == a } else {
    letv c := seq(b, 0, len(b)-1)
    assert b == c ++ [b[len(b)-1]]
    use concatAssoc(a, c, [b[len(b)-1]]) use digvalCat(a, c) use digvalSnoc(a ++ c, b[len(b)-1]) use mulTen(digval(a), pow10(len(c))) } }
lemma pow10Add(a int, b int)
  requires a >= 0 && b >= 0
  ensures pow10(a+b) == pow10(a) * pow10(b)
  decreases b
  proof { if b > 0 { use pow10Add(a, b-1) use mulTen(pow10(a), pow10(b-1)) } }
lemma mulAssoc(a int, b int, c int)
  ensures (a * b) * c == a * (b * c)
// what add makes is the sum: digits t in units of ten to et behind digits n in units of ten to en
lemma addSum(n seq[int], en int, t seq[int], et int)
  property C16
  requires en >= len(t) + et
  ensures digval(n ++ zeros(en - len(t) - et) ++ t) == digval(n) * pow10(en - et) + digval(t)
  proof { letv k := en - len(t) - et
    use digvalCat(n ++ zeros(k), t) use digvalZeros(n, k) use pow10Add(k, len(t)) use mulAssoc(digval(n), pow10(k), pow10(len(t))) }

func intToRune(i) (c)
  requires 0 <= i && i <= 9
  ensures c == 48 + i

func newStringNumber() (n)
  modifies nothing
  ensures isfresh(n) && n != nil && wfNum(n) && len(n.significand) == 0 && n.IsAllZero && base(n.significand) == nil && cap(n.significand) == 0

func (n *stringNumber).clear()
  requires n != nil
  modifies n.*
  ensures[empty] wfNum(n) && len(n.significand) == 0 && n.IsAllZero
  ensures base(n.significand) == old(base(n.significand))

func (n *stringNumber).append(i)
  requires wfNum(n) && 0 <= i && i <= 9
  modifies n.significand, elems(n.significand), n.IsAllZero
  ensures[digit] sg(n) == old(sg(n)) ++ [48 + i]
  ensures[zero] n.IsAllZero == (old(n.IsAllZero) && i == 0)
  ensures wfNum(n) && (base(n.significand) == old(base(n.significand)) || isfresh(n.significand))

func (n *stringNumber).shiftScale(i)
  requires wfNum(n) && i >= 0
  modifies n.significand, elems(n.significand), n.scale
  ensures[one] sg(n) == (old(len(n.significand)) == 0 ? [49] : old(sg(n)))
  ensures[scale] n.scale == old(n.scale) + i && n.point == old(n.point) && ex(n) == old(ex(n)) + i
  ensures wfNum(n) && (base(n.significand) == old(base(n.significand)) || isfresh(n.significand))

func (n *stringNumber).normalizeScale()
  requires wfNum(n)
  modifies n.scale, n.point
  ensures[same] ex(n) == old(ex(n)) && wfNum(n)
  ensures[normal] n.point < 0 ? ex(n) == n.scale : (n.scale == 0 && n.point < len(n.significand) && ex(n) < 0)

func (n *stringNumber).intLength() (l)
  requires wfNum(n)
  modifies n.scale, n.point
  ensures[same] ex(n) == old(ex(n)) && wfNum(n)
  ensures[normal] n.point < 0 ? ex(n) == n.scale : (n.scale == 0 && n.point < len(n.significand) && ex(n) < 0)
  ensures[length] l == len(n.significand) + ex(n)

func (n *stringNumber).fillZero(length)
  requires n != nil
  modifies n.significand, elems(n.significand)
  at loop 1 end { use zerosLen($i) }
  loop 1:
    invariant 0 <= i && sg(n) == old(sg(n)) ++ zeros(i) && (length >= 0 ==> i <= length) && (length < 0 ==> i == 0)
    invariant base(n.significand) == old(base(n.significand)) || isfresh(n.significand)
    decreases length - i
  ensures[zeros] sg(n) == old(sg(n)) ++ zeros(length)
  ensures base(n.significand) == old(base(n.significand)) || isfresh(n.significand)

func (n *stringNumber).isZero() (res)
  requires n != nil
  modifies nothing
  ensures res == (len(n.significand) == 0)

func (n *stringNumber).setPoint() (res)
  requires wfNum(n) && len(n.significand) > 0
  modifies n.point
  ensures[accept] res == (old(n.scale) == 0 && old(n.point) < 0)
  ensures[point] (res ? n.point == len(n.significand) : n.point == old(n.point)) && ex(n) == old(ex(n)) && wfNum(n)

// n and t can be added: t is shorter than the zeros at the end of n
spec func fitsIn(s seq[int], e int, t seq[int], f int) bool = len(t) == 0 || len(s) == 0 || e >= len(t) + f
spec func sumSg(s seq[int], e int, t seq[int], f int) seq[int] = len(t) == 0 ? s : (len(s) == 0 ? t : s ++ zeros(e - len(t) - f) ++ t)
spec func sumEx(s seq[int], e int, t seq[int], f int) int = len(t) == 0 ? e : f
func (n *stringNumber).add(t) (res)
  requires wfNum(n) && wfNum(t) && apart(n, t)
  at entry {
    letv ns := sg(n)
    assert[digseq0] forall i int {ns[i]} :: 0 <= i && i < len(ns) ==> 48 <= ns[i] && ns[i] <= 57
  }
  at call fillZero after {
    use zerosLen(n.scale - l)
    letv ns2 := sg(n)
    assert[digseq] forall i int {ns2[i]} :: 0 <= i && i < len(ns2) ==> 48 <= ns2[i] && ns2[i] <= 57
    assert[digits] forall i int {n.significand[i]} :: 0 <= i && i < len(n.significand) ==> n.significand[i] == ns2[i] && 48 <= n.significand[i] && n.significand[i] <= 57
  }
  modifies n.significand, elems(n.significand), n.scale, n.point, t.scale, t.point
  ensures[accept] res == fitsIn(old(sg(n)), old(ex(n)), old(sg(t)), old(ex(t)))
  ensures[sum] res ==> sg(n) == sumSg(old(sg(n)), old(ex(n)), old(sg(t)), old(ex(t))) && ex(n) == sumEx(old(sg(n)), old(ex(n)), old(sg(t)), old(ex(t)))
  ensures[operand] sg(t) == old(sg(t)) && ex(t) == old(ex(t)) && wfNum(t) && base(t.significand) == old(base(t.significand))
  ensures wfNum(n) && (base(n.significand) == old(base(n.significand)) || isfresh(n.significand))

// the characters given to the parser since it was cleared
ghostfield numericParser.read seq[int]
spec func parts(p *numericParser) bool = p != nil && apart(p.total, p.subtotal) && apart(p.total, p.tmp) && apart(p.subtotal, p.tmp)
spec func wfParser(p *numericParser) bool = parts(p) && wfNum(p.total) && wfNum(p.subtotal) && wfNum(p.tmp) &&
  (p.isFirstDigit == (len(p.tmp.significand) == 0)) && p.digitLength >= 0 && (p.isFirstDigit ==> p.digitLength == 0)
spec func nothingRead(p *numericParser) bool = p.isFirstDigit && !p.hasComma && !p.hasHangingPoint && p.digitLength == 0 && p.errorState == errNone &&
  len(p.total.significand) == 0 && len(p.subtotal.significand) == 0 && len(p.tmp.significand) == 0 && p.tmp.IsAllZero
func newNumericParser() (p)
  modifies nothing
  at return { ghost p.read := seq([0], 0, 0) }
  ensures p != nil && isfresh(p) && wfParser(p) && nothingRead(p) && len(p.read) == 0
  ensures isfresh(p.total) && isfresh(p.subtotal) && isfresh(p.tmp) && base(p.total.significand) == nil && base(p.subtotal.significand) == nil && base(p.tmp.significand) == nil

func (p *numericParser).clear()
  requires parts(p)
  modifies p.*, p.total.*, p.subtotal.*, p.tmp.*
  at return { ghost p.read := seq([0], 0, 0) }
  ensures[own] (base(p.total.significand) == old(base(p.total.significand)) || isfresh(p.total.significand)) && (base(p.subtotal.significand) == old(base(p.subtotal.significand)) || isfresh(p.subtotal.significand)) && (base(p.tmp.significand) == old(base(p.tmp.significand)) || isfresh(p.tmp.significand))
  ensures[reset] wfParser(p) && nothingRead(p) && len(p.read) == 0
  ensures p.total == old(p.total) && p.subtotal == old(p.subtotal) && p.tmp == old(p.tmp)

// a comma may stand here: behind 1 to 3 digits that are not all zero, or behind 3 more
spec func commaOk(p *numericParser) bool = !p.isFirstDigit && (p.hasComma ? p.digitLength == 3 : p.digitLength <= 3 && len(p.tmp.significand) > 0 && !p.tmp.IsAllZero)
func (p *numericParser).checkComma() (res)
  requires p != nil && p.tmp != nil
  modifies nothing
  ensures[comma] res == commaOk(p)

spec func isDigit(c int) bool = (48 <= c && c <= 57) || c == '〇' || c == '一' || c == '二' || c == '三' || c == '四' || c == '五' || c == '六' || c == '七' || c == '八' || c == '九'
spec func digitOf(c int) int = (48 <= c && c <= 57) ? c - 48 : (c == '〇' ? 0 : (c == '一' ? 1 : (c == '二' ? 2 : (c == '三' ? 3 : (c == '四' ? 4 : (c == '五' ? 5 : (c == '六' ? 6 : (c == '七' ? 7 : (c == '八' ? 8 : 9)))))))))
spec func smallUnit(c int) int = c == '十' ? 1 : (c == '百' ? 2 : (c == '千' ? 3 : 0))
spec func largeUnit(c int) int = c == '万' ? 4 : (c == '億' ? 8 : (c == '兆' ? 12 : 0))
spec func oneIfEmpty(s seq[int]) seq[int] = len(s) == 0 ? [49] : s
func (p *numericParser).append(c) (res)
  requires wfParser(p)
  modifies p.*, p.total.*, p.subtotal.*, p.tmp.*, elems(p.total.significand), elems(p.subtotal.significand), elems(p.tmp.significand)
  ensures[parts] parts(p) && p.total == old(p.total) && p.subtotal == old(p.subtotal) && p.tmp == old(p.tmp)
  ensures[wf] res ==> wfParser(p)
  at return { ghost p.read := old(p.read) ++ [c] }
  ensures[own] (base(p.total.significand) == old(base(p.total.significand)) || isfresh(p.total.significand)) && (base(p.subtotal.significand) == old(base(p.subtotal.significand)) || isfresh(p.subtotal.significand)) && (base(p.tmp.significand) == old(base(p.tmp.significand)) || isfresh(p.tmp.significand))
  ensures[read] p.read == old(p.read) ++ [c]
  ensures[other] res ==> isDigit(c) || smallUnit(c) > 0 || largeUnit(c) > 0 || c == '.' || c == ','
  // a digit
  ensures[digit] isDigit(c) ==> res && sg(p.tmp) == old(sg(p.tmp)) ++ [48 + digitOf(c)] && p.digitLength == old(p.digitLength) + 1 && !p.hasHangingPoint && p.hasComma == old(p.hasComma)
  ensures[point] c == '.' ==> res == (!old(p.isFirstDigit) && (old(p.hasComma) ==> old(p.digitLength) == 3) && old(p.tmp.scale) == 0 && old(p.tmp.point) < 0)
  ensures[pointed] c == '.' && res ==> p.hasHangingPoint && !p.hasComma && sg(p.tmp) == old(sg(p.tmp)) && ex(p.tmp) == 0 && p.tmp.point == len(p.tmp.significand)
  ensures[comma] c == ',' ==> res == (old(commaOk(p)) && old(p.tmp.point) < 0)
  ensures[commaed] c == ',' && res ==> p.hasComma && p.digitLength == 0 && sg(p.tmp) == old(sg(p.tmp)) && ex(p.tmp) == old(ex(p.tmp)) && p.tmp.point == old(p.tmp.point) && p.hasHangingPoint == old(p.hasHangingPoint)
  ensures[kept] res && smallUnit(c) == 0 && largeUnit(c) == 0 ==> sg(p.total) == old(sg(p.total)) && ex(p.total) == old(ex(p.total)) && sg(p.subtotal) == old(sg(p.subtotal)) && ex(p.subtotal) == old(ex(p.subtotal))
  ensures[fraction] isDigit(c) ==> ex(p.tmp) == (old(p.tmp.point) < 0 ? old(ex(p.tmp)) : old(ex(p.tmp)) - 1) && p.tmp.point == old(p.tmp.point)
  // a unit: what was read since the last one, times ten to u, is added
  ensures[small] smallUnit(c) > 0 ==> res == (!old(p.hasHangingPoint) && (old(p.hasComma) ==> old(p.digitLength) == 3) &&
    fitsIn(old(sg(p.subtotal)), old(ex(p.subtotal)), oneIfEmpty(old(sg(p.tmp))), old(ex(p.tmp)) + smallUnit(c)))
  ensures[smallSum] smallUnit(c) > 0 && res ==>
    sg(p.subtotal) == sumSg(old(sg(p.subtotal)), old(ex(p.subtotal)), oneIfEmpty(old(sg(p.tmp))), old(ex(p.tmp)) + smallUnit(c)) &&
    ex(p.subtotal) == sumEx(old(sg(p.subtotal)), old(ex(p.subtotal)), oneIfEmpty(old(sg(p.tmp))), old(ex(p.tmp)) + smallUnit(c)) &&
    sg(p.total) == old(sg(p.total)) && ex(p.total) == old(ex(p.total))
  ensures[large] largeUnit(c) > 0 ==> res == (!old(p.hasHangingPoint) && (old(p.hasComma) ==> old(p.digitLength) == 3) &&
    fitsIn(old(sg(p.subtotal)), old(ex(p.subtotal)), old(sg(p.tmp)), old(ex(p.tmp))) && !(old(len(p.tmp.significand)) == 0 && old(len(p.subtotal.significand)) == 0) &&
    fitsIn(old(sg(p.total)), old(ex(p.total)), sumSg(old(sg(p.subtotal)), old(ex(p.subtotal)), old(sg(p.tmp)), old(ex(p.tmp))),
      sumEx(old(sg(p.subtotal)), old(ex(p.subtotal)), old(sg(p.tmp)), old(ex(p.tmp))) + largeUnit(c)))
  ensures[largeSum] largeUnit(c) > 0 && res ==>
    let s := sumSg(old(sg(p.subtotal)), old(ex(p.subtotal)), old(sg(p.tmp)), old(ex(p.tmp))) ::
    (let e := sumEx(old(sg(p.subtotal)), old(ex(p.subtotal)), old(sg(p.tmp)), old(ex(p.tmp))) + largeUnit(c) ::
    (sg(p.total) == sumSg(old(sg(p.total)), old(ex(p.total)), s, e) && ex(p.total) == sumEx(old(sg(p.total)), old(ex(p.total)), s, e) && len(p.subtotal.significand) == 0))
  ensures[fresh] (smallUnit(c) > 0 || largeUnit(c) > 0) && res ==> len(p.tmp.significand) == 0 && p.tmp.IsAllZero && p.isFirstDigit && p.digitLength == 0 && !p.hasComma && !p.hasHangingPoint

func (p *numericParser).done() (res)
  requires wfParser(p)
  modifies p.*, p.total.*, p.subtotal.*, p.tmp.*, elems(p.total.significand), elems(p.subtotal.significand), elems(p.tmp.significand)
  ensures[parts] parts(p) && p.total == old(p.total) && p.subtotal == old(p.subtotal) && p.tmp == old(p.tmp) && wfNum(p.total)
  ensures[own] (base(p.total.significand) == old(base(p.total.significand)) || isfresh(p.total.significand)) && (base(p.subtotal.significand) == old(base(p.subtotal.significand)) || isfresh(p.subtotal.significand)) && (base(p.tmp.significand) == old(base(p.tmp.significand)) || isfresh(p.tmp.significand))
  ensures[read] p.read == old(p.read)
  ensures[accept] res == (!old(p.hasHangingPoint) && (old(p.hasComma) ==> old(p.digitLength) == 3) &&
    fitsIn(old(sg(p.subtotal)), old(ex(p.subtotal)), old(sg(p.tmp)), old(ex(p.tmp))) &&
    fitsIn(old(sg(p.total)), old(ex(p.total)), sumSg(old(sg(p.subtotal)), old(ex(p.subtotal)), old(sg(p.tmp)), old(ex(p.tmp))),
      sumEx(old(sg(p.subtotal)), old(ex(p.subtotal)), old(sg(p.tmp)), old(ex(p.tmp)))))
  ensures[sum] res ==>
    let s := sumSg(old(sg(p.subtotal)), old(ex(p.subtotal)), old(sg(p.tmp)), old(ex(p.tmp))) ::
    (let e := sumEx(old(sg(p.subtotal)), old(ex(p.subtotal)), old(sg(p.tmp)), old(ex(p.tmp))) ::
    (sg(p.total) == sumSg(old(sg(p.total)), old(ex(p.total)), s, e) && ex(p.total) == sumEx(old(sg(p.total)), old(ex(p.total)), s, e)))

// plain decimal notation: without zeros at the end of the fraction, without the point if nothing is behind it
spec rec func stripZeros(s seq[int]) seq[int] decreases len(s) = len(s) > 0 && s[len(s)-1] == 48 ? stripZeros(seq(s, 0, len(s)-1)) : s
spec func stripPoint(s seq[int]) seq[int] = len(s) > 0 && s[len(s)-1] == 46 ? seq(s, 0, len(s)-1) : s
spec func pointed(s seq[int], e int) seq[int] = seq(s, 0, len(s)+e) ++ [46] ++ seq(s, len(s)+e, len(s))
spec func plain(s seq[int], e int) seq[int] = e >= 0 ? s ++ zeros(e) : stripPoint(stripZeros(pointed(s, e)))
func (n *stringNumber).String() (res)
  requires wfNum(n)
  modifies n.scale, n.point, n.significand, elems(n.significand)
  at entry { letv s0 := sg(n) letv e0 := ex(n) letv pz := s0 ++ zeros(e0) letv pp := pointed(s0, e0)
    assert[digits] forall i int {s0[i]} :: 0 <= i && i < len(s0) ==> 48 <= s0[i] && s0[i] <= 57
    if e0 >= 0 { use zerosLen(e0) assert[asciiz] forall i int {pz[i]} :: 0 <= i && i < len(pz) ==> 46 <= pz[i] && pz[i] <= 57 }
    else { if len(s0) > 0 { assert[asciip] forall i int {pp[i]} :: 0 <= i && i < len(pp) ==> 46 <= pp[i] && pp[i] <= 57 } } }
  at loop 1 begin { letv pt := pointed(s0, e0) assert[pt] pt[len(s0)+e0] == 46 && sg(n)[len(s0)+e0] == 46 && n.significand[len(s0)+e0] == 46 if i >= 0 && n.significand[i] == 48 { assert[behind] i > len(s0)+e0 letv cur := seq(n.significand, 0, i+1) assert[last] cur[len(cur)-1] == 48 assert[init] seq(cur, 0, len(cur)-1) == seq(n.significand, 0, i) assert[strip] stripZeros(cur) == stripZeros(seq(n.significand, 0, i)) } }
  loop 1:
    invariant 0 - 1 <= i && i < len(n.significand) && j == len(n.significand) - 1 - i && sg(n) == pointed(s0, e0)
    invariant stripZeros(seq(n.significand, 0, i+1)) == stripZeros(pointed(s0, e0))
    invariant i >= len(s0)+e0
    decreases i + 1
  ensures[zero] old(len(n.significand)) == 0 ==> seq(res) == [48]
  ensures[plain] old(len(n.significand)) > 0 ==> seq(res) == strOfRunes(plain(old(sg(n)), old(ex(n))))
  at return { letv fin := sg(n) if old(len(n.significand)) > 0 { assert[notempty] len(fin) > 0 assert[which] fin == (e0 >= 0 ? pz : seq(pp, 0, len(fin))) assert[ascii] forall i int {fin[i]} :: 0 <= i && i < len(fin) ==> 46 <= fin[i] && fin[i] <= 57 use encLen(fin) use boffMono(fin, 0, len(fin)) assert[enc] seq(res) == strOfRunes(fin) } }
  ensures[some] len(res) > 0
  ensures base(n.significand) == old(base(n.significand)) || isfresh(n.significand)
func (p *numericParser).getNormalized() (res)
  requires parts(p) && wfNum(p.total)
  modifies p.total.*, elems(p.total.significand)
  ensures[zero] old(len(p.total.significand)) == 0 ==> seq(res) == [48]
  ensures[plain] old(len(p.total.significand)) > 0 ==> seq(res) == strOfRunes(plain(old(sg(p.total)), old(ex(p.total))))
  ensures[some] len(res) > 0
  ensures[parts] parts(p) && (base(p.total.significand) == old(base(p.total.significand)) || isfresh(p.total.significand))
