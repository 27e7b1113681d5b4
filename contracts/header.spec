package dictionary
properties C11

// the characters in front of the first zero byte, at most up to e
spec rec func nulEnd(b seq[int], o int, e int) int decreases e - o = o >= e || b[o] == 0 ? o : nulEnd(b, o+1, e)
func ParseDictionaryHeader(input, offset) (h)
  property C11, C20
  requires true
  modifies nothing
  at entry { letv o0 := offset }
  loop 1:
    invariant o0 + 16 <= i && i <= o0 + 272 && nulEnd(seq(input), o0 + 16, o0 + 272) == nulEnd(seq(input), i, o0 + 272)
    decreases o0 + 272 - i
  ensures[refuse] (h == nil) == (offset < 0 || len(input) - offset < 272)
  ensures[fields] h != nil ==> h.Version == u64le(seq(input), offset) && h.CreateTime == int64(u64le(seq(input), offset+8)) && isfresh(h)
  ensures[description] h != nil ==> (let B := seq(input) :: (seq(h.Description) == seq(B, offset + 16, nulEnd(B, offset + 16, offset + 272))))

spec func noZero(s seq[int]) bool = forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] != 0
func (dh *DictionaryHeader).ToBytes() (b, err)
  requires dh != nil
  modifies nothing
  ensures[accept] (err == nil) == (len(dh.Description) <= 256 && noZero(seq(dh.Description)))
  at return {
    letv K := le8(dh.Version) ++ le8(uint64(dh.CreateTime)) ++ seq(dh.Description)
    letv B := seq(b)
    if err == nil {
      assert[len] len(B) == 272 && len(K) == 16 + len(dh.Description)
      assert[front] forall i int {B[i]} :: 0 <= i && i < len(K) ==> B[i] == K[i]
      assert[front2] seq(B, 0, len(K)) == K assert[front3] seq(b, 0, len(K)) == seq(B, 0, len(K))
      assert[back] forall i int {B[i]} :: len(K) <= i && i < 272 ==> B[i] == 0
      assert[back2] forall i int {b[i]} :: 0 <= i && i < 272 ==> b[i] == B[i]
    }
  }
  ensures[size] err == nil ==> len(b) == 272
  ensures[bytes] err == nil ==> seq(b, 0, 16 + len(dh.Description)) == le8(dh.Version) ++ le8(uint64(dh.CreateTime)) ++ seq(dh.Description)
  ensures[padding] err == nil ==> (forall i int {b[i]} :: 16 + len(dh.Description) <= i && i < 272 ==> b[i] == 0)

lemma nulEndAt(b seq[int], o int, m int, e int)
  requires 0 <= o && o <= m && m <= e && e <= len(b) && (forall i int {b[i]} :: o <= i && i < m ==> b[i] != 0) && (m == e || b[m] == 0)
  ensures nulEnd(b, o, e) == m
  decreases m - o
  proof { if o < m { use nulEndAt(b, o+1, m, e) } }
lemma int64Round(x int)
  requires 0 - 9223372036854775808 <= x && x <= 9223372036854775807
  ensures int64(uint64(x)) == x && 0 <= uint64(x) && uint64(x) <= 18446744073709551615
// the fields read from what ToBytes writes are those of the header
lemma headerRound(v int, t int, d seq[int], b seq[int])
  property C11
  requires 0 <= v && v <= 18446744073709551615 && 0 - 9223372036854775808 <= t && t <= 9223372036854775807
  requires len(d) <= 256 && noZero(d) && len(b) == 272 && seq(b, 0, 16 + len(d)) == le8(v) ++ le8(uint64(t)) ++ d
  requires forall i int {b[i]} :: 16 + len(d) <= i && i < 272 ==> b[i] == 0
  ensures[version] u64le(b, 0) == v
  ensures[time] int64(u64le(b, 8)) == t
  ensures[description] seq(b, 16, nulEnd(b, 16, 272)) == d
  proof {
    use le8Round(v) use int64Round(t) use le8Round(uint64(t))
    letv c := le8(v) ++ le8(uint64(t)) ++ d
    assert[pre] forall i int {b[i]} :: 0 <= i && i < 16 + len(d) ==> b[i] == c[i]
    assert[v] u64le(b, 0) == u64le(le8(v), 0)
    assert[t] u64le(b, 8) == u64le(le8(uint64(t)), 0)
    assert[nz] forall i int {b[i]} :: 16 <= i && i < 16 + len(d) ==> b[i] == d[i-16]
    use nulEndAt(b, 16, 16 + len(d), 272)
  }
