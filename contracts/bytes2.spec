package dictionary
properties C11

// ---- what the bytes say
// the length prefix: one byte below 128, otherwise two, the first with its top bit set
spec func lenAt(b seq[int], o int) int = b[o] < 128 ? b[o] : (b[o] - 128) * 256 + b[o+1]
spec func lenEnd(b seq[int], o int) int = b[o] < 128 ? o + 1 : o + 2
spec func hasLen(b seq[int], o int) bool = 0 <= o && o < len(b) && lenEnd(b, o) <= len(b)
spec func bytesOnly(b seq[int]) bool = forall i int {b[i]} :: 0 <= i && i < len(b) ==> 0 <= b[i] && b[i] <= 255
lemma topBit(x byte) bv property C11
  ensures[top] (band(x, 128) == 128) == (x >= 128)
  ensures[low] x >= 128 ==> band(x, 127) == x - 128
lemma joinLen(x uint16, y uint16) bv property C11
  requires x <= 127
  requires y <= 255
  ensures[join] bor(shl(x, 8), y) == x * 256 + y
lemma splitLen(x uint16) bv property C11
  requires x <= 32767
  ensures[high] bor(shr(x, 8), 128) == 128 + x / 256
  ensures[low] band(x, 255) == x % 256
func bufferToStringLength(bytebuffer, offset) (end, length)
  requires hasLen(seq(bytebuffer), offset)
  modifies nothing
  at entry { use topBit(bytebuffer[offset]) if bytebuffer[offset] >= 128 { use joinLen(bytebuffer[offset]-128, bytebuffer[offset+1]) } }
  ensures[length] length == lenAt(seq(bytebuffer), offset)
  ensures[end] end == lenEnd(seq(bytebuffer), offset)
  ensures[range] 0 <= length && length <= 32767

func bufferToString(bytebuffer, offset) (end, s)
  requires hasLen(seq(bytebuffer), offset) && lenEnd(seq(bytebuffer), offset) + lenAt(seq(bytebuffer), offset) <= len(bytebuffer)
  modifies nothing
  ensures[string] seq(s) == seq(bytebuffer, lenEnd(seq(bytebuffer), offset), lenEnd(seq(bytebuffer), offset) + lenAt(seq(bytebuffer), offset))
  ensures[end] end == lenEnd(seq(bytebuffer), offset) + lenAt(seq(bytebuffer), offset)

// n little-endian numbers from o on
spec rec func u16sAt(b seq[int], o int, n int) seq[int] decreases n = n <= 0 ? seq(b, 0, 0) : u16sAt(b, o, n-1) ++ [u16le(b, o+2*(n-1))]
spec rec func i32sAt(b seq[int], o int, n int) seq[int] decreases n = n <= 0 ? seq(b, 0, 0) : i32sAt(b, o, n-1) ++ [int32(u32le(b, o+4*(n-1)))]
func bufferToStringUtf16(bytebuffer, offset) (end, s)
  requires hasLen(seq(bytebuffer), offset) && lenEnd(seq(bytebuffer), offset) + 2*lenAt(seq(bytebuffer), offset) <= len(bytebuffer)
  modifies nothing
  loop 1:
    invariant 0 <= i && i <= length && len(javainternal) == length && seq(javainternal, 0, i) == u16sAt(seq(bytebuffer), offset, i)
    decreases length - i
  ensures[string] seq(s) == strOfRunes(fromUtf16(u16sAt(seq(bytebuffer), lenEnd(seq(bytebuffer), offset), lenAt(seq(bytebuffer), offset))))
  ensures[end] end == lenEnd(seq(bytebuffer), offset) + 2*lenAt(seq(bytebuffer), offset)

func bufferToInt32Array(bytebuffer, offset) (end, a)
  requires 0 <= offset && offset < len(bytebuffer) && offset + 1 + 4*bytebuffer[offset] <= len(bytebuffer)
  modifies nothing
  loop 1:
    invariant 0 <= i && i <= length && len(array) == length && seq(array, 0, i) == i32sAt(seq(bytebuffer), offset, i)
    decreases length - i
  ensures[array] seq(a) == i32sAt(seq(bytebuffer), offset+1, bytebuffer[offset]) && isfresh(a) && base(a) != nil
  ensures[end] end == offset + 1 + 4*bytebuffer[offset]

// ---- what is written
spec func lenBytes(n int) seq[int] = n <= 127 ? [n] : [128 + n / 256, n % 256]
func writeStringLength(buffer, length) (err)
  requires buffer != nil
  modifies buffer.data
  at entry { if 0 <= length && length <= 32767 { use splitLen(length) } }
  ensures[accept] (err == nil) == (0 <= length && length <= 32767)
  ensures[bytes] err == nil ==> buffer.data == old(buffer.data) ++ lenBytes(length)
func writeString(buffer, s) (err)
  requires buffer != nil
  modifies buffer.data
  ensures[accept] (err == nil) == (len(s) <= 32767)
  ensures[bytes] err == nil ==> buffer.data == old(buffer.data) ++ lenBytes(len(s)) ++ seq(s)
spec rec func le2s(u seq[int]) seq[int] decreases len(u) = len(u) == 0 ? seq(u, 0, 0) : le2s(seq(u, 0, len(u)-1)) ++ le2(u[len(u)-1])
spec rec func le4s(u seq[int]) seq[int] decreases len(u) = len(u) == 0 ? seq(u, 0, 0) : le4s(seq(u, 0, len(u)-1)) ++ le4(uint32(u[len(u)-1]))
func writeStringUtf16(buffer, s) (err)
  requires buffer != nil
  modifies buffer.data
  at entry { letv u := utf16of(runes(s)) letv d := buffer.data }
  at loop 1 begin { if $i < len(u) { letv v := seq(u, 0, $i+1) assert[init] seq(v, 0, len(v)-1) == seq(u, 0, $i) assert[step] le2s(v) == le2s(seq(u, 0, $i)) ++ le2(u[$i]) use concatAssoc(d ++ lenBytes(len(u)), le2s(seq(u, 0, $i)), le2(u[$i])) } }
  loop 1:
    invariant err == nil && buffer.data == d ++ lenBytes(len(u)) ++ le2s(seq(u, 0, $i))
  ensures[accept] (err == nil) == (len(utf16of(runes(s))) <= 32767)
  ensures[bytes] err == nil ==> buffer.data == old(buffer.data) ++ lenBytes(len(utf16of(runes(s)))) ++ le2s(utf16of(runes(s)))
func writeIntArray(buffer, a) (err)
  requires buffer != nil
  modifies buffer.data
  at entry { letv u := seq(a) letv d := buffer.data }
  at loop 1 begin { if $i < len(u) { letv v := seq(u, 0, $i+1) assert[init] seq(v, 0, len(v)-1) == seq(u, 0, $i) assert[step] le4s(v) == le4s(seq(u, 0, $i)) ++ le4(uint32(u[$i])) use concatAssoc(d ++ [len(u)], le4s(seq(u, 0, $i)), le4(uint32(u[$i]))) } }
  loop 1:
    invariant buffer.data == d ++ [len(u)] ++ le4s(seq(u, 0, $i))
  ensures[accept] (err == nil) == (len(a) <= 255)
  ensures[bytes] err == nil ==> buffer.data == old(buffer.data) ++ [len(a)] ++ le4s(seq(a))

// ---- what was written is what is read
lemma lenRound(p seq[int], n int, q seq[int])
  requires 0 <= n && n <= 32767
  ensures[read] let b := p ++ lenBytes(n) ++ q :: (hasLen(b, len(p)) && lenAt(b, len(p)) == n && lenEnd(b, len(p)) == len(p) + len(lenBytes(n)))
lemma stringRound(p seq[int], s seq[int], q seq[int])
  property C11
  requires len(s) <= 32767
  ensures[read] let b := p ++ (lenBytes(len(s)) ++ s) ++ q ::
    (hasLen(b, len(p)) && lenAt(b, len(p)) == len(s) && seq(b, lenEnd(b, len(p)), lenEnd(b, len(p)) + lenAt(b, len(p))) == s &&
     lenEnd(b, len(p)) + lenAt(b, len(p)) == len(p) + len(lenBytes(len(s)) ++ s))
  proof {
    use concatAssoc(p, lenBytes(len(s)), s) use concatAssoc(p ++ lenBytes(len(s)), s, q)
    use lenRound(p, len(s), s ++ q)
  }
lemma le2Round(v int)
  requires 0 <= v && v <= 65535
  ensures len(le2(v)) == 2 && u16le(le2(v), 0) == v && (forall i int {le2(v)[i]} :: 0 <= i && i < 2 ==> 0 <= le2(v)[i] && le2(v)[i] <= 255)
lemma le4Round(v int)
  requires 0 <= v && v <= 4294967295
  ensures len(le4(v)) == 4 && u32le(le4(v), 0) == v && (forall i int {le4(v)[i]} :: 0 <= i && i < 4 ==> 0 <= le4(v)[i] && le4(v)[i] <= 255)
lemma le8Round(v int)
  property C11
  requires 0 <= v && v <= 18446744073709551615
  ensures len(le8(v)) == 8 && u64le(le8(v), 0) == v
  proof { use le4Round(v % 4294967296) use le4Round(v / 4294967296) }
lemma int32Round(x int)
  requires 0 - 2147483648 <= x && x <= 2147483647
  ensures int32(uint32(x)) == x && 0 <= uint32(x) && uint32(x) <= 4294967295
lemma le4sLen(u seq[int])
  ensures len(le4s(u)) == 4 * len(u)
  decreases len(u)
  proof { if len(u) > 0 { use le4sLen(seq(u, 0, len(u)-1)) } }
lemma le2sLen(u seq[int])
  ensures len(le2s(u)) == 2 * len(u)
  decreases len(u)
  proof { if len(u) > 0 { use le2sLen(seq(u, 0, len(u)-1)) } }
// reading the numbers does not look behind them
lemma i32sPrefix(b seq[int], c seq[int], o int, n int)
  requires 0 <= o && 0 <= n && o + 4*n <= len(b)
  ensures i32sAt(b ++ c, o, n) == i32sAt(b, o, n)
  decreases n
  proof { if n > 0 { use i32sPrefix(b, c, o, n-1) } }
lemma u16sPrefix(b seq[int], c seq[int], o int, n int)
  requires 0 <= o && 0 <= n && o + 2*n <= len(b)
  ensures u16sAt(b ++ c, o, n) == u16sAt(b, o, n)
  decreases n
  proof { if n > 0 { use u16sPrefix(b, c, o, n-1) } }
spec func int32s(u seq[int]) bool = forall i int {u[i]} :: 0 <= i && i < len(u) ==> 0 - 2147483648 <= u[i] && u[i] <= 2147483647
spec func uint16s(u seq[int]) bool = forall i int {u[i]} :: 0 <= i && i < len(u) ==> 0 <= u[i] && u[i] <= 65535
lemma i32sRound(p seq[int], u seq[int])
  requires int32s(u)
  ensures i32sAt(p ++ le4s(u), len(p), len(u)) == u
  decreases len(u)
  proof { if len(u) > 0 {
    letv v := seq(u, 0, len(u)-1)
    letv x := u[len(u)-1]
    letv w := le4(uint32(x))
    use i32sRound(p, v) use le4sLen(v) use int32Round(x) use le4Round(uint32(x))
    use concatAssoc(p, le4s(v), w)
    assert[un] le4s(u) == le4s(v) ++ w
    assert[cat] p ++ le4s(u) == (p ++ le4s(v)) ++ w
    use i32sPrefix(p ++ le4s(v), w, len(p), len(v))
    letv b := (p ++ le4s(v)) ++ w
    assert[last] u32le(b, len(p)+4*len(v)) == u32le(w, 0)
    assert[whole] u == v ++ [x]
  } else { assert len(i32sAt(p ++ le4s(u), len(p), 0)) == 0 } }
lemma u16sRound(p seq[int], u seq[int])
  requires uint16s(u)
  ensures u16sAt(p ++ le2s(u), len(p), len(u)) == u
  decreases len(u)
  proof { if len(u) > 0 {
    letv v := seq(u, 0, len(u)-1)
    letv x := u[len(u)-1]
    letv w := le2(x)
    use u16sRound(p, v) use le2sLen(v) use le2Round(x)
    use concatAssoc(p, le2s(v), w)
    assert[un] le2s(u) == le2s(v) ++ w
    assert[cat] p ++ le2s(u) == (p ++ le2s(v)) ++ w
    use u16sPrefix(p ++ le2s(v), w, len(p), len(v))
    letv b := (p ++ le2s(v)) ++ w
    assert[last] u16le(b, len(p)+2*len(v)) == u16le(w, 0)
    assert[whole] u == v ++ [x]
  } else { assert len(u16sAt(p ++ le2s(u), len(p), 0)) == 0 } }
lemma arrayRound(p seq[int], u seq[int], q seq[int])
  property C11
  requires int32s(u) && len(u) <= 255
  ensures[read] let b := p ++ ([len(u)] ++ le4s(u)) ++ q :: (b[len(p)] == len(u) && i32sAt(b, len(p)+1, b[len(p)]) == u && len(p) + 1 + 4*b[len(p)] == len(p) + len([len(u)] ++ le4s(u)))
  proof {
    use concatAssoc(p, [len(u)], le4s(u)) use le4sLen(u) use i32sRound(p ++ [len(u)], u)
    use i32sPrefix((p ++ [len(u)]) ++ le4s(u), q, len(p)+1, len(u))
  }
lemma string16Round(p seq[int], s seq[int], q seq[int])
  property C11
  requires validRunes(s) && len(utf16of(s)) <= 32767 && uint16s(utf16of(s))
  ensures[read] let u := utf16of(s) :: (let b := p ++ (lenBytes(len(u)) ++ le2s(u)) ++ q ::
    (hasLen(b, len(p)) && lenAt(b, len(p)) == len(u) && fromUtf16(u16sAt(b, lenEnd(b, len(p)), lenAt(b, len(p)))) == s &&
     lenEnd(b, len(p)) + 2*lenAt(b, len(p)) == len(p) + len(lenBytes(len(u)) ++ le2s(u))))
  proof {
    letv t := utf16of(s)
    letv e := lenBytes(len(t))
    use utf16Round(s) use le2sLen(t)
    use concatAssoc(p, e, le2s(t)) use concatAssoc(p ++ e, le2s(t), q)
    use lenRound(p, len(t), le2s(t) ++ q)
    use u16sRound(p ++ e, t)
    use u16sPrefix((p ++ e) ++ le2s(t), q, len(p)+len(e), len(t))
  }
