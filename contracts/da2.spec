package dartsclone
properties C10

// ---- unit encoders: what is written is what the readers of a unit (C09) give back
lemma encLeaf1(u uint32) bv property C10
  ensures[leaf] uLeaf(bor(u, 256))
  ensures[rest] uLabel(bor(u, 256)) == uLabel(u) && uOffset(bor(u, 256)) == uOffset(u)
lemma encLeaf0(u uint32) bv property C10
  ensures[leaf] !uLeaf(band(u, 4294967039))
  ensures[rest] uLabel(band(u, 4294967039)) == uLabel(u) && uOffset(band(u, 4294967039)) == uOffset(u)
lemma encValue(v uint32) bv property C10
  ensures[value] uValue(bor(v, 2147483648)) == uValue(v)
  ensures[plain] v < 2147483648 ==> uValue(v) == v
  ensures[mark] uLabel(bor(v, 2147483648)) >= 2147483648
lemma encLabel(u uint32, l byte) bv property C10
  ensures[label] uLabel(bor(band(u, 4294967040), l)) == band(u, 2147483648) + l
  ensures[rest] uLeaf(bor(band(u, 4294967040), l)) == uLeaf(u) && uOffset(bor(band(u, 4294967040), l)) == uOffset(u)
// offsets the format can hold: below 2^21, or multiples of 256 below 2^29
spec func canOffset(o int) bool = 0 <= o && o < 536870912 && (o < 2097152 || band(o, 255) == 0)
lemma encOffset(u uint32, o uint32) bv property C10
  requires canOffset(o)
  requires u < 2147483648
  ensures[near] o < 2097152 ==> uOffset(bor(band(u, 2147484159), shl(o, 10))) == o
  ensures[nearrest] o < 2097152 ==> uLeaf(bor(band(u, 2147484159), shl(o, 10))) == uLeaf(u) && uLabel(bor(band(u, 2147484159), shl(o, 10))) == uLabel(u)
  ensures[far] o >= 2097152 ==> uOffset(bor(bor(band(u, 2147484159), shl(o, 2)), 512)) == o
  ensures[farrest] o >= 2097152 ==> uLeaf(bor(bor(band(u, 2147484159), shl(o, 2)), 512)) == uLeaf(u) && uLabel(bor(bor(band(u, 2147484159), shl(o, 2)), 512)) == uLabel(u)

func dabuSetHasLeaf(u, hasLeaf) (res)
  hide uOffset,uLabel,uLeaf,uValue
  at entry { use encLeaf1(u)  use encLeaf0(u) }
  ensures[leaf] uLeaf(res) == hasLeaf
  ensures[rest] uLabel(res) == uLabel(u) && uOffset(res) == uOffset(u)
func dabuSetValue(value) (res)
  hide uOffset,uLabel,uLeaf,uValue
  requires 0 <= value && value < 2147483648
  at entry { use encValue(value) }
  ensures[value] uValue(res) == value
  ensures[mark] uLabel(res) >= 2147483648
func dabuSetLabel(u, label) (res)
  hide uOffset,uLabel,uLeaf,uValue
  at entry { use encLabel(u, label) }
  ensures[label] uLabel(res) == band(u, 2147483648) + label
  ensures[rest] uLeaf(res) == uLeaf(u) && uOffset(res) == uOffset(u)
func dabuSetOffset(u, offset) (res)
  hide uOffset,uLabel,uLeaf,uValue
  requires canOffset(offset) && u < 2147483648
  at entry { use encOffset(u, offset) }
  ensures[offset] uOffset(res) == offset
  ensures[rest] uLeaf(res) == uLeaf(u) && uLabel(res) == uLabel(u)

// ---- the key set
func (ks *keySet).length() (n)
  modifies nothing
  ensures n == len(ks.keys)
func (ks *keySet).hasValues() (b)
  modifies nothing
  ensures b == (len(ks.values) > 0)
func (ks *keySet).getKey(id) (k)
  requires 0 <= id && id < len(ks.keys)
  modifies nothing
  ensures k == ks.keys[id]
func (ks *keySet).getKeyByte(keyId, byteId) (b)
  requires 0 <= keyId && keyId < len(ks.keys) && 0 <= byteId
  modifies nothing
  ensures b == (byteId < len(ks.keys[keyId]) ? ks.keys[keyId][byteId] : 0)
func (ks *keySet).getValue(id) (v)
  requires 0 <= id && (len(ks.values) == 0 || id < len(ks.values))
  modifies nothing
  ensures v == (len(ks.values) > 0 ? ks.values[id] : id)

// ---- the units of a finished automaton state
func (u unit).child() (res)
  ensures res == shr(u, 2)
func (u unit).value() (res)
  ensures res == shr(u, 1)
func (u unit).hasSibling() (res)
  ensures res == (band(u, 1) == 1)
func (u unit).isState() (res)
  ensures res == (band(u, 2) == 2)
lemma nodeUnit(c uint32, s bool, t bool) bv property C10
  ensures[leafvalue] c < 2147483648 ==> shr(bor(uint32(shl(c, 1)), s ? 1 : 0), 1) == c
  ensures[leafsibling] band(bor(uint32(shl(c, 1)), s ? 1 : 0), 1) == (s ? 1 : 0)
  ensures[child] c < 1073741824 ==> shr(bor(bor(uint32(shl(c, 2)), t ? 2 : 0), s ? 1 : 0), 2) == c
  ensures[sibling] band(bor(bor(uint32(shl(c, 2)), t ? 2 : 0), s ? 1 : 0), 1) == (s ? 1 : 0)
  ensures[state] band(bor(bor(uint32(shl(c, 2)), t ? 2 : 0), s ? 1 : 0), 2) == (t ? 2 : 0)
func (n *node).unit() (res)
  requires 0 <= n.child && n.child < (n.label == 0 ? 2147483648 : 1073741824)
  at entry { use nodeUnit(n.child, n.hasSibling, n.isState) }
  ensures[value] n.label == 0 ==> shr(res, 1) == n.child
  ensures[child] n.label != 0 ==> shr(res, 2) == n.child && (band(res, 2) == 2) == n.isState
  ensures[sibling] (band(res, 1) == 1) == n.hasSibling

// ---- bit vectors with rank
spec rec func bitAt(u int, i int) int decreases 0 = band(shr(u, i), 1)
spec func bitOf(us []uint32, id int) bool = bitAt(us[id / 32], id % 32) == 1
// the number of ones among the lowest n bits of a unit, and among the units before unit n
spec rec func ones(u int, n int) int decreases 0 = (0 < n ? bitAt(u, 0) : 0) + (1 < n ? bitAt(u, 1) : 0) + (2 < n ? bitAt(u, 2) : 0) + (3 < n ? bitAt(u, 3) : 0) + (4 < n ? bitAt(u, 4) : 0) + (5 < n ? bitAt(u, 5) : 0) + (6 < n ? bitAt(u, 6) : 0) + (7 < n ? bitAt(u, 7) : 0) + (8 < n ? bitAt(u, 8) : 0) + (9 < n ? bitAt(u, 9) : 0) + (10 < n ? bitAt(u, 10) : 0) + (11 < n ? bitAt(u, 11) : 0) + (12 < n ? bitAt(u, 12) : 0) + (13 < n ? bitAt(u, 13) : 0) + (14 < n ? bitAt(u, 14) : 0) + (15 < n ? bitAt(u, 15) : 0) + (16 < n ? bitAt(u, 16) : 0) + (17 < n ? bitAt(u, 17) : 0) + (18 < n ? bitAt(u, 18) : 0) + (19 < n ? bitAt(u, 19) : 0) + (20 < n ? bitAt(u, 20) : 0) + (21 < n ? bitAt(u, 21) : 0) + (22 < n ? bitAt(u, 22) : 0) + (23 < n ? bitAt(u, 23) : 0) + (24 < n ? bitAt(u, 24) : 0) + (25 < n ? bitAt(u, 25) : 0) + (26 < n ? bitAt(u, 26) : 0) + (27 < n ? bitAt(u, 27) : 0) + (28 < n ? bitAt(u, 28) : 0) + (29 < n ? bitAt(u, 29) : 0) + (30 < n ? bitAt(u, 30) : 0) + (31 < n ? bitAt(u, 31) : 0)
spec rec func onesTo(us []uint32, n int) int decreases n = n <= 0 ? 0 : onesTo(us, n-1) + ones(us[n-1], 32)
lemma getBit(u uint32, i uint32) bv property C10
  requires i < 32
  ensures band(shr(u, i), 1) == bitAt(u, i)
lemma setBit(u uint32, i uint32, j uint32) bv property C10
  requires i < 32
  requires j < 32
  ensures[set] bitAt(bor(u, uint32(shl(1, i))), j) == (i == j ? 1 : bitAt(u, j))
  ensures[clear] bitAt(band(u, 4294967295 - uint32(shl(1, i))), j) == (i == j ? 0 : bitAt(u, j))
lemma zeroBits(j uint32) bv property C10
  requires j < 32
  ensures bitAt(0, j) == 0
spec func pc1(u int) int = uint32(shr(band(u, 2863311530), 1) + band(u, 1431655765))
spec func pc2(u int) int = uint32(shr(band(u, 3435973836), 2) + band(u, 858993459))
spec func pc4(u int) int = band(uint32(shr(u, 4) + u), 252645135)
spec func pc8(u int) int = uint32(u + shr(u, 8))
spec func pc16(u int) int = uint32(u + shr(u, 16))
lemma popBits(u uint32) bv property C10
  ensures band(pc16(pc8(pc4(pc2(pc1(u))))), 255) == ones(u, 32)
lemma lowOnes(u uint32, k uint32) bv property C10
  requires k < 32
  ensures ones(band(u, shr(4294967295, 31 - k)), 32) == ones(u, k + 1)
lemma moreOnes(u uint32, k uint32) bv property C10
  requires k < 32
  ensures[more] ones(u, k + 1) == ones(u, k) + bitAt(u, k)
  ensures[none] ones(u, 0) == 0
  ensures[bound] ones(u, k) <= k

func popCount(unit) (n)
  hide bitAt,ones
  at entry { use popBits(unit) }
  ensures n == ones(unit, 32)

func (v *bitVector).get(id) (b)
  hide bitAt
  requires 0 <= id && id / 32 < len(v.units)
  modifies nothing
  at entry { use getBit(v.units[id / 32], id % 32) }
  ensures b == bitOf(v.units, id)
func (v *bitVector).set(id, bit)
  hide bitAt
  requires 0 <= id && id / 32 < len(v.units)
  modifies elems(v.units)
  at entry { letv u0 := v.units[id / 32] letv n := id % 32  use setBit(u0, n, n) }
  at return { letv u1 := v.units[id / 32]  assert[set] bit ==> u1 == bor(u0, uint32(shl(1, n)))  assert[clear] !bit ==> u1 == band(u0, 4294967295 - uint32(shl(1, n)))
    use forall j int {bitAt(u1, j)} :: setBit(u0, n, j % 32) }
  ensures[is] bitOf(v.units, id) == bit
  ensures[others] forall j int {bitOf(v.units, j)} :: 0 <= j && j / 32 < len(v.units) && j != id ==> bitOf(v.units, j) == old(bitOf(v.units, j))
func (v *bitVector).extend()
  hide bitAt
  requires 0 <= v.length && (v.length + 31) / 32 == len(v.units)
  modifies v.units, v.length, elems(v.units)
  ensures[length] v.length == old(v.length) + 1 && (v.length + 31) / 32 == len(v.units)
  ensures[kept] forall j int {v.units[j]} :: 0 <= j && j < old(len(v.units)) ==> v.units[j] == old(v.units[j])
  ensures[new] old(v.length) % 32 == 0 ==> v.units[len(v.units)-1] == 0
func (v *bitVector).build()
  hide bitAt,ones
  modifies v.ranks, v.numOnes
  loop 1:
    invariant[range] 0 <= i && i <= len(v.units) && len(v.ranks) == len(v.units) && isfresh(v.ranks) && v.ranks != nil
    invariant[units] v.units == old(v.units)
    invariant[ones] v.numOnes == onesTo(v.units, i)
    invariant[ranks] forall k int {v.ranks[k]} :: 0 <= k && k < i ==> v.ranks[k] == onesTo(v.units, k)
  ensures[total] v.numOnes == onesTo(v.units, len(v.units))
  ensures[ranks] len(v.ranks) == len(v.units) && (forall k int {v.ranks[k]} :: 0 <= k && k < len(v.units) ==> v.ranks[k] == onesTo(v.units, k))
func (v *bitVector).rank(id) (n)
  hide bitAt,ones
  requires 0 <= id && id / 32 < len(v.units) && len(v.ranks) == len(v.units)
  requires[built] forall k int {v.ranks[k]} :: 0 <= k && k < len(v.units) ==> v.ranks[k] == onesTo(v.units, k)
  modifies nothing
  at entry { use lowOnes(v.units[id / 32], id % 32) }
  ensures n == onesTo(v.units, id / 32) + ones(v.units[id / 32], id % 32 + 1)

// ---- rejected key sets
spec func noNul(k []byte) bool = forall p int {k[p]} :: 0 <= p && p < len(k) ==> k[p] != 0
// the n-th byte of a key, 0 behind its end
spec rec func at0(k seq[int], n int) int decreases 0 = n < len(k) ? k[n] : 0
trusted func (b *dawgBuilder).flush(id)
  modifies b.*, b.isIntersections.*, elems(b.isIntersections.units), elems(b.nodes), elems(b.units), elems(b.labels), elems(b.table), elems(b.nodeStack), elems(b.recycleBin)
  ensures[bits] b.isIntersections == old(b.isIntersections)
  ensures[own] (base(b.labels) == old(base(b.labels)) || isfresh(b.labels)) && (base(b.table) == old(base(b.table)) || isfresh(b.table)) && (base(b.nodeStack) == old(base(b.nodeStack)) || isfresh(b.nodeStack)) && (base(b.recycleBin) == old(base(b.recycleBin)) || isfresh(b.recycleBin)) && (base(b.nodes) == old(base(b.nodes)) || isfresh(b.nodes)) && (base(b.units) == old(base(b.units)) || isfresh(b.units))
func (b *dawgBuilder).insert(key, value) (err)
  nosafety index,nil
  requires base(key) != base(b.labels) || base(b.labels) == nil
  modifies b.*, b.isIntersections.*, elems(b.isIntersections.units), elems(b.nodes), elems(b.units), elems(b.labels), elems(b.table), elems(b.nodeStack), elems(b.recycleBin)
  loop 1:
    invariant[range] 0 <= keyPos && keyPos <= len(key) + 1
    invariant[nul] forall p int {key[p]} :: 0 <= p && p < keyPos && p < len(key) ==> key[p] != 0
  loop 2:
    invariant[range] 0 <= keyPos && keyPos <= len(key) + 1
    invariant[nul] forall p int {key[p]} :: 0 <= p && p < keyPos && p < len(key) ==> key[p] != 0
    invariant[own] (base(b.labels) == old(base(b.labels)) || isfresh(b.labels)) && (base(b.table) == old(base(b.table)) || isfresh(b.table)) && (base(b.nodeStack) == old(base(b.nodeStack)) || isfresh(b.nodeStack)) && (base(b.recycleBin) == old(base(b.recycleBin)) || isfresh(b.recycleBin)) && (base(b.nodes) == old(base(b.nodes)) || isfresh(b.nodes)) && (base(b.units) == old(base(b.units)) || isfresh(b.units))
  ensures[negative] value < 0 ==> err != nil
  ensures[empty] len(key) == 0 ==> err != nil
  ensures[nul] err == nil ==> noNul(key)
  ensures[own] (base(b.labels) == old(base(b.labels)) || isfresh(b.labels)) && (base(b.table) == old(base(b.table)) || isfresh(b.table)) && (base(b.nodeStack) == old(base(b.nodeStack)) || isfresh(b.nodeStack)) && (base(b.recycleBin) == old(base(b.recycleBin)) || isfresh(b.recycleBin)) && (base(b.nodes) == old(base(b.nodes)) || isfresh(b.nodes)) && (base(b.units) == old(base(b.units)) || isfresh(b.units))
  ensures[bits] b.isIntersections == old(b.isIntersections)

// ---- offsets chosen by the builder can be stored in a unit
lemma farOffset(a uint32, b uint32) bv property C10
  requires a < 536870912
  requires b < 536870912
  ensures[small] (band(bxor(a, b), 255) == 0 || band(bxor(a, b), 534773760) == 0) ==> canOffset(bxor(a, b))
  ensures[block] band(b, 255) == 0 ==> canOffset(bxor(a, bor(b, band(a, 255))))
lemma inBlock(a uint32, l byte) bv property C10
  requires a < 536870912
  ensures bxor(a, l) < 536870912
func (dab *doubleArrayBuilder).isValidOffset(id, offset) (ok)
  nosafety index
  requires 0 <= id && id < 536870912 && 0 <= offset && offset < 536870912
  modifies nothing
  at entry { use farOffset(id, offset) }
  ensures[fits] ok ==> canOffset(bxor(id, offset))
func (dab *doubleArrayBuilder).findValidOffset(id) (res)
  nosafety index
  requires 0 <= id && id < 536870912 && len(dab.units) < 536870912 && len(dab.units) % 256 == 0 && len(dab.labels) > 0
  requires[list] 0 <= dab.extrasHead && dab.extrasHead < 536870000 && (forall k int {dab.extras[k].next} :: 0 <= k && k < len(dab.extras) ==> 0 <= dab.extras[k].next && dab.extras[k].next < 536870000)
  modifies nothing
  loop 1:
    invariant 0 <= unfixedId && unfixedId < 536870000
  at entry { use farOffset(id, len(dab.units)) }
  at loop 1 begin { use inBlock(unfixedId, dab.labels[0]) }
  ensures[fits] canOffset(bxor(id, res))
