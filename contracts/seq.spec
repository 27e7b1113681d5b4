package std
// replacing characters b..e-1 of t = c ++ u, b just behind c
lemma spliceSeq(t seq[int], c seq[int], u seq[int], b int, e int, r seq[int], t2 seq[int])
  requires t == c ++ u && b == len(c) && b <= e && e <= len(t) && t2 == seq(t, 0, b) ++ r ++ seq(t, e, len(t))
  ensures t2 == c ++ r ++ seq(u, e - b, len(u))
// shifting the border of c ++ s[m..]
lemma restStep(s seq[int], m int)
  requires 0 <= m && m < len(s)
  ensures seq(s, m, len(s)) == [s[m]] ++ seq(s, m+1, len(s))
lemma subSub(s seq[int], a int, b int, i int, j int)
  requires 0 <= a && a <= b && b <= len(s) && 0 <= i && i <= j && j <= b - a
  ensures seq(seq(s, a, b), i, j) == seq(s, a + i, a + j)
lemma concatAssoc(a seq[int], b seq[int], c seq[int])
  ensures a ++ (b ++ c) == (a ++ b) ++ c
lemma tailOf(a seq[int], x int, s seq[int])
  requires a == [x] ++ s
  ensures seq(a, 1, len(a)) == s
