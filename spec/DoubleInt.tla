------------------------------ MODULE DoubleInt ------------------------------
(* Integers of twice the width of a word, built of a high and a low half, nested. A value of width w is a number of Big in 0..2^w - 1;   *)
(* read as two's complement where the operation is signed. The second part is the construction from halves itself, for small halves.    *)
EXTENDS Pick, Big
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
Z0 == B(0)
O1 == B(1)
Uw(a, w) == BWrap(a, w)
Sw(a, w) == BWrapS(a, w)
CmpR(c) == <<B01(c = 0), B01(c # 0), B01(c < 0), B01(c > 0), B01(c <= 0), B01(c >= 0)>>
CmpU(c) == <<B01(c < 0), B01(c > 0), B01(c <= 0), B01(c >= 0)>>
\* the low w bits of x shifted right by n, with the sign bit ext (0 or -1) shifted in
Eshr(a, n, w, ext) == IF n >= w THEN Uw(B(ext), w) ELSE IF ext = 0 THEN BShr(a, n) ELSE BAdd(BShr(a, n), BSub(BPow2(w), BPow2(w - n)))
Lzc(a, w) == w - Len(BBits(a))
Nib(a, w) == LET n == w \div 4 IN [i \in 1..n |-> BToInt(BMod(BShr(a, 4 * (n - i)), B(16)))]
Bin(o, a, b, w) == CASE o = "+" -> Uw(BAdd(a, b), w) [] o = "-" -> Uw(BSub(a, b), w) [] o = "*" -> Uw(BMul(a, b), w) [] o = "&" -> BAnd(a, b) [] o = "|" -> BOr(a, b) [] o = "^" -> BXor(a, b)
  [] o = "/" -> Uw(BQuo(Sw(a, w), Sw(b, w)), w) [] o = "%" -> Uw(BRem(Sw(a, w), Sw(b, w)), w)
Call(f, c) == LET r == c[Len(c)] w == c[1] IN CASE
       f = "bin" -> r = Bin(c[2], c[3], c[4], w)
    [] f = "full" -> r = BMul(c[2], c[3])
    [] f = "udiv" -> r = <<BQuo(c[2], c[3]), BRem(c[2], c[3])>>
    [] f = "adc" -> LET s == BAdd(BAdd(c[2], c[3]), B(c[4])) IN r = <<Uw(s, w), B(IF BLt(s, BPow2(w)) THEN 0 ELSE 1)>>
    [] f = "sbb" -> LET s == BSub(BSub(c[2], c[3]), B(c[4])) IN r = <<Uw(s, w), B(IF BLt(s, Z0) THEN 1 ELSE 0)>>
    [] f = "neg" -> r = Uw(BNeg(c[2]), w)
    [] f = "not" -> r = BSub(BSub(BPow2(w), O1), c[2])
    [] f = "same" -> r = c[2]
    [] f = "pre" -> LET s == Uw(BAdd(c[2], B(c[3])), w) IN r = <<s, s>>
    [] f = "post" -> r = <<c[2], Uw(BAdd(c[2], B(c[3])), w)>>
    [] f = "shl" -> r = IF c[3] >= w THEN Z0 ELSE Uw(BShl(c[2], c[3]), w)
    [] f = "shr" -> r = Eshr(c[2], c[3], w, IF BLt(Sw(c[2], w), Z0) THEN 0 - 1 ELSE 0)
    [] f = "eshr" -> r = Eshr(c[2], c[3], w, c[4])
    [] f = "lzc" -> r = Lzc(c[2], w)
    [] f = "isneg" -> r = B01(BLt(Sw(c[2], w), Z0))
    [] f = "cmp" -> r = CmpR(BCmp(Sw(c[2], w), Sw(c[3], w)))
    [] f = "ucmp" -> r = CmpU(BCmp(c[2], c[3]))
    [] f = "ofint" -> r = Uw(B(c[2]), w)
    [] f = "ofhalf" -> r = Uw(Sw(c[2], w \div 2), w)
    [] f = "halves" -> r = <<BShr(c[2], w \div 2), BMod(c[2], BPow2(w \div 2))>>
    [] f = "u64" -> r = Uw(c[2], 64)
    [] f = "hex" -> r = Nib(c[2], w)
    [] f = "ovf" -> LET s == BAdd(c[2], c[3]) e == IF c[4] = 1 THEN Sw(s, w) ELSE Uw(s, w) IN r = <<B01(e # s), e>>
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
\* ---- halves of k bits: the code's carries and its three-multiplication product
Full(k, x) == <<x \div 2^k, x % 2^k>>
AdcW(k, x, y, cy) == LET s == x + y + cy IN <<s % 2^k, s \div 2^k>>
SbbW(k, x, y, bw) == LET s == x - y - bw IN <<s % 2^k, IF s < 0 THEN 1 ELSE 0>>
\* on pairs <<hi, lo>>
Adc2(k, x, y, cy) == LET l == AdcW(k, x[2], y[2], cy) h == AdcW(k, x[1], y[1], l[2]) IN <<<<h[1], l[1]>>, h[2]>>
Sbb2(k, x, y, bw) == LET l == SbbW(k, x[2], y[2], bw) h == SbbW(k, x[1], y[1], l[2]) IN <<<<h[1], l[1]>>, h[2]>>
V2(k, p) == p[1] * 2^k + p[2]
Kar(k, x, y) == LET a == AdcW(k, x[2], x[1], 0) b == AdcW(k, y[2], y[1], 0)
      m0 == Full(k, x[2] * y[2]) m2 == Full(k, x[1] * y[1]) m1 == Full(k, a[1] * b[1])
      s0 == Sbb2(k, m1, m0, 0) s2 == Sbb2(k, s0[1], m2, 0) m == s2[1]
      c0 == AdcW(k, m0[1], m[2], 0) c1 == AdcW(k, m2[2], m[1], c0[2])
      e1 == IF b[2] = 1 THEN AdcW(k, c1[1], a[1], 0) ELSE <<c1[1], 0>> e2 == IF a[2] = 1 THEN AdcW(k, e1[1], b[1], 0) ELSE <<e1[1], 0>>
  IN <<(m2[1] + a[2] * b[2] - s0[2] - s2[2] + c1[2] + e1[2] + e2[2]) % 2^k, e2[1], c0[1], m0[2]>>
V4(k, q) == ((q[1] * 2^k + q[2]) * 2^k + q[3]) * 2^k + q[4]
MulLow(k, x, y) == LET r == Full(k, x[2] * y[2]) IN <<(r[1] + x[2] * y[1] + x[1] * y[2]) % 2^k, r[2]>>
Shl2(k, x, n) == IF n >= 2 * k THEN <<0, 0>> ELSE IF n > k THEN <<(x[2] * 2^(n - k)) % 2^k, 0>> ELSE IF n = k THEN <<x[2], 0>> ELSE IF n > 0 THEN <<(((x[1] * 2^n) % 2^k) + (x[2] \div 2^(k - n))), (x[2] * 2^n) % 2^k>> ELSE x
EshrW(k, x, n, e) == (x \div 2^n) + (IF e = 0 THEN 0 ELSE 2^k - 2^(k - n))
Eshr2(k, x, n, e) == LET f == IF e = 0 THEN 0 ELSE 2^k - 1 IN IF n >= 2 * k THEN <<f, f>> ELSE IF n > k THEN <<f, EshrW(k, x[1], n - k, e)>> ELSE IF n = k THEN <<f, x[1]>> ELSE IF n > 0 THEN <<EshrW(k, x[1], n, e), (x[2] \div 2^n) + ((x[1] * 2^(k - n)) % 2^k)>> ELSE x
\* shift and subtract
RECURSIVE DivR(_, _, _, _)
DivR(a, b, k, q) == IF k < 0 THEN <<q, a>> ELSE IF a >= b * 2^k THEN DivR(a - b * 2^k, b, k - 1, q + 2^k) ELSE DivR(a, b, k - 1, q)
Lz(w, a) == w - Len(BBits(B(a)))
DiLaws(k, v) == LET x == Full(k, v) M == 2^(2 * k) IN
  /\ \A u \in 0..(M - 1) : LET y == Full(k, u) IN
     /\ V4(k, Kar(k, x, y)) = v * u /\ V2(k, MulLow(k, x, y)) = (v * u) % M
     /\ \A c \in {0, 1} : LET a == Adc2(k, x, y, c) s == Sbb2(k, x, y, c) IN V2(k, a[1]) + M * a[2] = v + u + c /\ V2(k, s[1]) - M * s[2] = v - u - c
     /\ (u > 0 => DivR(v, u, Lz(2 * k, u) - Lz(2 * k, v), 0) = <<v \div u, v % u>>)
  /\ \A n \in 0..(2 * k + 1) : V2(k, Shl2(k, x, n)) = (v * 2^n) % M /\ \A e \in {0, -1} : B(V2(k, Eshr2(k, x, n, e))) = Eshr(B(v), n, 2 * k, e)
  /\ Nib(B(v), 8) = <<v \div 16, v % 16>> \/ v > 255
LInit == out \in UNION {{[f |-> "law", k |-> k, n |-> i] : i \in 0..(4^k - 1)} : k \in 1..MaxN}
LNext == UNCHANGED out
Laws == out.f = "law" => DiLaws(out.k, out.n)
===============================================================================
