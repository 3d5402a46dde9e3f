-------------------------------- MODULE Dioph --------------------------------
(* Diophantine enumeration: continued fractions, convergents, nearest lattice points, Farey neighbours, expansions in a base, Pell     *)
(* equations, sums of two squares and families of triples. B01-style truth values; wide numbers are numbers of Big.                    *)
EXTENDS Pick, Big, Arith
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
Z0 == B(0)
O1 == B(1)

IAbs(x) == IF x < 0 THEN 0 - x ELSE x
Gcd3(a, b, c) == GcdN(GcdN(a, b), c)
ISq(n) == BToInt(BRoot(B(n), 2))
IsSq(n) == n >= 0 /\ ISq(n) * ISq(n) = n
BSq(x) == BRoot(x, 2)
SetOf(q) == {q[i] : i \in 1..Len(q)}
Same(q, S) == Len(q) = Cardinality(S) /\ SetOf(q) = S
\* ---- continued fractions: the value of <<a1, a2, ...>> is a fraction, 1/0 for none
CfVal(v) == FoldLeft(LAMBDA pq, i : LET a == v[Len(v) + 1 - i] IN <<BAdd(BMul(a, pq[1]), pq[2]), pq[1]>>, <<O1, Z0>>, [i \in 1..Len(v) |-> i])
Cf(p, q, v) == LET w == CfVal(v) IN BMul(w[1], q) = BMul(w[2], p) /\ (BLe(Z0, p) /\ BLt(Z0, q) => \A i \in 1..Len(v) : BLe(IF i = 1 THEN Z0 ELSE O1, v[i]) /\ (i > 1 /\ i = Len(v) => BLt(O1, v[i])))
\* convergents; before the i-th also the last sm semi-convergents, no more than a_i / 2
RECURSIVE ConvR(_, _, _, _, _)
ConvR(v, i, sm, x, y) == IF i > Len(v) THEN <<>> ELSE
  LET a == v[i] h == IF BLt(Z0, a) THEN BQuo(a, B(2)) ELSE Z0 m == BToInt(IF BLt(sm, h) THEN sm ELSE h)
      z(t) == <<BAdd(BMul(t, y[1]), x[1]), BAdd(BMul(t, y[2]), x[2])>>
  IN [j \in 1..(m + 1) |-> z(BSub(a, B(m + 1 - j)))] \o ConvR(v, i + 1, sm, y, z(a))
Conv(v, sm) == ConvR(v, 1, sm, <<Z0, O1>>, <<O1, Z0>>)
\* the first convergent of sqrt(s) whose denominator exceeds q
RECURSIVE SqC(_, _, _, _, _, _, _)
SqC(s, q, m, d, a, x, y) == LET z == <<BAdd(BMul(a, y[1]), x[1]), BAdd(BMul(a, y[2]), x[2])>> IN IF BLt(q, z[2]) THEN z ELSE
  LET m1 == BSub(BMul(d, a), m) d1 == BQuo(BSub(s, BMul(m1, m1)), d) IN SqC(s, q, m1, d1, BQuo(BAdd(BSq(s), m1), d1), y, z)
SqConv(s, q) == IF IsSq(s) THEN <<B(ISq(s)), O1>> ELSE SqC(B(s), q, Z0, O1, BSq(B(s)), <<Z0, O1>>, <<O1, Z0>>)
\* ---- closest lattice point to a x + b y + c: the distance for x with the best y
LDist(a, b, c, x) == LET t == a * x + c IN IF b = 0 THEN IAbs(t) ELSE LET m == IAbs(b) r == t % m IN IF r < m - r THEN r ELSE m - r
FDiv(p, q) == IF q < 0 THEN (0 - p) \div (0 - q) ELSE p \div q
Ladder(a, b, c, d, e, x) == a * x + (b * FDiv(c * x + d, e))
Least(x, x0, x1, G(_)) == IF x0 >= x1 THEN x = x0 ELSE x0 <= x /\ x <= x1 /\ \A t \in x0..x1 : G(x) <= G(t)
\* ---- Farey: the next fraction with denominator at most n to the right (w = 1) or left (w = -1) of p/q
Farey(n, f, w, r) == /\ r[2] >= 1 /\ r[2] <= n /\ GcdN(IAbs(r[1]), r[2]) = 1 /\ w * (r[1] * f[2] - f[1] * r[2]) > 0
  /\ \A t \in 1..n : LET h == IF w = 1 THEN (f[1] * t) \div f[2] + 1 ELSE 0 - ((0 - f[1] * t) \div f[2] + 1) IN w * (h * r[2] - r[1] * t) >= 0
\* ---- expansions
RECURSIVE RepD(_, _, _, _)
RepD(b, r, q, seen) == IF r = 0 THEN 0 ELSE IF \E i \in 1..Len(seen) : seen[i] = r THEN Len(seen) + 1 - (CHOOSE i \in 1..Len(seen) : seen[i] = r) ELSE RepD(b, (b * r) % q, q, Append(seen, r))
RECURSIVE DigN(_, _, _, _)
DigN(b, r, q, k) == IF k = 0 THEN <<>> ELSE <<(b * r) \div q>> \o DigN(b, (b * r) % q, q, k - 1)
\* digits d and period t: the expansion stops at remainder 0, or at the first remainder to come again
RepOK(b, p, q, d, t) == d = DigN(b, p, q, Len(d)) /\ LET rem == FoldLeft(LAMBDA a, i : Append(a, (b * a[i]) % q), <<p>>, [i \in 1..Len(d) |-> i]) k == Len(d) + 1 IN
  /\ Cardinality({rem[i] : i \in 1..(k - 1)}) = k - 1 /\ IF rem[k] = 0 THEN t = 0 ELSE t > 0 /\ t < k /\ rem[k - t] = rem[k]
Rem(b, p, q, n) == BMod(BMul(p, BPowMod(B(b), n, q)), q)
Digit(b, r, q) == BToInt(BDiv(BMul(B(b), r), q))
\* ---- Pell equations x^2 - D y^2 = N
Nrm(D, x, y) == BSub(BMul(x, x), BMul(D, BMul(y, y)))
\* expansion of sqrt(D): <<period length, its last convergent>>
RECURSIVE PerR(_, _, _, _, _, _, _)
PerR(D, m, d, a, x, y, i) == LET z == <<BAdd(BMul(a, y[1]), x[1]), BAdd(BMul(a, y[2]), x[2])>> m1 == BSub(BMul(d, a), m) d1 == BQuo(BSub(D, BMul(m1, m1)), d) IN
  IF d1 = O1 THEN <<i, z>> ELSE PerR(D, m1, d1, BQuo(BAdd(BSq(D), m1), d1), y, z, i + 1)
Per(D) == PerR(D, Z0, O1, BSq(D), <<Z0, O1>>, <<O1, Z0>>, 1)
QMul(D, x, y) == <<BAdd(BMul(x[1], y[1]), BMul(D, BMul(x[2], y[2]))), BAdd(BMul(x[1], y[2]), BMul(x[2], y[1]))>>
Fund(D) == LET p == Per(D) IN [l |-> p[1], e |-> p[2], u |-> IF p[1] % 2 = 0 THEN p[2] ELSE QMul(D, p[2], p[2])]
Solv(D, N) == N = 1 \/ Per(D)[1] % 2 = 1
Min1(D, N) == LET f == Fund(D) IN IF N = 1 THEN f.u ELSE f.e
RECURSIVE PowL(_, _, _, _, _, _)
PowL(D, s, u, xm, ym, ct) == IF ct = 0 \/ (xm # Z0 /\ BLt(xm, s[1])) \/ (ym # Z0 /\ BLt(ym, s[2])) THEN <<>> ELSE <<s>> \o PowL(D, QMul(D, s, u), u, xm, ym, ct - 1)
\* solutions with 0 <= y <= Y and x >= 0
Sols(D, N, Y) == {s \in {<<IF N + D * y * y >= 0 THEN ISq(N + D * y * y) ELSE 0, y>> : y \in 0..Y} : s[1] * s[1] - D * s[2] * s[2] = N}
Sg(s) == {<<B(s[1]), B(s[2])>>, <<B(0 - s[1]), B(s[2])>>}
\* in one class: the quotient is an integer of norm 1
Eqv(D, N, s, t) == LET n == BAbs(N) IN BMod(BSub(BMul(s[1], t[1]), BMul(D, BMul(s[2], t[2]))), n) = Z0 /\ BMod(BSub(BMul(s[1], t[2]), BMul(s[2], t[1])), n) = Z0
PellOK(D, N, Y, v) == LET d == B(D) n == B(N) IN
  /\ \A i \in 1..Len(v) : Nrm(d, v[i][1], v[i][2]) = n
  /\ \A i \in 1..Len(v) : \A j \in 1..(i - 1) : ~Eqv(d, n, v[i], v[j])
  /\ \A s \in Sols(D, N, Y) : \A t \in Sg(s) : \E i \in 1..Len(v) : Eqv(d, n, v[i], t)
\* the expansion of (P0 + sqrt(D)) / Q0
FloorOK(D, p, q, a) == LET rt == BSq(D) lo == BSub(BMul(a, q), p) hi == BAdd(lo, q) IN IF BLt(Z0, q) THEN BLe(lo, rt) /\ BLt(rt, hi) ELSE BLt(rt, lo) /\ BLe(hi, rt)
PqaOK(D, p0, q0, l, P_, Q_, a, A_, B_, G_) == LET k == Len(a) at(v, i, x, y) == IF i = -1 THEN x ELSE IF i = 0 THEN y ELSE v[i] IN
  /\ Len(P_) = k + 1 /\ Len(Q_) = k + 1 /\ Len(A_) = k /\ Len(B_) = k /\ Len(G_) = k /\ P_[1] = p0 /\ Q_[1] = q0
  /\ \A i \in 1..k : /\ FloorOK(D, P_[i], Q_[i], a[i]) /\ P_[i + 1] = BSub(BMul(a[i], Q_[i]), P_[i]) /\ BMul(Q_[i + 1], Q_[i]) = BSub(D, BMul(P_[i + 1], P_[i + 1]))
        /\ A_[i] = BAdd(BMul(a[i], at(A_, i - 1, Z0, O1)), at(A_, i - 2, Z0, O1)) /\ B_[i] = BAdd(BMul(a[i], at(B_, i - 1, O1, Z0)), at(B_, i - 2, O1, Z0))
        /\ G_[i] = BSub(BMul(q0, A_[i]), BMul(p0, B_[i]))
  /\ l > 0 /\ l <= k /\ \A j \in 1..l : (P_[k + 1 - j] = P_[k + 1] /\ Q_[k + 1 - j] = Q_[k + 1]) <=> j = l
\* ---- sums of two squares
TwoSq(n, uniq, mb) == {t \in UNION {LET b == ISq(n - a * a) IN IF ~IsSq(n - a * a) THEN {} ELSE {<<a, b>>, <<a, 0 - b>>, <<0 - a, b>>, <<0 - a, 0 - b>>} : a \in 0..ISq(n)} :
        (uniq => 0 <= t[1] /\ t[1] <= t[2]) /\ (mb = 0 \/ (IAbs(t[1]) <= mb /\ IAbs(t[2]) <= mb))}
PairLt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Srt(q) == \A i \in 1..(Len(q) - 1) : PairLt(q[i], q[i + 1])
\* ---- triples
Leg2(a, b, w) == CASE w = "pyt" -> a * a + b * b [] w = "e60" -> a * a + b * b - a * b [] w = "e120" -> a * a + b * b + a * b [] w = "alm" -> a * a + b * b - 1
Trips(w, n, prim) == LET S == {<<a, b>> \in (1..n) \X (1..n) : (w = "alm" \/ a <= b) /\ IsSq(Leg2(a, b, w)) /\ ISq(Leg2(a, b, w)) <= n}
                         T == {LET c == ISq(Leg2(t[1], t[2], w)) IN IF w = "e60" THEN <<t[1], c, t[2]>> ELSE <<t[1], t[2], c>> : t \in S}
  IN IF prim THEN {t \in T : Gcd3(t[1], t[2], t[3]) = 1} ELSE T
LegT(n) == {<<n, b, ISq(n * n + b * b)>> : b \in {x \in 1..((n * n) \div 2 + 1) : IsSq(n * n + x * x)}}
MinT(t) == LET m == IF t[1] < t[2] THEN t[1] ELSE t[2] IN IF m < t[3] THEN m ELSE t[3]
MaxT(t) == LET m == IF t[1] > t[2] THEN t[1] ELSE t[2] IN IF m > t[3] THEN m ELSE t[3]
Dot(m, t) == [i \in 1..3 |-> m[i][1] * t[1] + m[i][2] * t[2] + m[i][3] * t[3]]
Inverse3 == {<<<<-2, -1, 2>>, <<1, 2, -2>>, <<-2, -2, 3>>>>, <<<<1, 2, -2>>, <<-2, -1, 2>>, <<-2, -2, 3>>>>, <<<<2, 1, -2>>, <<1, 2, -2>>, <<-2, -2, 3>>>>}
IsGen(t) == Gcd3(t[1], t[2], t[3]) = 1 /\ \A m \in Inverse3 : MinT(Dot(m, t)) < 0
PrimK(k, n) == {t \in {<<x[1], x[2], IF IsSq(x[1] * x[1] + x[2] * x[2] + k) THEN ISq(x[1] * x[1] + x[2] * x[2] + k) ELSE 0>> : x \in (0..n) \X (0..n)} : t[1] <= t[2] /\ t[3] > 0 /\ t[3] <= n /\ Gcd3(t[1], t[2], t[3]) = 1 /\ (k <= 1 => t[1] > 0)}
Ord(t) == IF t[1] <= t[2] THEN t ELSE <<t[2], t[1], t[3]>>
Call(f, c) == LET m == Len(c) r == c[m] IN
  CASE f = "cf" -> Cf(c[1], c[2], r)
    [] f = "conv" -> r = Conv(c[1], c[2])
    [] f = "sqc" -> r = SqConv(c[1], c[2])
    [] f = "line" -> Least(r, c[4], c[5], LAMBDA x : LDist(c[1], c[2], c[3], x))
    [] f = "ladder" -> Least(r, c[6], c[7], LAMBDA x : Ladder(c[1], c[2], c[3], c[4], c[5], x))
    [] f = "farey" -> Farey(c[1], c[2], c[3], r)
    [] f = "repd" -> RepOK(c[1], c[2], c[3], c[4], r)
    [] f = "digit" -> r = Rem(c[2], c[3], c[4], c[1]) /\ c[5] = Digit(c[2], r, c[4])
    [] f = "digits" -> Len(r) = c[2] /\ \A i \in 1..c[2] : r[i] = Digit(c[3], Rem(c[3], c[4], c[5], BAdd(c[1], B(i - 1))), c[5])
    [] f = "pqa" -> PqaOK(B(c[1]), B(c[2]), B(c[3]), c[4], c[5], c[6], c[7], c[8], c[9], r)
    [] f = "pell1" -> LET D == B(c[1]) IN IF Solv(D, c[2]) THEN c[3] = Per(D)[1] /\ <<c[4], r>> = Min1(D, c[2]) ELSE c[3] = 0
    [] f = "p1l" -> LET D == B(c[1]) IN r = IF Solv(D, c[2]) THEN PowL(D, Min1(D, c[2]), Fund(D).u, c[3], c[4], IF c[5] = 0 THEN -1 ELSE c[5]) ELSE <<>>
    [] f = "pellS" -> LET v == [i \in 1..Len(r) |-> <<c[3][i], r[i]>>] D == B(c[1]) N == B(c[2]) IN Len(c[3]) = Len(r) /\ PellOK(c[1], c[2], 300, v)
         /\ \A i \in 1..Len(v) : BLt(Z0, v[i][1]) /\ BLt(Z0, v[i][2]) /\ \A s \in Sols(c[1], c[2], 300) : s[1] > 0 /\ s[2] > 0 /\ Eqv(D, N, v[i], <<B(s[1]), B(s[2])>>) => BLe(v[i][2], B(s[2]))
    [] f = "pell" -> PellOK(c[1], c[2], c[3], r)
    [] f = "plist" -> LET Y == IF c[4] > 0 THEN c[4] ELSE c[3] S == {<<B(s[1]), B(s[2])>> : s \in {t \in Sols(c[1], c[2], Y) : t[2] > 0 /\ (c[3] = 0 \/ t[1] <= c[3])}} IN
         IF c[5] = 0 THEN Same(r, S) ELSE SetOf(r) \subseteq S /\ Cardinality(SetOf(r)) = Len(r) /\ Len(r) = (IF Cardinality(S) < c[5] THEN Cardinality(S) ELSE c[5])
    [] f = "sqr" -> r = Cardinality(TwoSq(c[1], c[2] = 1, 0))
    [] f = "sql" -> Srt(r) /\ SetOf(r) = TwoSq(c[1], c[2] = 1, c[3])
    [] f = "sqp" -> BLe(Z0, c[2]) /\ BLe(c[2], r) /\ BAdd(BMul(c[2], c[2]), BMul(r, r)) = c[1]
    [] f = "corn" -> BLe(Z0, c[3]) /\ BLe(Z0, r) /\ BAdd(BMul(c[3], c[3]), BMul(c[1], BMul(r, r))) = c[2]
    [] f = "sqt" -> {r[i][1] : i \in 1..Len(r)} = {t[1] * t[1] + t[2] * t[2] : t \in {x \in (1..ISq(c[1])) \X (1..ISq(c[1])) : x[1] * x[1] + x[2] * x[2] <= c[1]}}
         /\ \A i \in 1..Len(r) : (i > 1 => r[i - 1][1] < r[i][1]) /\ r[i][2] <= r[i][3] /\ r[i][2] * r[i][2] + r[i][3] * r[i][3] = r[i][1]
    [] f = "trip" -> Same(r, Trips(c[1], c[2], c[3] = 1))
    [] f = "leg" -> Same(r, LegT(c[1]))
    [] f = "gen" -> LET S == {Ord(r[i]) : i \in 1..Len(r)} G == SetOf(c[3]) IN Cardinality(S) = Len(r) /\ G \subseteq SetOf(r) /\ {t \in S : t[3] <= c[2]} = PrimK(c[1], c[2])
    [] f = "tmin" -> LET t == c[1] IN c[2] = MinT(t) /\ c[3] = MaxT(t) /\ c[4] = B01(Gcd3(t[1], t[2], t[3]) = 1) /\ r = B01(IsGen(t))
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
\* ---- laws: best approximations, smallest solutions, classes
FirstY(D, N, Y) == LET S == {s \in Sols(D, N, Y) : s[2] > 0} IN IF S = {} THEN <<0, 0>> ELSE CHOOSE s \in S : \A t \in S : s[2] <= t[2]
DiophLaws(n) ==
  /\ ~IsSq(n) /\ n < 60 => /\ \A N \in {1, -1} : LET s == FirstY(n, N, 250) IN s[2] > 0 => Solv(B(n), N) /\ Min1(B(n), N) = <<B(s[1]), B(s[2])>>
                           /\ \A N \in {1, -1} : Solv(B(n), N) => LET s == Min1(B(n), N) IN Nrm(B(n), s[1], s[2]) = B(N)
                           \* no fraction with a smaller denominator is nearer to sqrt(n): compare p^2 with n q^2 from either side
                           /\ \A q \in {1, 5, 20} : LET z == SqConv(n, B(q)) IN BLt(B(q), z[2]) /\ BLt(BAbs(Nrm(B(n), z[1], z[2])), BAdd(BMul(B(2), BSq(B(n))), B(2)))
                           \* in every class some y is at most sqrt(N (x1 + 1) / (2 D))
                           /\ LET u == Min1(B(n), 1) IN BLt(u[1], B(60)) => \A N \in {-7, -2, 3, 6} : LET x == BToInt(u[1]) b == ISq((IAbs(N) * (x + 1)) \div (2 * n)) IN
                                \A s \in Sols(n, N, 100) : \E t \in Sols(n, N, b) : \E v \in Sg(t) : Eqv(B(n), B(N), v, <<B(s[1]), B(s[2])>>)
  /\ n > 0 => \A p \in 0..(2 * n) : LET v == Conv(<<B(p \div n), B(n)>>, B(0)) IN v[2] = <<BAdd(BMul(B(p \div n), B(n)), O1), B(n)>>
  /\ n > 1 => \A p \in 1..(n - 1) : LET t == RepD(10, p, n, <<>>) IN (t = 0) = (\E e \in 0..6 : (p * 10^e) % n = 0 /\ n < 100) \/ n >= 100
LInit == out \in {[f |-> "law", n |-> i] : i \in 0..MaxN}
LNext == UNCHANGED out
Laws == out.f = "law" => DiophLaws(out.n)
===============================================================================
