-------------------------------- MODULE Sums --------------------------------
(* Sums computed in sub-linear time and Dirichlet convolutions against their definitions. mo is the modulus of the results, 0 for   *)
(* integers; tables are sequences of the values at 1, 2, ...; values are numbers of Big.                                           *)
EXTENDS Pick, Big, Arith
CONSTANT MaxN, Lim
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
FT == TLCEval([i \in 1..Lim |-> Fac(i)])
Fc(i) == IF i <= Lim THEN FT[i] ELSE Fac(i)
DT == TLCEval([i \in 1..150 |-> SetToSortSeq(DivI(i), <)])
Divs(i) == IF i <= 150 THEN DT[i] ELSE SetToSortSeq(DivI(i), <)
Pr(i) == i > 1 /\ PrimeF(Fc(i))
Z0 == B(0)
Md(mo, x) == IF mo = Z0 THEN x ELSE BMod(x, mo)
Sum(m, G(_)) == FoldLeft(LAMBDA a, i : BAdd(a, G(i)), Z0, [i \in 1..m |-> i])
SumQ(q, G(_)) == FoldLeft(LAMBDA a, i : BAdd(a, G(i)), Z0, q)
RECURSIVE PwB(_, _)
PwB(x, k) == IF k = 0 THEN B(1) ELSE BMul(x, PwB(x, k - 1))
\* ---- floor sums: the sum of floor((a k + b) / q) for 0 <= k < n, by Euclid's algorithm
Tri(n) == BQuo(BMul(n, BSub(n, B(1))), B(2))
RECURSIVE Ratio(_, _, _, _)
Ratio(a, b, q, n) ==
  IF BLe(n, Z0) THEN Z0 ELSE IF BLt(q, Z0) THEN Ratio(BNeg(a), BNeg(b), BNeg(q), n) ELSE
  LET ca == BDiv(a, q) cb == BDiv(b, q) x == BMod(a, q) y == BMod(b, q)
      lin == BAdd(BMul(ca, Tri(n)), BMul(cb, n)) m == BDiv(BAdd(BMul(x, BSub(n, B(1))), y), q)
  \* the points under the line, by rows: row j < m has n - 1 - floor((q j + q - y - 1) / x)
  IN IF m = Z0 THEN lin ELSE BAdd(lin, BSub(BMul(m, BSub(n, B(1))), Ratio(q, BSub(BSub(q, y), B(1)), x, m)))
\* ---- named arithmetic functions
RndF(F, fs) == FProd(fs, LAMBDA t : (((((t[1] % 1000) * F[2]) + (t[2] * F[3]) + F[4]) % F[5]) - F[6]))
Fn(F, k) == LET w == F[1] IN
  CASE w = "one" -> B(1) [] w = "id" -> B(k) [] w = "mu" -> B(MuF(Fc(k))) [] w = "phi" -> B(PhiF(Fc(k))) [] w = "e" -> B(B01(k = 1))
    [] w = "sig" -> FoldLeft(LAMBDA a, d : BAdd(a, PwB(B(d), F[2])), Z0, Divs(k))
    [] w = "poly" -> BAdd(B(F[2]), BAdd(BMul(B(F[3]), B(k)), BMul(B(F[4]), BMul(B(k), B(k)))))
    [] w = "rnd" -> B(RndF(F, Fc(k)))
    [] w = "pow" -> PwB(B(k), F[2])
\* ---- the named sums to n
PrimePow(z, n) == SumQ(SelectSeq([i \in 1..n |-> i], Pr), LAMBDA k : PwB(B(k), z))
Prime4(c, n) == Cardinality({k \in 2..n : k % 4 = c /\ Pr(k)})
MuSum(c, n) == FoldLeft(LAMBDA a, k : a + (IF c = 2 \/ k % 2 = c THEN MuF(Fc(k)) ELSE 0), 0, [i \in 1..n |-> i])
SqfC(n) == Cardinality({k \in 1..n : MuF(Fc(k)) # 0})
\* number of a1 <= ... <= aD <= n whose gcd with n is 1 = sum over d | n of mu(n/d) C(D + d - 1, D)
RECURSIVE Bin(_, _)
Bin(n, k) == IF k = 0 THEN B(1) ELSE BQuo(BMul(Bin(n - 1, k - 1), B(n)), B(k))
PhiD(D, n) == SumQ(Divs(n), LAMBDA d : BMul(B(MuF(Fc(n \div d))), Bin(D + d - 1, D)))
\* the distinct floor(n / k)
Quots(n) == {n \div k : k \in 1..n}
Keys(n, r) == {r[i][1] : i \in 1..Len(r)} = Quots(n)
\* a table q of <<key, value>> holding for every quotient the sum of G to it; the running sums are kept
Pref(n, G(_)) == FoldLeft(LAMBDA a, i : Append(a, BAdd(a[Len(a)], G(i))), <<Z0>>, [i \in 1..n |-> i])
MapOK(mo, n, r, G(_)) == Keys(n, r) /\ LET S == TLCEval(Pref(n, G)) IN \A i \in 1..Len(r) : r[i][2] = Md(mo, S[r[i][1] + 1])
TabOK(mo, r, G(_)) == \A i \in 1..Len(r) : r[i] = Md(mo, G(i))
TabSum(mo, r, G(_)) == LET S == TLCEval(Pref(Len(r), G)) IN \A i \in 1..Len(r) : r[i] = Md(mo, S[i + 1])
Conv(f, g, k) == SumQ(Divs(k), LAMBDA d : BMul(f[k \div d], g[d]))
\* values established elsewhere, for arguments out of reach
Known == <<<<"pi", 100000, 9592>>, <<"pi", 1000000, 78498>>, <<"pi", 10000000, 664579>>, <<"pi", 100000000, 5761455>>, <<"pi", 1000000000, 50847534>>,
           <<"pi1", 1000000, 39175>>, <<"pi3", 1000000, 39322>>, <<"mer", 10000, -23>>, <<"mer", 100000, -48>>, <<"mer", 1000000, 212>>, <<"mer", 10000000, 1037>>, <<"mer", 100000000, 1928>>,
           <<"sqf", 100000, 60794>>, <<"sqf", 1000000, 607926>>, <<"sqf", 1000000000, 607927124>>>>
KnownB == <<<<"mer0", <<1, <<7296, 9496, 42>>>>, B(-3533)>>, <<"ps", B(1000000), <<1, <<2023, 5040, 375>>>>>>, <<"ps", B(10000000), <<1, <<4356, 2499, 2033, 3>>>>>>, <<"phi", B(1000000), <<1, <<2392, 6355, 3039>>>>>>>>
\* ---- large n: identities over a whole table of quotients q = <<<<v, F(v)>>, ...>>, v increasing
IsQuots(n, q) == q[1][1] = 1 /\ q[Len(q)][1] = n /\ \A i \in 1..(Len(q) - 1) : q[i + 1][1] = n \div (n \div (q[i][1] + 1))
\* the sum of w(k) F(n / k) where W(m) is the sum of w to m
Over(n, q, W(_)) == FoldLeft(LAMBDA a, t : BAdd(a, BMul(BSub(W(n \div t[1]), W(n \div (t[1] + 1))), t[2])), Z0, q)
\* sums of k^e to m
S012(e, m) == IF e = 0 THEN B(m) ELSE IF e = 1 THEN Tri(BAdd(B(m), B(1))) ELSE BQuo(BMul(BMul(B(m), BAdd(B(m), B(1))), BAdd(B(m), B(m + 1))), B(6))
\* the sum of k^e floor(n / k), from lo
RECURSIVE FloorSum(_, _, _, _)
FloorSum(e, n, lo, a) == IF lo > n THEN a ELSE LET v == n \div lo hi == n \div v IN FloorSum(e, n, hi + 1, BAdd(a, BMul(BSub(S012(e, hi), S012(e, lo - 1)), B(v))))
\* the number of non-decreasing D-tuples from 1..k, times k^e, summed to n
TupSum(D, e, n) == Sum(n, LAMBDA k : BMul(PwB(B(k), e), Bin(D + k - 1, D)))
BigOf(mo, w, n, q) == IsQuots(n, q) /\
  CASE w[1] = "mu" -> Md(mo, Over(n, q, LAMBDA m : B(m))) = Md(mo, B(1))
    [] w[1] = "mu1" -> Md(mo, Over(n, q, LAMBDA m : B((m + 1) \div 2))) = Md(mo, B(1))
    [] w[1] = "phi" -> Md(mo, Over(n, q, LAMBDA m : B(m))) = Md(mo, S012(1, n))
    [] w[1] = "one" -> \A i \in 1..Len(q) : q[i][2] = Md(mo, B(q[i][1]))
    [] w[1] = "id" -> \A i \in 1..Len(q) : q[i][2] = Md(mo, S012(1, q[i][1]))
    \* the divisor sums, at every hundredth quotient and the last
    [] w[1] = "sig" -> \A i \in {j \in 1..Len(q) : j % 100 = 0 \/ j = Len(q)} : q[i][2] = Md(mo, FloorSum(w[2], q[i][1], 1, Z0))
    \* sums of k^L phi_D(k)
    [] w[1] = "phiDL" -> Md(mo, Over(n, q, LAMBDA m : S012(w[3], m))) = Md(mo, TupSum(w[2], w[3], n))
    [] OTHER -> FALSE
\* neighbouring entries <<v, w, F(v), F(w)>> of prime power sums, or of counts of primes of one residue modulo 4 (z = 1 or 3, p4)
Near(mo, p4, z, q) == \A i \in 1..Len(q) : LET t == q[i] IN Md(mo, BSub(t[4], t[3])) = Md(mo, SumQ(SelectSeq([k \in 1..(t[2] - t[1]) |-> t[1] + k], LAMBDA k : k > 1 /\ (k % 4 = z \/ ~p4) /\ (\A d \in {2, 3, 5, 7} : k = d \/ k % d # 0) /\ PrimeF(FcL(k))), LAMBDA k : IF p4 THEN B(1) ELSE PwB(B(k), z)))
Call(f, c) == LET n == Len(c) r == c[n] mo == c[1] IN
  CASE f = "ratio" -> r = Md(mo, Ratio(c[2], c[3], c[4], c[5]))
    [] f = "sumf" -> r = Md(mo, FoldLeft(LAMBDA a, k : BAdd(a, Fn(c[2], k)), Z0, [i \in 1..(IF c[4] < c[3] THEN 0 ELSE c[4] - c[3] + 1) |-> c[3] + i - 1]))
    [] f = "spow" -> r = Md(mo, Sum(c[3], LAMBDA k : PwB(B(k), c[2])))
    [] f = "spowx" -> r = Md(mo, Sum(c[4], LAMBDA k : BMul(PwB(B(k), c[2]), PwB(c[3], k))))
    [] f = "ssqrt" -> r = Md(mo, Sum(c[3], LAMBDA k : Fn(c[2], c[3] \div k)))
    [] f = "s2m" -> r = Md(mo, Sum(c[4], LAMBDA k : BMul(Fn(c[2], k), Fn(c[3], c[4] \div k))))
    \* f(k, m) = p k^2 + q k m + s m
    [] f = "s2" -> r = Md(mo, Sum(c[3], LAMBDA k : LET m == c[3] \div k p == c[2] IN BAdd(BAdd(BMul(B(p[1]), BMul(B(k), B(k))), BMul(B(p[2]), BMul(B(k), B(m)))), BMul(B(p[3]), B(m)))))
    [] f = "pps" -> MapOK(mo, c[3], r, LAMBDA k : IF Pr(k) THEN PwB(B(k), c[2]) ELSE Z0)
    [] f = "pi" -> r = PrimePow(0, c[2])
    [] f = "ps" -> r = Md(mo, PrimePow(1, c[2]))
    [] f = "pi4s" -> Keys(c[3], r) /\ MapOK(mo, c[3], r, LAMBDA k : B(B01(k % 4 = c[2] /\ Pr(k))))
    [] f = "pi4" -> r = B(Prime4(c[2], c[3]))
    [] f = "conv" -> TabOK(mo, r, LAMBDA k : Conv(c[2], c[3], k))
    \* r * g = f
    [] f = "div" -> \A k \in 1..Len(r) : Md(mo, c[2][k]) = Md(mo, Conv(r, c[3], k))
    [] f = "inv" -> \A k \in 1..Len(r) : Md(mo, B(B01(k = 1))) = Md(mo, Conv(r, c[2], k))
    [] f = "moeb" -> TabOK(mo, r, LAMBDA k : SumQ(Divs(k), LAMBDA d : BMul(B(MuF(Fc(k \div d))), c[2][d])))
    \* the multiplicative function with the values of f at prime powers
    [] f = "mult" -> TabOK(mo, r, LAMBDA k : FoldLeft(LAMBDA a, t : BMul(a, c[2][t[1]^t[2]]), B(1), Fc(k)))
    [] f = "cmult" -> TabOK(mo, r, LAMBDA k : FoldLeft(LAMBDA a, t : BMul(a, PwB(c[2][t[1]], t[2])), B(1), Fc(k)))
    \* t(k) = sum of p(i) M(k / i)
    [] f = "sievem" -> \A k \in 1..Len(r) : Md(mo, c[2][k]) = Md(mo, Sum(k, LAMBDA i : BMul(c[3][i], r[k \div i])))
    \* <<mo, t, p, M, n, answer>>: the same equation determines M
    [] f = "summ" -> (\A k \in 1..Len(c[4]) : Md(mo, c[2][k]) = Md(mo, Sum(k, LAMBDA i : BMul(c[3][i], c[4][k \div i])))) /\ r = (IF c[5] < 1 THEN Z0 ELSE Md(mo, c[4][c[5]]))
    [] f = "smap" -> Keys(c[3], r) /\ \A i \in 1..Len(r) : r[i][2] = Md(mo, Fn(c[2], r[i][1]))
    [] f = "sqfs" -> TabOK(mo, r, LAMBDA k : B(SqfC(k)))
    [] f = "sqf" -> r = Md(mo, B(SqfC(c[2])))
    \* sums of k^L phi_D(k), of k^L sum over d | k of mu(k/d) g(d)
    [] f = "phiDL" -> r = Md(mo, Sum(c[4], LAMBDA k : BMul(PwB(B(k), c[3]), PhiD(c[2], k))))
    [] f = "gL" -> r = Md(mo, Sum(c[4], LAMBDA k : BMul(PwB(B(k), c[3]), SumQ(Divs(k), LAMBDA d : BMul(B(MuF(Fc(k \div d))), Fn(c[2], d))))))
    [] f = "phis" -> MapOK(mo, c[2], r, LAMBDA k : B(PhiF(Fc(k))))
    [] f = "sigma" -> TabOK(mo, r, LAMBDA k : SumQ(Divs(k), LAMBDA d : PwB(B(d), c[2])))
    [] f = "mul1" -> r = Md(mo, Sum(c[3], LAMBDA k : Fn(c[2], k)))
    [] f = "muls" -> MapOK(mo, c[3], r, LAMBDA k : Fn(c[2], k))
    [] f = "cop" -> r = Md(mo, Sum(c[4], LAMBDA k : IF \A i \in 1..Len(c[3]) : k % c[3][i] # 0 THEN Fn(c[2], k) ELSE Z0))
    \* Mertens: parity 0, 1 or 2 for both
    [] f = "mers" -> TabSum(mo, r, LAMBDA k : IF c[2] = 2 \/ k % 2 = c[2] THEN B(MuF(Fc(k))) ELSE Z0)
    [] f = "mer" -> r = Md(mo, B(MuSum(c[2], c[3])))
    [] f = "merm" -> MapOK(mo, c[3], r, LAMBDA k : IF c[2] = 2 \/ k % 2 = c[2] THEN B(MuF(Fc(k))) ELSE Z0)
    \* <<mo, function, n, table>>; <<mo, z, pairs>>; <<n, even, odd, all>> at the same keys; Q(n/k^2) for all k
    [] f = "ident" -> BigOf(mo, c[2], c[3], r)
    [] f = "near" -> Near(mo, FALSE, c[2], r)
    [] f = "near4" -> Near(mo, TRUE, c[2], r)
    [] f = "meo" -> Len(c[2]) = Len(r) /\ Len(c[3]) = Len(r) /\ \A i \in 1..Len(r) : BAdd(c[2][i][2], c[3][i][2]) = r[i][2] /\ (r[i][1] = 1 \/ \E j \in 1..Len(r) : r[j][1] = r[i][1] \div 2 /\ c[2][i][2] = BNeg(c[3][j][2]))
    [] f = "sqfn" -> SumQ(r, LAMBDA x : x) = B(c[1]) /\ Len(r) * Len(r) <= c[1] /\ (Len(r) + 1) * (Len(r) + 1) > c[1]
    [] f = "known" -> (\E i \in 1..Len(Known) : c[1] = Known[i][1] /\ c[2] = B(Known[i][2]) /\ r = B(Known[i][3])) \/ \E i \in 1..Len(KnownB) : c[1] = KnownB[i][1] /\ c[2] = KnownB[i][2] /\ r = KnownB[i][3]
    [] OTHER -> FALSE
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
LInit == out \in 1..MaxN
LNext == UNCHANGED out
FloorDiv(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b
Laws == LET m == out IN
  /\ \A a \in (-7)..7 : \A q \in {(-5), (-2), (-1), 1, 3, 4, 9} : LET b == ((m * 5) % 17) - 8 IN Ratio(B(a), B(b), B(q), B(m)) = B(FoldLeft(LAMBDA s, k : s + FloorDiv(a * (k - 1) + b, q), 0, [i \in 1..m |-> i]))
  \* the totients count tuples; the identities between the named functions
  /\ PhiD(1, m) = B(PhiF(Fc(m))) /\ PhiD(0, m) = B(B01(m = 1))
  /\ (m <= 12 => PhiD(2, m) = B(Cardinality({<<x, y>> \in (1..m) \X (1..m) : x <= y /\ GcdN(GcdN(x, y), m) = 1})))
  /\ LET T(w) == [i \in 1..m |-> Fn(w, i)] IN
       /\ Conv(T(<<"mu">>), T(<<"one">>), m) = Fn(<<"e">>, m) /\ Conv(T(<<"mu">>), T(<<"id">>), m) = Fn(<<"phi">>, m) /\ Conv(T(<<"id">>), T(<<"one">>), m) = Fn(<<"sig", 1>>, m)
       /\ Sum(m, LAMBDA k : B(MuSum(2, m \div k))) = B(1) /\ MuSum(0, m) = - MuSum(1, m \div 2) /\ MuSum(0, m) + MuSum(1, m) = MuSum(2, m)
       /\ Sum(m, LAMBDA k : IF k * k <= m THEN BMul(B(MuF(Fc(k))), B(m \div (k * k))) ELSE Z0) = B(SqfC(m))
===============================================================================
