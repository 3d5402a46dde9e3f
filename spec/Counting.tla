------------------------------ MODULE Counting ------------------------------
(* Look-up tables, counting sequences, factorials and binomials modulo prime powers, and linear recurrences. An element is a        *)
(* fraction <<numerator, denominator>> of numbers of Big; mo is its modulus (a prime), or 0 for rational numbers.                     *)
EXTENDS Pick, Big, Arith
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
Z0 == B(0)
O1 == B(1)
\* ---- the field: elements have one form
Norm(p, q) == LET g == BGcd(p, q) h == IF BLt(q, Z0) THEN BNeg(g) ELSE g IN <<BQuo(p, h), BQuo(q, h)>>
Of(mo, p, q) == IF mo = Z0 THEN Norm(p, q) ELSE <<IF q = O1 THEN BMod(p, mo) ELSE BMod(BMul(p, BPowMod(BMod(q, mo), BSub(mo, B(2)), mo)), mo), O1>>
El(mo, p) == Of(mo, p, O1)
EAdd(mo, x, y) == IF mo = Z0 THEN Norm(BAdd(BMul(x[1], y[2]), BMul(y[1], x[2])), BMul(x[2], y[2])) ELSE El(mo, BAdd(x[1], y[1]))
EMul(mo, x, y) == IF mo = Z0 THEN Norm(BMul(x[1], y[1]), BMul(x[2], y[2])) ELSE El(mo, BMul(x[1], y[1]))
ENeg(mo, x) == El(mo, BNeg(x[1])) 
Neg(mo, x) == IF mo = Z0 THEN <<BNeg(x[1]), x[2]>> ELSE ENeg(mo, x)
ESum(mo, m, G(_)) == FoldLeft(LAMBDA a, i : EAdd(mo, a, G(i)), <<Z0, O1>>, [i \in 1..m |-> i])
RECURSIVE EPow(_, _, _)
EPow(mo, x, k) == IF k = 0 THEN <<O1, O1>> ELSE EMul(mo, x, EPow(mo, x, k - 1))
Lst(n, G(_)) == [i \in 1..n |-> G(i)]
\* ---- tables of the counting numbers; index i is the argument i - 1
TabF(n, F0, G(_, _)) == FoldLeft(LAMBDA a, i : Append(a, G(a, i)), <<F0>>, [i \in 1..n |-> i])
FactT == TLCEval(TabF(130, O1, LAMBDA a, i : BMul(a[i], B(i))))
Fact(n) == FactT[n + 1]
Bin(n, k) == IF k < 0 \/ k > n THEN Z0 ELSE BQuo(Fact(n), BMul(Fact(k), Fact(n - k)))
At(r, j) == IF j < 1 \/ j > Len(r) THEN Z0 ELSE r[j]
S1T == TLCEval(TabF(64, <<O1>>, LAMBDA a, i : [j \in 1..(i + 1) |-> BSub(At(a[i], j - 1), BMul(B(i - 1), At(a[i], j)))]))
S2T == TLCEval(TabF(64, <<O1>>, LAMBDA a, i : [j \in 1..(i + 1) |-> BAdd(At(a[i], j - 1), BMul(B(j - 1), At(a[i], j)))]))
St(w, n, k) == IF k < 0 THEN Z0 ELSE IF w = "s1" THEN At(S1T[n + 1], k + 1) ELSE At(S2T[n + 1], k + 1)
\* coefficients of a product of factors (1 + s x^k) over the parts k, or of 1 / (1 - x^k)
PN == 130
MulP(c, k, s) == [i \in 1..PN |-> IF i > k THEN BAdd(c[i], BMul(B(s), c[i - k])) ELSE c[i]]
DivP(c, k) == FoldLeft(LAMBDA a, i : Append(a, IF i > k THEN BAdd(c[i], a[i - k]) ELSE c[i]), <<>>, [i \in 1..PN |-> i])
One0 == [i \in 1..PN |-> IF i = 1 THEN O1 ELSE Z0]
Ks == [i \in 1..(PN - 1) |-> i]
PartT == TLCEval([euler |-> FoldLeft(LAMBDA c, k : MulP(c, k, -1), One0, Ks), p |-> FoldLeft(LAMBDA c, k : DivP(c, k), One0, Ks),
                  q |-> FoldLeft(LAMBDA c, k : MulP(c, k, 1), One0, Ks), odd |-> FoldLeft(LAMBDA c, k : IF k % 2 = 1 THEN MulP(c, k, 1) ELSE c, One0, Ks)])
\* Bernoulli numbers with B1 = 1/2: the sum of C(m + 1, k) B_k over k <= m is m + 1
BernT == TLCEval(TabF(32, <<O1, O1>>, LAMBDA a, m : LET t == ESum(Z0, m, LAMBDA k : EMul(Z0, <<Bin(m + 1, k - 1), O1>>, a[k])) IN EMul(Z0, EAdd(Z0, <<B(m + 1), O1>>, <<BNeg(t[1]), t[2]>>), Norm(O1, B(m + 1)))))
\* S2(n, k) by inclusion and exclusion, modulo a prime
S2Big(mo, n, k) == LET t == FoldLeft(LAMBDA a, j : BAdd(a, BMul(BMul(IF (k - j) % 2 = 0 THEN O1 ELSE BNeg(O1), Bin(k, j)), BPowMod(B(j), n, mo))), Z0, [j \in 1..(k + 1) |-> j - 1]) IN Of(mo, t, Fact(k))
\* ---- factorials modulo p^e: the product of the numbers up to n not divisible by p
RECURSIVE IPow(_, _)
IPow(p, e) == IF e = 0 THEN 1 ELSE p * IPow(p, e - 1)
UTabOf(p, pe) == TabF(pe - 1, 1, LAMBDA a, i : IF i % p = 0 THEN a[i] ELSE (a[i] * i) % pe)
MaxE(p) == CHOOSE e \in 0..12 : IPow(p, e) <= 5000 /\ (e = 12 \/ IPow(p, e + 1) > 5000)
UT == TLCEval([p \in {2, 3, 5, 7, 11, 13, 29} |-> [e \in 1..MaxE(p) |-> UTabOf(p, IPow(p, e))]])
Unit(p, e, n) == LET pe == IPow(p, e) t == UT[p][e] IN BMod(BMul(BPowMod(B(t[pe]), BDiv(n, B(pe)), B(pe)), B(t[BToInt(BMod(n, B(pe))) + 1])), B(pe))
RECURSIVE Red(_, _, _), Leg(_, _)
Red(p, e, n) == IF n = Z0 THEN O1 ELSE BMod(BMul(Unit(p, e, n), Red(p, e, BDiv(n, B(p)))), B(IPow(p, e)))
Leg(n, p) == LET q == BDiv(n, B(p)) IN IF q = Z0 THEN Z0 ELSE BAdd(q, Leg(q, p))
BinExp(n, k, p) == BSub(Leg(n, p), BAdd(Leg(k, p), Leg(BSub(n, k), p)))
\* ---- linear recurrences f[n + 1] = sum of c[i] f[n - i]
NextOf(mo, c, f) == ESum(mo, Len(c), LAMBDA i : EMul(mo, c[i], f[Len(f) + 1 - i]))
RECURSIVE Iter(_, _, _, _)
Iter(mo, c, f, n) == IF n < Len(f) THEN f[n + 1] ELSE Iter(mo, c, Append(Tail(f), NextOf(mo, c, f)), n - 1)
\* for large n by the powers of the companion matrix, modulo mo
MMul(mo, x, y) == LET k == Len(x) IN [i \in 1..k |-> [j \in 1..k |-> BMod(FoldLeft(LAMBDA a, t : BAdd(a, BMul(x[i][t], y[t][j])), Z0, [t \in 1..k |-> t]), mo)]]
MPow(mo, x, n) == LET k == Len(x) b == BBits(n) IN
  FoldLeft(LAMBDA a, i : LET q == MMul(mo, a, a) IN IF b[Len(b) + 1 - i] = 1 THEN TLCEval(MMul(mo, q, x)) ELSE TLCEval(q), [i \in 1..k |-> [j \in 1..k |-> IF i = j THEN O1 ELSE Z0]], [i \in 1..Len(b) |-> i])
Comp(c) == LET k == Len(c) IN [i \in 1..k |-> [j \in 1..k |-> IF i < k THEN (IF j = i + 1 THEN O1 ELSE Z0) ELSE c[k + 1 - j][1]]]
FarM(mo, c, f, n) == LET m == MPow(mo, Comp(c), n) IN El(mo, FoldLeft(LAMBDA a, t : BAdd(a, BMul(m[1][t], f[t][1])), Z0, [t \in 1..Len(c) |-> t]))
Far(mo, c, f, n) == IF BLt(n, B(70)) THEN Iter(mo, c, f, BToInt(n)) ELSE FarM(mo, c, f, n)
\* ---- named sequences
Tri(x) == BQuo(BMul(x, BAdd(x, O1)), B(2))
SeqP(w, n) == LET x == B(n) m(y, z) == BMul(y, z) IN
  CASE w = "delta" -> B(B01(n = 0)) [] w = "dirichlet_id" -> B(B01(n = 1)) [] w = "zero" -> Z0 [] w = "one" -> O1 [] w = "identity" -> x [] w = "square" -> m(x, x) [] w = "cube" -> m(x, m(x, x))
    [] w = "triangular" -> Tri(x) [] w = "tetrahedral" -> BQuo(m(x, m(B(n + 1), B(n + 2))), B(6)) [] w = "pyramidal" -> BQuo(m(x, m(B(n + 1), BAdd(m(x, B(2)), O1))), B(6))
    [] w = "octahedral" -> BQuo(m(x, BAdd(m(B(2), m(x, x)), O1)), B(3)) [] w = "dodecahedral" -> LET y == BMul(B(3), x) IN BQuo(m(y, m(BSub(y, O1), BSub(y, B(2)))), B(6))
    [] w = "icosahedral" -> BQuo(m(x, BAdd(m(B(5), m(x, x)), BSub(B(2), m(B(5), x)))), B(2))
    [] w \in {"sum_sigma0", "sum_sigma1", "sum_sigma2"} -> FoldLeft(LAMBDA a, d : BAdd(a, BMul(B(n \div d), BPow(B(d), IF w = "sum_sigma0" THEN 0 ELSE IF w = "sum_sigma1" THEN 1 ELSE 2))), Z0, [d \in 1..n |-> d])
RECURSIVE Mex(_, _)
Mex(s, x) == IF x \in s THEN Mex(s, BAdd(x, O1)) ELSE x
Redu(w, v, x0) == LET s == {v[i] : i \in 1..Len(v)} IN
  CASE w = "sum" -> FoldLeft(BAdd, x0, v) [] w = "prod" -> FoldLeft(BMul, x0, v) [] w = "min" -> CHOOSE y \in s \cup {x0} : \A z \in s \cup {x0} : BLe(y, z) [] w = "max" -> CHOOSE y \in s \cup {x0} : \A z \in s \cup {x0} : BLe(z, y) [] w = "mex" -> Mex(s, x0)
Red1(w, v) == CASE w = "sum" -> Redu(w, v, Z0) [] w = "prod" -> Redu(w, v, O1) [] w = "dot" -> FoldLeft(LAMBDA a, b : BAdd(BMul(a, B(3)), b), O1, v) [] OTHER -> Redu(w, v, v[1])
Multi(v) == BQuo(Fact(FoldLeft(+, 0, v)), FoldLeft(LAMBDA a, x : BMul(a, Fact(x)), O1, v))
InvT(mo, a) == IF a[1] = Z0 THEN a ELSE Of(mo, a[2], a[1])
IFact(mo, i) == Of(mo, O1, Fact(i))
Inv1(mo, i) == IF i = 0 THEN <<Z0, O1>> ELSE Of(mo, O1, B(i))
Call(f, c) == LET n == Len(c) r == c[n] mo == c[1] IN
  CASE f = "range" -> r = Lst(c[2], LAMBDA i : EMul(mo, c[3], El(mo, B(i - 1))))
    [] f = "powers" -> r = Lst(c[2], LAMBDA i : EPow(mo, c[3], i - 1))
    [] f = "facts" -> r = Lst(c[2], LAMBDA i : El(mo, Fact(i - 1)))
    [] f = "fact" -> r = El(mo, Fact(c[2]))
    [] f = "ifacts" -> r = Lst(c[2], LAMBDA i : IFact(mo, i - 1))
    [] f = "invs" -> r = Lst(c[2], LAMBDA i : Inv1(mo, i - 1))
    [] f = "facts1" -> c[3] = El(mo, Fact(c[2])) /\ c[4] = IFact(mo, c[2]) /\ r = Inv1(mo, c[2])
    [] f = "size" -> r = c[1]
    [] f = "bin" -> r = El(mo, Bin(c[2], c[3]))
    [] f = "power" -> r = Lst(Len(c[3]), LAMBDA i : EPow(mo, c[3][i], c[2]))
    [] f = "inv" -> r = Lst(Len(c[2]), LAMBDA i : InvT(mo, c[2][i]))
    [] f = "neg" -> r = Lst(Len(c[2]), LAMBDA i : Neg(mo, c[2][i]))
    [] f = "alt" -> r = Lst(Len(c[2]), LAMBDA i : IF i % 2 = 0 THEN Neg(mo, c[2][i]) ELSE c[2][i])
    [] f = "acc" -> r = Lst(Len(c[2]), LAMBDA i : ESum(mo, i, LAMBDA j : c[2][j]))
    [] f = "diff" -> r = Lst(Len(c[2]), LAMBDA i : IF i = 1 THEN c[2][1] ELSE EAdd(mo, c[2][i], Neg(mo, c[2][i - 1])))
    [] f = "stab" -> r = Lst(c[3], LAMBDA i : [j \in 1..(IF i < c[4] THEN i ELSE c[4]) |-> El(c[2], St(mo, i - 1, j - 1))])
    [] f = "srow" -> r = Lst(c[3] + 1, LAMBDA i : El(c[2], St(mo, c[3], i - 1)))
    [] f = "scol" -> r = Lst(c[3], LAMBDA i : El(c[2], St(mo, i - 1, c[4])))
    [] f = "s" -> r = El(c[2], St(mo, c[3], c[4]))
    [] f = "s2big" -> r = S2Big(mo, c[2], c[3])
    [] f = "part" -> r = Lst(c[3], LAMBDA i : El(c[2], PartT[mo][i]))
    [] f = "bern" -> r = Lst(c[2] + 1, LAMBDA i : Of(mo, BernT[i][1], BernT[i][2]))
    [] f = "fsktab" -> r = Lst(c[1] + 1, LAMBDA i : Unit(c[2], c[3], B(i - 1)))
    [] f = "fsk" -> r = <<Unit(c[1], c[2], c[3]), BDiv(c[3], B(c[1]))>>
    [] f = "fred" -> r = <<Red(c[1], c[2], c[3]), Leg(c[3], c[1])>>
    [] f = "bred" -> LET p == c[1] e == c[2] pe == B(IPow(p, e)) IN r[2] = BinExp(c[3], c[4], p) /\ BLe(Z0, r[1]) /\ BLt(r[1], pe)
                     /\ BMod(BMul(r[1], BMul(Red(p, e, c[4]), Red(p, e, BSub(c[3], c[4])))), pe) = Red(p, e, c[3])
    [] f = "fpe" -> r = Leg(c[1], c[2])
    [] f = "bpe" -> r = BinExp(c[1], c[2], c[3])
    [] f = "mpe" -> r = BSub(Leg(FoldLeft(BAdd, Z0, c[1]), c[2]), FoldLeft(LAMBDA a, x : BAdd(a, Leg(x, c[2])), Z0, c[1]))
    [] f = "multi" -> r = El(mo, Multi(c[2]))
    [] f = "lrec" -> r = Far(mo, c[2], c[3], c[4])
    [] f = "luc" -> r = Far(c[2], <<c[3], Neg(c[2], c[4])>>, CASE mo \in {"f", "u"} -> <<<<Z0, O1>>, <<O1, O1>>>> [] mo = "l" -> <<El(c[2], B(2)), <<O1, O1>>>> [] mo = "v" -> <<El(c[2], B(2)), c[3]>>, c[5])
    [] f = "lnext" -> r = NextOf(mo, c[2], c[3])
    [] f = "c2p" -> LET k == Len(c[2]) IN r = Lst(k + 1, LAMBDA i : IF i = k + 1 THEN <<O1, O1>> ELSE Neg(mo, c[2][k + 1 - i]))
    [] f = "p2c" -> LET k == Len(c[2]) - 1 IN r = Lst(k, LAMBDA i : Neg(mo, c[2][k + 1 - i]))
    [] f = "bm" -> Len(r) <= c[2] /\ \A i \in (Len(r) + 1)..Len(c[3]) : c[3][i] = NextOf(mo, r, SubSeq(c[3], 1, i - 1))
    [] f = "seq" -> r = El(c[2], SeqP(mo, c[3]))
    [] f = "red" -> r = Red1(mo, c[2])
    [] f = "red0" -> r = Redu(mo, c[2], c[3])
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
\* ---- the definitions agree with counting by hand
Perms(n) == {p \in [1..n -> 1..n] : Cardinality({p[i] : i \in 1..n}) = n}
RECURSIVE Orb(_, _, _)
Orb(p, i, s) == IF i \in s THEN s ELSE Orb(p, p[i], s \cup {i})
Cyc(p, n) == Cardinality({Orb(p, i, {}) : i \in 1..n})
\* restricted growth functions: the partitions of a set into blocks
Rgf(n) == {b \in [1..n -> 1..n] : \A i \in 1..n : b[i] = 1 \/ \E j \in 1..(i - 1) : b[j] = b[i] - 1 \/ b[j] >= b[i]}
RECURSIVE Parts(_, _)
Parts(n, m) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o s : s \in Parts(n - k, k)} : k \in 1..(IF m < n THEN m ELSE n)}
RECURSIVE ExF(_, _)
ExF(n, p) == IF n = 0 THEN 0 ELSE ExpOf(n, p) + ExF(n - 1, p)
CountLaws(n) ==
  /\ n <= 6 => \A k \in 0..n : /\ St("s2", n, k) = B(Cardinality({b \in Rgf(n) : Cardinality({b[i] : i \in 1..n}) = k}))
                               /\ (n <= 5 => St("s1", n, k) = BMul(B(IF (n - k) % 2 = 0 THEN 1 ELSE -1), B(Cardinality({p \in Perms(n) : Cyc(p, n) = k}))))
                               /\ Bin(n, k) = B(Cardinality({s \in SUBSET (1..n) : Cardinality(s) = k}))
  /\ n <= 16 => LET S == Parts(n, n) D == {s \in S : \A i \in 1..(Len(s) - 1) : s[i] # s[i + 1]} IN
        /\ PartT.p[n + 1] = B(Cardinality(S)) /\ PartT.q[n + 1] = B(Cardinality(D)) /\ PartT.odd[n + 1] = B(Cardinality({s \in D : \A i \in 1..Len(s) : s[i] % 2 = 1}))
        /\ PartT.euler[n + 1] = B(FoldLeft(LAMBDA a, s : a + (IF Len(s) % 2 = 0 THEN 1 ELSE -1), 0, SetToSeq(D)))
  /\ n > 0 /\ n < 30 => \A m \in 0..4 : LET t == ESum(Z0, m + 1, LAMBDA k : EMul(Z0, BernT[k], <<BMul(Bin(m + 1, k - 1), BPow(B(n), m + 2 - k)), O1>>))
                          IN t = <<BMul(B(m + 1), FoldLeft(LAMBDA a, i : BAdd(a, BPow(B(i), m)), Z0, [i \in 1..n |-> i])), O1>>
  /\ \A p \in {2, 3, 5} : Leg(B(n), p) = B(ExF(n, p)) /\ \A e \in 1..4 : Red(p, e, B(n)) = BMod(BQuo(Fact(n), BPow(B(p), ExF(n, p))), B(IPow(p, e)))
  /\ n < 60 => \A mo \in {B(7), B(101)} : LET c == <<El(mo, B(3)), El(mo, B(-2)), El(mo, B(n))>> f == <<El(mo, B(1)), El(mo, B(n)), El(mo, B(5))>> IN FarM(mo, c, f, B(n)) = Iter(mo, c, f, n)
  /\ n < 60 => \A k \in 0..(IF n < 8 THEN n ELSE 8) : S2Big(B(101), B(n), k) = El(B(101), St("s2", n, k))
  /\ LET q(w, m) == SeqP(w, m) d(w) == BSub(q(w, n), q(w, n - 1)) IN d("triangular") = B(n) /\ d("tetrahedral") = q("triangular", n) /\ d("pyramidal") = B(n * n) /\ q("octahedral", n) = BAdd(q("pyramidal", n), q("pyramidal", n - 1))
       /\ (n < 40 => q("dodecahedral", n) = Bin(3 * n, 3)) /\ d("icosahedral") = B((15 * n * n - 25 * n + 12) \div 2) /\ q("icosahedral", 0) = Z0
LInit == out \in {[f |-> "law", n |-> i] : i \in 0..MaxN}
LNext == UNCHANGED out
Laws == out.f = "law" => CountLaws(out.n)
===============================================================================
