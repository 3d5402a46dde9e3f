-------------------------------- MODULE Factor --------------------------------
(* Primality, factorization, divisors, digits. Factorizations are sequences of <<prime (Big), exponent>>. *)
EXTENDS Pick, PrimeB, Arith
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
\* the test against bases: up to the first that is not below n
BTest(n, bs) == IF BLt(n, B(2)) THEN FALSE ELSE IF BLe(n, B(3)) THEN TRUE ELSE IF BMod(n, B(2)) = B(0) THEN FALSE
                ELSE \A i \in 1..Len(bs) : (\A j \in 1..i : BLt(bs[j], n)) => Sprp(n, bs[i])
DivSet(fs) == FoldLeft(LAMBDA D, t : TLCEval(UNION {{BMul(d, BPw(t[1], e)) : d \in D} : e \in 0..t[2]}), {B(1)}, fs)
SfdSet(fs) == FoldLeft(LAMBDA D, t : TLCEval(D \cup {BNeg(BMul(d, t[1])) : d \in D}), {B(1)}, fs)
Sig0B(fs) == FoldLeft(LAMBDA a, t : BMul(a, B(t[2] + 1)), B(1), fs)
PhiP(t) == BMul(BSub(t[1], B(1)), BPw(t[1], t[2] - 1))
PhiB(fs) == FoldLeft(LAMBDA a, t : BMul(a, PhiP(t)), B(1), fs)
BLcm(a, b) == BMul(a, BQuo(b, BGcd(a, b)))
LamB(fs) == FoldLeft(LAMBDA a, t : BLcm(a, IF t[1] = B(2) /\ t[2] > 2 THEN BPow2(t[2] - 2) ELSE PhiP(t)), B(1), fs)
Range_(q) == {q[i] : i \in 1..Len(q)}
Distinct(q) == Cardinality(Range_(q)) = Len(q)
Incr(q) == \A i \in 2..Len(q) : BLt(q[i - 1], q[i])
Horner(d, b) == FoldRight(LAMBDA x, a : BAdd(BMul(a, b), x), d, B(0))
DigOK(n, b, len, r) == Len(r) >= len /\ (Len(r) > len => r[Len(r)] # B(0)) /\ Horner(r, b) = n /\ \A i \in 1..Len(r) : BLe(B(0), r[i]) /\ BLt(r[i], b)
\* the value of a character of 0-9a-z
ChV(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..122 THEN c - 87 ELSE 99
BProd(q) == FoldLeft(LAMBDA a, x : BMul(a, x), B(1), q)
SmoothSet(ps, n) == {m \in 1..n : LET fs == Fac(m) IN \A i \in 1..Len(fs) : fs[i][1] \in Range_(ps)}
Call(f, c) == LET n == Len(c) r == c[n] IN
  CASE f = "mr" -> r = B01(BPrime(c[1]))
    [] f = "mrb" -> r = B01(BTest(c[1], c[2]))
    \* a divisor, not 1
    [] f = "rho" -> IF BLe(c[1], B(1)) THEN r = c[1] ELSE BLt(B(1), r) /\ BMod(c[1], r) = B(0)
    [] f = "fac" -> IF BLe(c[1], B(1)) THEN r = <<>> ELSE FacAny(c[1], r)
    [] f = "facs" -> IF BLe(c[1], B(1)) THEN r = <<>> ELSE FacOK(c[1], r)
    \* <<factorization, bound, sorted, divisors>>
    [] f = "divs" -> Distinct(r) /\ Range_(r) = {d \in DivSet(c[1]) : c[2] = B(0) \/ BLe(d, c[2])} /\ (c[3] = 1 => Incr(r))
    [] f = "sfd" -> Distinct(r) /\ Range_(r) = SfdSet(c[1])
    [] f = "sig0" -> r = Sig0B(c[1])
    [] f = "phi" -> r = PhiB(c[1])
    [] f = "lam" -> r = LamB(c[1])
    [] f = "unfac" -> r = FacProd(c[1])
    [] f = "parts" -> c[2] = [i \in 1..Len(c[1]) |-> c[1][i][1]] /\ r = [i \in 1..Len(c[1]) |-> c[1][i][2]]
    [] f = "dig" -> DigOK(c[1], c[2], c[3], r)
    [] f = "undig" -> r = Horner(c[1], c[2])
    [] f = "str" -> DigOK(c[1], c[2], c[3], [i \in 1..Len(r) |-> B(ChV(r[Len(r) + 1 - i]))])
    \* <<n, p, e before, e after, rest>>
    [] f = "fout" -> c[4] >= c[3] /\ c[1] = BMul(BPw(c[2], c[4] - c[3]), r) /\ BMod(r, c[2]) # B(0)
    \* <<primes, bound, <<factorization, number>>...>>
    [] f = "smooth" -> Len(r) = Cardinality(SmoothSet(c[1], c[2])) /\ {r[i][2] : i \in 1..Len(r)} = SmoothSet(c[1], c[2])
                    /\ \A i \in 1..Len(r) : LET fs == r[i][1] IN {fs[j] : j \in 1..Len(fs)} = Range_(Fac(r[i][2])) /\ Distinct(fs)
    [] f = "fred" -> LET a == c[1] b == c[2] x == c[3] y == r IN
         /\ Len(x) = Len(a) /\ Len(y) = Len(b) /\ BMul(BProd(a), BProd(y)) = BMul(BProd(x), BProd(b))
         /\ \A i \in 1..Len(a) : BLt(B(0), x[i]) /\ BMod(a[i], x[i]) = B(0)
         /\ \A j \in 1..Len(b) : BLt(B(0), y[j]) /\ BMod(b[j], y[j]) = B(0) /\ \A i \in 1..Len(a) : BGcd(x[i], y[j]) = B(1)
    [] OTHER -> FALSE
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
LInit == out \in 1..MaxN
LNext == UNCHANGED out
RECURSIVE OrdN(_, _, _)
OrdN(a, x, n) == IF x = 1 % n THEN 1 ELSE 1 + OrdN(a, (x * a) % n, n)
Units(n) == {a \in 0..(n - 1) : GcdN(a, n) = 1}
LcmN(a, b) == a * (b \div GcdN(a, b))
Laws == LET n == out fs == [i \in 1..Len(Fac(n)) |-> <<B(Fac(n)[i][1]), Fac(n)[i][2]>>] IN
  /\ ArithLaws(n) /\ BPrime(B(n)) = IsPrimeI(n) /\ FacOK(B(n), fs) /\ DivSet(fs) = {B(d) : d \in DivI(n)} /\ SfdSet(fs) = {B(MuF(Fac(d)) * d) : d \in {d \in DivI(n) : MuF(Fac(d)) # 0}}
  /\ PhiB(fs) = B(Cardinality(Units(n))) /\ LamB(fs) = B(FoldLeft(LAMBDA a, u : LcmN(a, OrdN(u, u % n, n)), 1, SetToSeq(Units(n))))
  \* every base proves a prime, at most a quarter a composite (Rabin, Monier)
  /\ (n > 2 /\ n % 2 = 1) => LET S == {b \in 1..(n - 1) : Sprp(B(n), B(b))} IN IF IsPrimeI(n) THEN Cardinality(S) = n - 1 ELSE 4 * Cardinality(S) <= PhiF(Fac(n)) \/ n = 9
===============================================================================
