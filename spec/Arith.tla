-------------------------------- MODULE Arith --------------------------------
(* Arithmetic functions of small integers by prime factorization: Fac(n) is the increasing sequence of <<prime, exponent>>. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
RECURSIVE FacFrom(_, _), ExpOf(_, _)
ExpOf(n, p) == IF n % p # 0 THEN 0 ELSE 1 + ExpOf(n \div p, p)
FacFrom(n, p) == IF n = 1 THEN <<>> ELSE IF p > n \div p THEN <<<<n, 1>>>> ELSE IF n % p # 0 THEN FacFrom(n, p + 1) ELSE LET e == ExpOf(n, p) IN <<<<p, e>>>> \o FacFrom(n \div (p^e), p + 1)
Fac(n) == FacFrom(n, 2)
\* up to 10^7: the primes below 3170 decide
SmallPs == TLCEval(SelectSeq([i \in 1..3170 |-> i], LAMBDA i : i > 1 /\ Fac(i) = <<<<i, 1>>>>))
FcL(i) == LET a == FoldLeft(LAMBDA b, p : IF b[1] % p # 0 THEN b ELSE <<b[1] \div (p^ExpOf(b[1], p)), Append(b[2], <<p, ExpOf(b[1], p)>>)>>, <<i, <<>>>>, SmallPs)
          IN IF a[1] = 1 THEN a[2] ELSE Append(a[2], <<a[1], 1>>)
FProd(fs, G(_)) == FoldLeft(LAMBDA a, t : a * G(t), 1, fs)
PrimeF(fs) == Len(fs) = 1 /\ fs[1][2] = 1
PhiF(fs) == FProd(fs, LAMBDA t : (t[1] - 1) * t[1]^(t[2] - 1))
MuF(fs) == FProd(fs, LAMBDA t : IF t[2] = 1 THEN -1 ELSE 0)
NuF(fs) == Len(fs)
Sig0F(fs) == FProd(fs, LAMBDA t : t[2] + 1)
Sig1F(fs) == FProd(fs, LAMBDA t : 1 + FoldLeft(+, 0, [i \in 1..t[2] |-> t[1]^i]))
IsPrimeI(n) == n > 1 /\ PrimeF(Fac(n))
DivI(n) == {d \in 1..n : n % d = 0}
RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
SumOf(S) == FoldLeft(+, 0, SetToSeq(S))
ArithLaws(n) == LET fs == Fac(n) D == DivI(n) IN
  /\ FProd(fs, LAMBDA t : t[1]^t[2]) = n /\ \A i \in 1..Len(fs) : fs[i][2] > 0 /\ DivI(fs[i][1]) = {1, fs[i][1]} /\ fs[i][1] > 1 /\ (i > 1 => fs[i - 1][1] < fs[i][1])
  /\ PhiF(fs) = Cardinality({a \in 1..n : GcdN(a, n) = 1}) /\ Sig0F(fs) = Cardinality(D) /\ Sig1F(fs) = SumOf(D)
  /\ FoldLeft(LAMBDA a, d : a + MuF(Fac(d)), 0, SetToSeq(D)) = (IF n = 1 THEN 1 ELSE 0)
  /\ IsPrimeI(n) = (Cardinality(D) = 2) /\ NuF(fs) = Cardinality({d \in D : Cardinality(DivI(d)) = 2})
===============================================================================
