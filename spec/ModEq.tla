--------------------------------- MODULE ModEq ---------------------------------
(* Solutions of congruences. All numbers are numbers of Big; a factorization is a sequence of <<prime, exponent>>. For a small      *)
(* modulus the solution set is enumerated; for a large one each solution is checked and their number is fixed by the group's order. *)
EXTENDS Pick, Big, SequencesExt
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
B1 == B(1)
Small == 150
IsSmall(m) == BLe(m, B(Small))
J(x) == BToInt(x)
\* ---- small moduli, in plain integers
RECURSIVE GcdI(_, _)
GcdI(a, b) == IF b = 0 THEN a ELSE GcdI(b, a % b)
UnitsI(m) == {a \in 0..(m - 1) : GcdI(a, m) = 1}
RECURSIVE PowI(_, _, _)
PowI(a, k, m) == IF k = 0 THEN 1 % m ELSE LET h == PowI(a, k \div 2, m) s == (h * h) % m IN IF k % 2 = 1 THEN (s * a) % m ELSE s
\* the powers of a unit
RECURSIVE CycI(_, _, _)
CycI(a, m, x) == IF x = 1 % m THEN {x} ELSE {x} \cup CycI(a, m, (x * a) % m)
GenI(a, m) == CycI(a, m, a % m)
OrdI(a, m) == Cardinality(GenI(a, m))
LamI(m) == LET U == UnitsI(m) IN CHOOSE k \in 1..m : (\E a \in U : OrdI(a, m) = k) /\ \A a \in U : OrdI(a, m) <= k
IsPrimeI(p) == p > 1 /\ \A q \in 2..(p - 1) : p % q # 0
\* ---- the Jacobi symbol: product of Legendre symbols over the prime factors; by reciprocity
LegI(n, p) == IF n % p = 0 THEN 0 ELSE IF \E x \in 1..(p - 1) : (x * x - n) % p = 0 THEN 1 ELSE -1
RECURSIVE JacDef(_, _, _)
JacDef(n, m, p) == IF m = 1 THEN 1 ELSE IF m % p = 0 THEN LegI(n, p) * JacDef(n, m \div p, p) ELSE JacDef(n, m, p + 1)
RECURSIVE Jac(_, _)
Jac(n, m) == IF m = B1 THEN 1 ELSE IF n = B(0) THEN 0 ELSE
   IF ~BLt(n, m) \/ n[1] < 0 THEN Jac(BMod(n, m), m)
   ELSE IF BMod(n, B(2)) = B(0) THEN (IF J(BMod(m, B(8))) \in {3, 5} THEN -1 ELSE 1) * Jac(BShr(n, 1), m)
   ELSE (IF J(BMod(n, B(4))) = 3 /\ J(BMod(m, B(4))) = 3 THEN -1 ELSE 1) * Jac(BMod(m, n), n)
\* ---- square roots of a unit y: how many
Sq(x, m) == BMod(BMul(x, x), m)
NSqrtPP(y, p, e) == IF p = B(2) THEN IF e = 1 THEN 1 ELSE IF e = 2 THEN (IF BMod(y, B(4)) = B1 THEN 2 ELSE 0) ELSE IF BMod(y, B(8)) = B1 THEN 4 ELSE 0 ELSE IF Jac(y, p) = 1 THEN 2 ELSE 0
NSqrt(y, fs) == FoldLeft(LAMBDA n, t : n * NSqrtPP(y, t[1], t[2]), 1, fs)
RECURSIVE BPw(_, _)
BPw(x, n) == IF n = 0 THEN B1 ELSE BMul(x, BPw(x, n - 1))
Prod(fs) == FoldLeft(LAMBDA n, t : BMul(n, BPw(t[1], t[2])), B1, fs)
Res(x, m) == BigOK(x) /\ BIn(x, B(0), BSub(m, B1))
Incr(v) == \A i \in 1..(Len(v) - 1) : BLt(v[i], v[i + 1])
Neg(x, m) == BMod(BNeg(x), m)
\* r is the order of a modulo m, for r dividing a number whose primes are fs
IsOrd(a, m, fs, r) == r[1] = 1 /\ BPowMod(a, r, m) = BMod(B1, m) /\ \A i \in 1..Len(fs) : BMod(r, fs[i]) = B(0) => BPowMod(a, BQuo(r, fs[i]), m) # BMod(B1, m)
\* the number of k-th roots of the unit n in the cyclic group of order phi modulo m
NRoots(n, k, m, phi) == LET d == BGcd(k, phi) IN IF BPowMod(n, BQuo(phi, d), m) = BMod(B1, m) THEN d ELSE B(0)
\* is the modulus 2, 4, p^k or 2 p^k
Cyclic(fs) == LET o == SelectSeq(fs, LAMBDA t : t[1] # B(2)) w == SelectSeq(fs, LAMBDA t : t[1] = B(2)) IN
   IF w = <<>> THEN Len(o) <= 1 ELSE IF w[1][2] = 1 THEN Len(o) <= 1 ELSE w[1][2] = 2 /\ o = <<>>
AsSet(v) == {v[i] : i \in 1..Len(v)}
Call(f, c) == LET n == Len(c) r == c[n] IN
  CASE f = "crt" -> LET g == BGcd(c[2], c[4]) IN IF BMod(BSub(c[1], c[3]), g) # B(0) THEN c[5] = B(0) /\ c[6] = B(0) ELSE
                      c[6] = BQuo(BMul(c[2], c[4]), g) /\ Res(c[5], c[6]) /\ BMod(c[5], c[2]) = c[1] /\ BMod(c[5], c[4]) = c[3]
    \* residues, moduli, mixed radix digits
    [] f = "garner" -> LET v == FoldLeft(LAMBDA a, i : <<BAdd(a[1], BMul(r[i], a[2])), BMul(a[2], c[2][i])>>, <<B(0), B1>>, [i \in 1..Len(r) |-> i]) IN
                       Len(r) = Len(c[1]) /\ \A i \in 1..Len(r) : Res(r[i], c[2][i]) /\ BMod(v[1], c[2][i]) = c[1][i]
    [] f = "jacobi" -> r = Jac(c[1], c[2])
    \* a square root modulo m, one exists
    [] f = "sqrt" -> Res(r, c[2]) /\ Sq(r, c[2]) = BMod(c[1], c[2])
    \* <<y, k, x1, x2>> modulo 2^k: all roots are x1, x2 and their negations
    [] f = "sqrt2" -> LET m == BPow2(c[2]) k == NSqrtPP(c[1], B(2), c[2]) S == {BMod(c[3], m), BMod(c[4], m), Neg(c[3], m), Neg(c[4], m)} IN IF k = 0 THEN c[3] = B(0) /\ c[4] = B(0) ELSE Cardinality(S) = k /\ \A x \in S : Sq(x, m) = BMod(c[1], m)
    [] f = "sqrtm" -> LET m == Prod(c[2]) IN Len(r) = NSqrt(c[1], c[2]) /\ Cardinality(AsSet(r)) = Len(r) /\ \A i \in 1..Len(r) : Res(r[i], m) /\ Sq(r[i], m) = BMod(c[1], m)
    [] f = "order" -> IF IsSmall(c[2]) THEN r = B(OrdI(J(c[1]), J(c[2]))) ELSE IsOrd(c[1], c[2], c[3], r)
    \* <<factors of m, m, phi, primes of phi, root>>
    [] f = "proot" -> LET m == c[2] IN IF Cyclic(c[1]) THEN Res(r, m) /\ BGcd(r, m) = B1 /\ (IF IsSmall(m) THEN OrdI(J(r), J(m)) = Cardinality(UnitsI(J(m))) ELSE IsOrd(r, m, c[4], c[3])) ELSE r = B(0)
    \* <<m, lambda, primes of lambda, root>>: the largest order there is
    [] f = "prou" -> LET m == c[1] IN Res(r, m) /\ BGcd(r, m) = B1 /\ (IF IsSmall(m) THEN OrdI(J(r), J(m)) = LamI(J(m)) ELSE IsOrd(r, m, c[3], c[2]))
    \* <<m, phi, k, n, roots>>, cyclic group
    [] f = "roots" -> LET m == c[1] k == c[3] y == c[4] IN Incr(r) /\ IF IsSmall(m) THEN AsSet(r) = {B(x) : x \in {x \in UnitsI(J(m)) : PowI(x, J(BMod(k, c[2])), J(m)) = J(y) % J(m)}} ELSE B(Len(r)) = NRoots(y, k, m, c[2]) /\ \A i \in 1..Len(r) : Res(r[i], m) /\ BPowMod(r[i], k, m) = BMod(y, m)
    \* a^x = b (mod m) has a solution: <<a, b, m, x>>
    [] f = "dlog" -> BigOK(r) /\ r[1] >= 0 /\ BPowMod(c[1], r, c[3]) = BMod(c[2], c[3])
    \* <<a, b, m, x>>: the smallest one, or -1; small m, any a and b
    [] f = "dlogmin" -> LET a == J(c[1]) b == J(c[2]) m == J(c[3]) IN IF r = B(-1) THEN \A k \in 0..m : PowI(a, k, m) # b % m ELSE PowI(a, J(r), m) = b % m /\ \A k \in 0..(J(r) - 1) : PowI(a, k, m) # b % m
    \* some one, or -1; small m, units
    [] f = "dlogany" -> LET a == J(c[1]) b == J(c[2]) m == J(c[3]) IN IF r = B(-1) THEN b % m \notin GenI(a, m) ELSE r[1] >= 0 /\ BPowMod(c[1], r, c[3]) = BMod(c[2], c[3])
    [] OTHER -> FALSE
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
\* ---- laws for every small modulus
LInit == out \in 1..MaxN
LNext == UNCHANGED out
RECURSIVE FacI(_, _)
FacI(m, p) == IF m = 1 THEN <<>> ELSE IF m % p # 0 THEN FacI(m, p + 1) ELSE LET e == CHOOSE e \in 1..10 : m % (p^e) = 0 /\ m % (p^(e + 1)) # 0 IN <<<<B(p), e>>>> \o FacI(m \div (p^e), p + 1)
PrimesOf(k) == LET t == FacI(k, 2) IN [i \in 1..Len(t) |-> t[i][1]]
Laws == LET m == out U == UnitsI(m) fs == FacI(m, 2) ph == Cardinality(U) C == Cyclic(fs) IN
  /\ Prod(fs) = B(m) /\ C = (\E a \in U : OrdI(a, m) = ph) /\ (m > 1 => ph % LamI(m) = 0)
  /\ m % 2 = 1 => \A x \in -m..(2 * m) : Jac(B(x), B(m)) = JacDef(x, m, 3)
  /\ \A y \in U : Cardinality({x \in U : (x * x) % m = y}) = NSqrt(B(y), fs)
  /\ \A a \in U : LET o == OrdI(a, m) IN PowI(a, o, m) = 1 % m /\ (\A k \in 1..(o - 1) : PowI(a, k, m) # 1 % m) /\ IsOrd(B(a), B(m), PrimesOf(ph), B(o))
  /\ C => \A y \in U : \A k \in 1..6 : B(Cardinality({x \in U : PowI(x, k, m) = y})) = NRoots(B(y), B(k), B(m), B(ph))
===============================================================================
