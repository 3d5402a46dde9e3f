------------------------------- MODULE ModRing -------------------------------
(* Residues modulo M >= 1, represented by 0..M-1. A call c = <<M, arguments..., result>>; arguments of arithmetic are   *)
(* representatives, arguments of a conversion are any integers. Divisions may also be by non-units when a solution exists. *)
EXTENDS Pick, Big
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
Z == B(0)
One == B(1)
Canon(M, r) == BLe(Z, r) /\ BLt(r, M)
Unit(M, y) == BGcd(y, M) = One
Solvable(M, x, y) == BMod(x, BGcd(y, M)) = Z
Divides(M, x, y, r) == BMod(BSub(BMul(r, y), x), M) = Z
Call(f, c) == LET M == c[1] n == Len(c) r == c[n] IN
  CASE f = "norm" -> r = BMod(c[2], M)
    [] f = "add" -> r = BMod(BAdd(c[2], c[3]), M)
    [] f = "sub" -> r = BMod(BSub(c[2], c[3]), M)
    [] f = "mul" -> r = BMod(BMul(c[2], c[3]), M)
    [] f = "neg" -> r = BMod(BNeg(c[2]), M)
    [] f = "inv" -> Canon(M, r) /\ IF Unit(M, c[2]) THEN Divides(M, One, c[2], r) ELSE r = Z
    [] f = "div" -> Solvable(M, c[2], c[3]) => Canon(M, r) /\ Divides(M, c[2], c[3], r)
    [] f = "pow" -> r = BPowMod(c[2], c[3], M)
    \* remainder of the representatives
    [] f = "rem" -> r = BMod(c[2], c[3])
    \* <<M, x, y, x = y, x < y, x <= y>>
    [] f = "cmp" -> c[4] = B(B01(c[2] = c[3])) /\ c[5] = B(B01(BLt(c[2], c[3]))) /\ c[6] = B(B01(BLe(c[2], c[3])))
    [] f = "one" -> r = BMod(One, M)
    [] f = "zero" -> r = Z
    \* <<a, b, x, y, g>>: non-negative coefficients below the other operand, each solving its congruence
    [] f = "gcdex" -> /\ c[5] = BGcd(c[1], c[2]) /\ BLe(Z, c[3]) /\ BLe(Z, c[4])
                      /\ c[2] # Z => BMod(BSub(BMul(c[1], c[3]), c[5]), c[2]) = Z /\ (c[3] = Z \/ BLt(c[3], c[2]) \/ c[2] = One \/ c[1] = Z)
                      /\ c[1] # Z => BMod(BSub(BMul(c[2], c[4]), c[5]), c[1]) = Z /\ (c[4] = Z \/ BLt(c[4], c[1]) \/ c[1] = One \/ c[2] = Z)
    [] OTHER -> FALSE
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
\* ---- laws: residues form a commutative ring; division by y has gcd(y, M) solutions or none
LInit == out \in {<<M>> : M \in 1..MaxN}
LNext == UNCHANGED out
Laws == LET M == out[1] R == 0..(M - 1) m == B(M)
            A(x, y) == BToInt(BMod(BAdd(B(x), B(y)), m)) T(x, y) == BToInt(BMod(BMul(B(x), B(y)), m)) IN
  /\ \A x \in R : \A y \in R : A(x, y) = (x + y) % M /\ T(x, y) = (x * y) % M /\ \A z \in R : T(A(x, y), z) = A(T(x, z), T(y, z))
  /\ \A y \in R : \A x \in R : LET g == BToInt(BGcd(B(y), m)) S == {z \in R : Divides(m, B(x), B(y), B(z))} IN Cardinality(S) = (IF Solvable(m, B(x), B(y)) THEN g ELSE 0)
  /\ \A y \in R : Unit(m, B(y)) = \E z \in R : (z * y) % M = 1 % M
=============================================================================
