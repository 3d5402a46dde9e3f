------------------------------- MODULE GeomAlg -------------------------------
(* Geometric algebra with three generators e1, e2, e3 of square 1 and one, e0, of square 0 (plane-based algebra; without e0 it is      *)
(* Cl(3, 0)), and vectors. A multivector is its 16 coefficients over the basis Gen, in that order; everything follows from multiplying  *)
(* basis elements as words of generators. m is a modulus for the coefficients, 0 for integers.                                          *)
EXTENDS Pick, Big, SequencesExt
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
Gen == << <<>>, <<0>>, <<1>>, <<2>>, <<3>>, <<2, 3>>, <<3, 1>>, <<1, 2>>, <<0, 1>>, <<0, 2>>, <<0, 3>>, <<1, 2, 3>>, <<0, 3, 2>>, <<0, 1, 3>>, <<0, 2, 1>>, <<0, 1, 2, 3>> >>
NB == 16
Idx == 1..NB
\* a word: sort it, counting exchanges, then contract equal neighbours
Inv(w) == Cardinality({ij \in (1..Len(w)) \X (1..Len(w)) : ij[1] < ij[2] /\ w[ij[1]] > w[ij[2]]})
Occ(w, x) == Cardinality({i \in 1..Len(w) : w[i] = x})
GSet(w) == {x \in 0..3 : Occ(w, x) % 2 = 1}
GSign(w) == IF Occ(w, 0) > 1 THEN 0 ELSE IF Inv(w) % 2 = 0 THEN 1 ELSE 0 - 1
Find(S) == CHOOSE i \in Idx : GSet(Gen[i]) = S
Mul2(i, j) == LET w == Gen[i] \o Gen[j] k == Find(GSet(w)) IN <<k, GSign(w) * GSign(Gen[k])>>
Table == [i \in Idx |-> [j \in Idx |-> Mul2(i, j)]]
Gr(i) == Len(Gen[i])
Sgn(e) == IF e % 2 = 0 THEN 1 ELSE 0 - 1
\* dual: exchanges a basis element with the one that completes it, both with the sign + of the documentation
DualTo == <<16, 12, 13, 14, 15, 9, 10, 11, 6, 7, 8, 2, 3, 4, 5, 1>>
Md(x, m) == IF m = 0 THEN x ELSE x % m
Zero == [i \in Idx |-> 0]
Supp(a) == {i \in Idx : a[i] # 0}
\* the product, keeping only pairs of basis elements that Keep accepts (grades r, s, grade of the product)
Prod(a, b, m, Keep(_, _, _)) == LET R == Supp(a) \X Supp(b)
      step(z, ij) == LET t == Table[ij[1]][ij[2]] IN IF t[2] = 0 \/ ~Keep(Gr(ij[1]), Gr(ij[2]), Gr(t[1])) THEN z ELSE [z EXCEPT ![t[1]] = @ + t[2] * a[ij[1]] * b[ij[2]]]
      r == FoldSet(LAMBDA ij, z : step(z, ij), Zero, R) IN [i \in Idx |-> Md(r[i], m)]
GP(a, b, m) == Prod(a, b, m, LAMBDA r, s, t : TRUE)
Wedge(a, b, m) == Prod(a, b, m, LAMBDA r, s, t : t = r + s)
Inner(a, b, m) == Prod(a, b, m, LAMBDA r, s, t : t = (IF r < s THEN s - r ELSE r - s))
Dual(a) == [i \in Idx |-> a[DualTo[i]]]
Join(a, b, m) == Dual(Wedge(Dual(a), Dual(b), m))
Map(a, m, F(_)) == [i \in Idx |-> Md(F(i) * a[i], m)]
Rev(a, m) == Map(a, m, LAMBDA i : Sgn((Gr(i) * (Gr(i) - 1)) \div 2))
Conj(a, m) == Map(a, m, LAMBDA i : Sgn((Gr(i) * (Gr(i) + 1)) \div 2))
AddV(a, b, s, m) == [i \in Idx |-> Md(a[i] + s * b[i], m)]
Scal(a, t, m) == [i \in Idx |-> Md(a[i] * t, m)]
SqSum(a, S, m) == Md(FoldSet(LAMBDA i, z : z + a[i] * a[i], 0, S), m)
Null == {i \in Idx : Occ(Gen[i], 0) > 0}
E2 == {6, 7, 8, 12}
One == [Zero EXCEPT ![1] = 1]
\* coefficients of a class of blades, from the name in the code
Prim(c) == CASE c = "0" -> {1} [] c = "1" -> 2..5 [] c = "2E" -> 6..8 [] c = "2e" -> 9..11 [] c = "3" -> 12..15 [] c = "4" -> {16} [] c = "02E" -> {1} \cup (6..8) [] c = "02e" -> {1} \cup (9..11)
  [] c = "22" -> 6..11 [] c = "2E4" -> (6..8) \cup {16} [] c = "2e4" -> 9..11 \cup {16} [] c = "024" -> {1} \cup (6..11) \cup {16} [] c = "13" -> (2..5) \cup (12..15) [] c = "m" -> Idx
In(a, c) == Supp(a) \subseteq Prim(c)
Odd(c) == c \in {"1", "3", "13"}
\* sandwich: (-1)^(odd b) b a ~b, for each part of a, within that part's own class of blades
Part(i) == CASE i = 1 -> {1} [] i \in 2..5 -> 2..5 [] i \in 6..11 -> 6..11 [] i \in 12..15 -> 12..15 [] OTHER -> {16}
Sandw(a, b, odd, m) == LET p(S) == LET r == GP(GP(b, [i \in Idx |-> IF i \in S THEN a[i] ELSE 0], m), Rev(b, m), m) IN [i \in Idx |-> IF i \in S THEN Md(IF odd THEN 0 - r[i] ELSE r[i], m) ELSE 0]
  IN [i \in Idx |-> p(Part(i))[i]]
\* ---- vectors of numbers of Big, by component
V2(F(_, _), a, b) == [i \in 1..Len(a) |-> F(a[i], b[i])]
V1(F(_), a) == [i \in 1..Len(a) |-> F(a[i])]
BSum(v) == FoldLeft(LAMBDA z, x : BAdd(z, x), B(0), v)
DotV(a, b) == BSum(V2(LAMBDA x, y : BMul(x, y), a, b))
Det2(a, b, c, d) == BSub(BMul(a, d), BMul(b, c))
Cross3(a, b) == <<Det2(a[2], a[3], b[2], b[3]), Det2(a[3], a[1], b[3], b[1]), Det2(a[1], a[2], b[1], b[2])>>
SubV(a, b) == V2(LAMBDA x, y : BSub(x, y), a, b)
CmpV(a, b) == LET D == {i \in 1..Len(a) : a[i] # b[i]} IN IF D = {} THEN 0 ELSE LET i == CHOOSE x \in D : \A y \in D : x <= y IN BCmp(a[i], b[i])
CmpI(a, b) == LET D == {i \in 1..Len(a) : a[i] # b[i]} IN IF D = {} THEN 0 ELSE LET i == CHOOSE x \in D : \A y \in D : x <= y IN IF a[i] < b[i] THEN 0 - 1 ELSE 1
Rels(c) == <<B01(c = 0), B01(c # 0), B01(c < 0), B01(c > 0), B01(c <= 0), B01(c >= 0)>>
VOp(o, a, b) == CASE o = "+" -> V2(LAMBDA x, y : BAdd(x, y), a, b) [] o = "-" -> SubV(a, b) [] o = "*" -> V2(LAMBDA x, y : BMul(x, y), a, b) [] o = "/" -> V2(LAMBDA x, y : BQuo(x, y), a, b) [] o = "%" -> V2(LAMBDA x, y : BRem(x, y), a, b)
Fill(t, a) == [i \in 1..Len(a) |-> t]
\* ---- rotation of x about the unit axis n by the angle with half-angle cosine c and sine s, times c^2 + s^2
I3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
X3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Rotd(n, c, s, x) == [i \in 1..3 |-> (c * c - s * s) * x[i] + 2 * c * s * X3(n, x)[i] + 2 * s * s * n[i] * I3(n, x)]
NearI(a, b, d) == a - b <= d /\ b - a <= d
Call(f, c) == LET r == c[Len(c)] IN CASE
       f = "gp" -> r = GP(c[2], c[3], c[1])
    [] f = "wedge" -> r = Wedge(c[2], c[3], c[1])
    [] f = "inner" -> r = Inner(c[2], c[3], c[1])
    [] f = "join" -> r = Join(c[2], c[3], c[1])
    [] f = "add" -> r = AddV(c[2], c[3], 1, c[1])
    [] f = "sub" -> r = AddV(c[2], c[3], 0 - 1, c[1])
    [] f = "scal" -> r = Scal(c[2], c[3], c[1])
    [] f = "sdiv" -> Scal(r, c[3], c[1]) = c[2] /\ Supp(r) \subseteq Supp(c[2])
    [] f = "dual" -> r = Dual(c[2])
    [] f = "rev" -> r = Rev(c[2], c[1])
    [] f = "conj" -> r = Conj(c[2], c[1])
    [] f = "neg" -> r = Scal(c[2], 0 - 1, c[1])
    [] f = "norms" -> r = <<SqSum(c[2], Idx \ Null, c[1]), SqSum(c[2], Null, c[1]), Md(SqSum(c[2], (Idx \ Null) \ E2, c[1]) - SqSum(c[2], E2, c[1]), c[1])>>
    [] f = "abs2" -> r = SqSum(c[2], Idx, c[1])
    [] f = "inv" -> GP(c[2], r, c[1]) = One /\ GP(r, c[2], c[1]) = One
    [] f = "div" -> GP(r, c[3], c[1]) = c[2]
    [] f = "sand" -> In(c[2], c[4]) /\ In(c[3], c[5]) /\ r = Sandw(c[2], c[3], Odd(c[5]), c[1])
    [] f = "refl" -> r = Scal(GP(GP(c[3], c[2], c[1]), Rev(c[3], c[1]), c[1]), 0 - 1, c[1])
    [] f = "rotv" -> r = GP(GP(c[3], c[2], c[1]), Rev(c[3], c[1]), c[1])
    [] f = "same" -> r = c[2]
    [] f = "cmpI" -> r = Rels(CmpI(c[1], c[2]))
    [] f = "mkrot" -> \A i \in 1..3 : NearI(r[i], c[1][i], 2)
    [] f = "transl" -> r = <<c[2], c[1][1] * c[2] + c[3][1] * c[2], c[1][2] * c[2] + c[3][2] * c[2], c[1][3] * c[2] + c[3][3] * c[2]>>
    [] f = "rotor" -> LET q == c[3] * c[3] + c[4] * c[4] IN r = <<q>> \o Rotd(c[2], c[3], c[4], c[1])
    \* the line through two points has its direction, and contains both; a plane contains the points with n.x = d
    [] f = "line" -> r = B01(\A i \in 1..3 : X3(c[2], [j \in 1..3 |-> c[3][j] - c[1][j]])[i] = 0)
    [] f = "plane" -> r = B01(I3(c[1], c[3]) = c[2])
    [] f = "vop" -> r = VOp(c[1], c[2], c[3])
    [] f = "vsc" -> r = VOp(c[1], c[2], Fill(c[3], c[2]))
    [] f = "vself" -> r = VOp(c[1], c[2], Fill(c[2][c[3]], c[2]))
    [] f = "vneg" -> r = V1(LAMBDA x : BNeg(x), c[1])
    [] f = "vid" -> r = c[1]
    [] f = "dot" -> r = DotV(c[1], c[2])
    [] f = "cr2" -> r = Det2(c[1][1], c[1][2], c[2][1], c[2][2])
    [] f = "cr3" -> r = Cross3(c[1], c[2])
    [] f = "dot3" -> r = DotV(SubV(c[2], c[1]), SubV(c[3], c[1]))
    [] f = "cr32" -> LET a == SubV(c[2], c[1]) b == SubV(c[3], c[1]) IN r = Det2(a[1], a[2], b[1], b[2])
    [] f = "cr33" -> r = Cross3(SubV(c[2], c[1]), SubV(c[3], c[1]))
    [] f = "rot" -> LET a == c[1] b == c[2] IN r = <<BSub(BMul(a[1], b[1]), BMul(a[2], b[2])), BAdd(BMul(a[2], b[1]), BMul(a[1], b[2]))>>
    [] f = "irot" -> LET a == c[1] b == c[2] IN r = <<BAdd(BMul(a[1], b[1]), BMul(a[2], b[2])), BSub(BMul(a[2], b[1]), BMul(a[1], b[2]))>>
    [] f = "perp" -> r = <<BNeg(c[1][2]), c[1][1]>>
    [] f = "vabs" -> r = <<DotV(c[1], c[1]), BRoot(DotV(c[1], c[1]), 2)>>
    [] f = "diff2" -> r = BSub(BMul(c[1][1], c[1][1]), BMul(c[1][2], c[1][2]))
    [] f = "unit" -> LET d == BRoot(DotV(c[1], c[1]), 2) IN r = IF BLt(c[3], d) THEN VOp("/", c[1], Fill(d, c[1])) ELSE c[2]
    [] f = "near" -> r = B01(\A i \in 1..Len(c[1]) : BLe(BAbs(BSub(c[1][i], c[2][i])), c[3]))
    [] f = "cmp" -> r = Rels(CmpV(c[1], c[2]))
    [] f = "cmp1" -> r = CmpV(c[1], c[2])
    [] f = "list" -> r = [i \in 1..c[2] |-> IF i <= Len(c[1]) THEN c[1][i] ELSE B(0)]
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
\* ---- laws
U(i) == [Zero EXCEPT ![i] = 1]
Plain(S) == [i \in Idx |-> IF i \in S THEN i * i - 7 * i + 3 ELSE 0]
GeomLaws(n) == LET i == n IN
  /\ \A j \in Idx : \A k \in Idx : GP(GP(U(i), U(j), 0), U(k), 0) = GP(U(i), GP(U(j), U(k), 0), 0) /\ Wedge(Wedge(U(i), U(j), 0), U(k), 0) = Wedge(U(i), Wedge(U(j), U(k), 0), 0)
  /\ GP(One, U(i), 0) = U(i) /\ GP(U(i), One, 0) = U(i) /\ Dual(Dual(U(i))) = U(i) /\ DualTo[DualTo[i]] = i /\ GSet(Gen[i]) \cup GSet(Gen[DualTo[i]]) = 0..3 /\ Gr(i) + Gr(DualTo[i]) = 4
  \* the table of squares of the documentation
  /\ GP(U(i), U(i), 0)[1] = <<1, 0, 1, 1, 1, -1, -1, -1, 0, 0, 0, -1, 0, 0, 0, 0>>[i] /\ \A k \in 2..16 : GP(U(i), U(i), 0)[k] = 0
  \* U(i) times its completion is the unit volume up to sign; reversing exchanges factors
  /\ Wedge(U(i), U(DualTo[i]), 0) \in {U(16), Scal(U(16), 0 - 1, 0)}
  /\ \A j \in Idx : Rev(GP(U(i), U(j), 0), 0) = GP(Rev(U(j), 0), Rev(U(i), 0), 0) /\ Conj(GP(U(i), U(j), 0), 0) = GP(Conj(U(j), 0), Conj(U(i), 0), 0)
  /\ \A j \in 2..5 : i \in 2..5 => AddV(GP(U(i), U(j), 0), GP(U(j), U(i), 0), 1, 0) = Scal(One, IF i = j /\ i > 2 THEN 2 ELSE 0, 0)
  \* the sandwich keeps parts for every class that is even or odd
  /\ \A cl \in {"024", "13"} : LET b == Plain(Prim(cl)) r == GP(GP(b, U(i), 0), Rev(b, 0), 0) IN i \notin {1, 16} => Supp(r) \subseteq Part(i)
LInit == out \in {[f |-> "law", n |-> i] : i \in 1..MaxN}
LNext == UNCHANGED out
Laws == out.f = "law" => GeomLaws(out.n)
===============================================================================
