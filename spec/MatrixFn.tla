------------------------------- MODULE MatrixFn -------------------------------
(* matrix.h over the rings of Ring.tla: a matrix is the sequence of its rows. A call c = <<R, args..., results...>>. *)
EXTENDS Ring, SequencesExt
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
Rows(a) == Len(a)
Cols(a) == IF a = <<>> THEN 0 ELSE Len(a[1])
Dot(R, n, A(_), C(_)) == FoldLeft(LAMBDA acc, k : RAdd(R, acc, RMul(R, A(k), C(k))), RZ(R), [k \in 1..n |-> k])
MMul(R, a, b) == [i \in 1..Rows(a) |-> [j \in 1..Cols(b) |-> Dot(R, Cols(a), LAMBDA k : a[i][k], LAMBDA k : b[k][j])]]
MMap(a, Op(_, _, _)) == [i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> Op(i, j, a[i][j])]]
MAdd(R, a, b) == MMap(a, LAMBDA i, j, x : RAdd(R, x, b[i][j]))
MSub(R, a, b) == MMap(a, LAMBDA i, j, x : RSub(R, x, b[i][j]))
MScale(R, a, s) == MMap(a, LAMBDA i, j, x : RMul(R, x, s))
MId(R, n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R1(R) ELSE RZ(R)]]
MTr(a) == [j \in 1..Cols(a) |-> [i \in 1..Rows(a) |-> a[i][j]]]
MZero(R, n, m) == [i \in 1..n |-> [j \in 1..m |-> RZ(R)]]
RECURSIVE MPow(_, _, _)
MPow(R, a, p) == IF p = B(0) THEN MId(R, Rows(a)) ELSE LET h == MPow(R, a, BShr(p, 1)) s == TLCEval(MMul(R, h, h)) IN IF BMod(p, B(2)) = B(0) THEN s ELSE TLCEval(MMul(R, s, a))
\* ---- determinant: Laplace expansion of the rows i.. over the columns of S
RECURSIVE Minor(_, _, _, _)
Minor(R, a, rs, S) == IF rs = <<>> THEN R1(R) ELSE LET cs == SetToSortSeq(S, <) IN
    FoldLeft(LAMBDA acc, k : LET x == a[rs[1]][cs[k]] IN IF x = RZ(R) THEN acc ELSE LET t == RMul(R, x, Minor(R, a, Tail(rs), S \ {cs[k]})) IN RAdd(R, acc, IF k % 2 = 1 THEN t ELSE RNeg(R, t)), RZ(R), [k \in 1..Len(cs) |-> k])
Det(R, a) == Minor(R, a, [i \in 1..Rows(a) |-> i], 1..Cols(a))
\* the same by dynamic programming over sets of columns: the first k rows against each k-set
DetDP(R, a) == LET n == Rows(a) RECURSIVE D(_, _) D(k, f) == IF k = n THEN f[1..n] ELSE
      D(k + 1, TLCEval([S \in {T \in SUBSET (1..n) : Cardinality(T) = k + 1} |-> LET cs == SetToSortSeq(S, <) IN
        FoldLeft(LAMBDA acc, p : LET t == RMul(R, a[k + 1][cs[p]], f[S \ {cs[p]}]) IN RAdd(R, acc, IF (k + 1 - p) % 2 = 0 THEN t ELSE RNeg(R, t)), RZ(R), [p \in 1..(k + 1) |-> p])]))
    IN D(0, [S \in {{}} |-> R1(R)])
\* ---- rank: the largest non-zero minor; by cross-multiplied elimination (no division)
RankDef(R, a) == LET n == Rows(a) m == Cols(a) K == {k \in 0..n : \E U \in SUBSET (1..n) : \E W \in SUBSET (1..m) : Cardinality(U) = k /\ Cardinality(W) = k /\ Minor(R, a, SetToSortSeq(U, <), W) # RZ(R)}
                 IN CHOOSE k \in K : \A j \in K : j <= k
RECURSIVE RankEl(_, _, _)
RankEl(R, rows, j) == IF rows = <<>> \/ j > Len(rows[1]) THEN 0 ELSE LET pv == {i \in 1..Len(rows) : rows[i][j] # RZ(R)} IN IF pv = {} THEN RankEl(R, rows, j + 1) ELSE
    LET p == CHOOSE i \in pv : TRUE rest == SelectSeq([i \in 1..Len(rows) |-> <<i, rows[i]>>], LAMBDA t : t[1] # p) pr == rows[p] IN
    1 + RankEl(R, TLCEval([i \in 1..Len(rest) |-> LET q == rest[i][2] IN [k \in 1..Len(pr) |-> RSub(R, RMul(R, q[k], pr[j]), RMul(R, pr[k], q[j]))]]), j + 1)
Rank(R, a) == RankEl(R, a, 1)
MCan(R, a) == \A i \in 1..Rows(a) : Len(a[i]) = Cols(a) /\ \A j \in 1..Cols(a) : RCanon(R, a[i][j])
RECURSIVE VLess(_, _, _, _), MLess(_, _, _, _)
VLess(R, v, w, i) == IF i > Len(v) THEN FALSE ELSE IF v[i] = w[i] THEN VLess(R, v, w, i + 1) ELSE RLess(R, v[i], w[i])
MLess(R, a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] = b[i] THEN MLess(R, a, b, i + 1) ELSE VLess(R, a[i], b[i], 1)
Call(f, c) == LET R == c[1] n == Len(c) r == c[n] a == c[2] b == c[3] IN
  CASE f = "add" -> MCan(R, r) /\ r = MAdd(R, a, b)
    [] f = "sub" -> MCan(R, r) /\ r = MSub(R, a, b)
    [] f = "neg" -> MCan(R, r) /\ r = MSub(R, MZero(R, Rows(a), Cols(a)), a)
    [] f = "mul" -> MCan(R, r) /\ r = MMul(R, a, b)
    [] f = "smul" -> MCan(R, r) /\ r = MScale(R, a, b)
    [] f = "sdiv" -> MCan(R, r) /\ MScale(R, r, b) = a
    [] f = "tr" -> r = MTr(a)
    [] f = "det" -> r = DetDP(R, a)
    [] f = "rank" -> r = Rank(R, a)
    \* for a regular matrix
    [] f = "inv" -> MCan(R, r) /\ MMul(R, a, r) = MId(R, Rows(a)) /\ MMul(R, r, a) = MId(R, Rows(a))
    [] f = "div" -> MCan(R, r) /\ MMul(R, r, b) = a
    [] f = "pow" -> IF b[1] >= 0 THEN r = MPow(R, a, b) ELSE MMul(R, r, MPow(R, a, BNeg(b))) = MId(R, Rows(a))
    \* <<R, a, identity of a, zero of a, s, s times the identity, plus a, rows, cols>>
    [] f = "make" -> c[3] = MId(R, Rows(a)) /\ c[4] = MZero(R, Rows(a), Cols(a)) /\ c[6] = MScale(R, MId(R, Rows(a)), c[5]) /\ c[7] = a /\ c[8] = Rows(a) /\ c[9] = Cols(a)
    \* <<R, a, i, j, n, m, block>>
    [] f = "sub_" -> r = [x \in 1..c[5] |-> [y \in 1..c[6] |-> a[x + c[3]][y + c[4]]]]
    [] f = "cmp" -> c[4] = B01(a = b) /\ c[5] = B01(MLess(R, a, b, 1)) /\ c[6] = B01(a = b \/ MLess(R, a, b, 1))
    [] OTHER -> FALSE
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
\* ---- laws over Z/2 and Z/3
LInit == out \in {<<<<2, B(m)>>, n>> : m \in {2, 3}, n \in 1..MaxN}
LNext == UNCHANGED out
Els(R) == {B(i) : i \in 0..(BToInt(R[2]) - 1)}
Mats(R, n) == [1..n -> [1..n -> Els(R)]]
Laws == LET R == out[1] n == out[2] full == n < 3 \/ R[2] = B(2) M == IF full THEN Mats(R, n) ELSE {[i \in 1..3 |-> [j \in 1..3 |-> IF i + j = 4 THEN RZ(R) ELSE a[((i + j) % 2) + 1][((i * j) % 2) + 1]]] : a \in Mats(R, 2)} IN
  /\ \A a \in M : LET d == Det(R, a) IN /\ DetDP(R, a) = d /\ d = Det(R, MTr(a)) /\ Rank(R, a) = RankDef(R, a) /\ (d = RZ(R)) = (Rank(R, a) < n) /\ Rank(R, MTr(a)) = Rank(R, a)
  /\ n <= 2 => \A a \in M : \A b \in M : Det(R, MMul(R, a, b)) = RMul(R, Det(R, a), Det(R, b)) /\ MTr(MMul(R, a, b)) = MMul(R, MTr(b), MTr(a))
===============================================================================
