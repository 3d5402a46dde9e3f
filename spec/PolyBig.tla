------------------------------- MODULE PolyBig -------------------------------
(* Polynomials and series far beyond the sizes of Poly.tla, exactly. A polynomial made of a few blocks, each repeating a    *)
(* pattern of t coefficients, becomes sparse when multiplied by 1 - x^t, and the product of two such polynomials becomes    *)
(* the sparse product of the two when multiplied by both factors. A sparse polynomial is a sequence of <<power, coeff>>,   *)
(* powers ascending. Series: s = num / den with num, den sparse; the defining equations of inverse, exp, ln and powers,     *)
(* multiplied by den, are sums of few terms per coefficient.                                                                *)
EXTENDS Ring, SequencesExt, FiniteSetsExt
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
Keys(a) == {a[i][1] : i \in 1..Len(a)}
Fn(a) == [k \in Keys(a) |-> a[CHOOSE i \in 1..Len(a) : a[i][1] = k][2]]
Sorted(a) == \A i \in 1..Len(a) : a[i][1] >= 0 /\ (i > 1 => a[i - 1][1] < a[i][1])
\* the coefficient at k of the product of the sparse a and b (given as a function), powers modulo n unless n = 0
Coef(R, n, a, fb, k) == FoldLeft(LAMBDA acc, x : LET j == IF n = 0 THEN k - x[1] ELSE (k - x[1] + n) % n IN IF j \in DOMAIN fb THEN RAdd(R, acc, RMul(R, x[2], fb[j])) ELSE acc, RZ(R), a)
Powers(n, a, b) == {IF n = 0 THEN i + j ELSE (i + j) % n : i \in Keys(a), j \in Keys(b)}
\* rows <<k, v>> hold the product of a and b up to the power lr, and nothing else
IsProd(R, n, lr, a, b, rows) ==
  LET fb == TLCEval(Fn(b)) K == Keys(rows) IN
  /\ Sorted(a) /\ Sorted(b) /\ Sorted(rows)
  /\ \A i \in 1..Len(rows) : rows[i][1] <= lr /\ rows[i][2] = Coef(R, n, a, fb, rows[i][1])
  /\ \A k \in {k \in Powers(n, a, b) : k <= lr} \ K : Coef(R, n, a, fb, k) = RZ(R)
LastPow(a) == a[Len(a)][1]
RECURSIVE And(_, _)
And(i, j) == IF i = 0 THEN 0 ELSE (i % 2) * (j % 2) + 2 * And(i \div 2, j \div 2)
H(op, i, j) == CASE op = "and" -> And(i, j) [] op = "or" -> i + j - And(i, j) [] op = "xor" -> i + j - 2 * And(i, j) [] op = "max" -> IF i < j THEN j ELSE i
\* ---- series modulo x^N over Z/M, M < 2^15: plain integers
SP(a, b) == FlattenSeq([i \in 1..Len(a) |-> [j \in 1..Len(b) |-> <<a[i][1] + b[j][1], a[i][2] * b[j][2]>>]])
SMod(M, a) == [i \in 1..Len(a) |-> <<a[i][1], a[i][2] % M>>]
SMul(M, a, b) == SMod(M, SP(a, b))
SDer(M, a) == LET d == SelectSeq(a, LAMBDA x : x[1] > 0) IN [i \in 1..Len(d) |-> <<d[i][1] - 1, (d[i][2] * (d[i][1] % M)) % M>>]
SScl(M, a, c) == [i \in 1..Len(a) |-> <<a[i][1], (a[i][2] * (c % M)) % M>>]
SNeg(M, a) == SScl(M, a, M - 1)
SAt(M, a, k) == FoldLeft(LAMBDA acc, x : IF x[1] = k THEN (acc + x[2]) % M ELSE acc, 0, a)
\* the coefficient at k of the sparse a times the series v
SV(M, a, v, k) == FoldLeft(LAMBDA acc, x : IF x[1] <= k THEN (acc + x[2] * v[k - x[1] + 1]) % M ELSE acc, 0, a)
\* the derivative of a series
VDer(M, v) == [i \in 1..(Len(v) - 1) |-> (v[i + 1] * (i % M)) % M]
Same(M, N, a, v, b, w) == \A k \in 0..(N - 1) : SV(M, a, v, k) = SV(M, b, w, k)
One(N) == [i \in 1..N |-> IF i = 1 THEN 1 ELSE 0]
RECURSIVE PowM(_, _, _)
PowM(M, b, e) == IF e = 0 THEN 1 % M ELSE LET h == PowM(M, b, e \div 2) s == (h * h) % M IN IF e % 2 = 1 THEN (s * b) % M ELSE s
\* num' den - num den'
Wr(M, num, den) == SMul(M, SDer(M, num), den) \o SNeg(M, SMul(M, num, SDer(M, den)))
Series(c) ==
  LET M == c[1] N == c[2] op == c[3] num == c[4] den == c[5] s == c[6] x == c[7] r == c[8] u == TLCEval(One(N)) dr == TLCEval(VDer(M, r)) w == TLCEval(Wr(M, num, den)) nd == TLCEval(SMul(M, num, den)) IN
  /\ Len(s) = N /\ Len(r) = N /\ (\A i \in 1..N : r[i] \in 0..(M - 1)) /\ Same(M, N, den, s, num, u)
  /\ CASE op = "inv" -> Same(M, N, num, r, den, u)
       [] op = "exp" -> r[1] = 1 /\ Same(M, N - 1, SMul(M, den, den), dr, w, r)
       [] op = "ln" -> r[1] = x /\ Same(M, N - 1, nd, dr, w, u)
       [] op = "pow" -> r[1] = PowM(M, s[1], x) /\ Same(M, N - 1, nd, dr, SScl(M, w, x), r)
       \* a second series given as a quotient: s * num2 / den2, s / (num2 / den2)
       [] op = "mul" -> Same(M, N, SMul(M, den, x[2]), r, SMul(M, num, x[1]), u)
       [] op = "div" -> Same(M, N, SMul(M, den, x[1]), r, SMul(M, num, x[2]), u)
Call(f, c) == LET R == c[1] n == Len(c) rows == c[n] IN
  \* <<R, lr, number of coefficients, (1 - x^s) p, (1 - x^t) q, the result times both up to x^lr>>
  CASE f = "mul" -> c[3] = c[2] + 1 /\ IsProd(R, 0, c[2], c[4], c[5], rows)
    \* <<R, s, t, (1 - x^s) q, (1 - x^t) d, rows <<k, p, r>> times both>>: p = q d + r, deg r < deg d
    [] f = "div" -> LET fb == TLCEval(Fn(c[5])) K == Keys(rows) IN
         /\ Sorted(rows) /\ Sorted(c[4]) /\ Sorted(c[5])
         /\ \A i \in 1..Len(rows) : rows[i][2] = RAdd(R, rows[i][3], Coef(R, 0, c[4], fb, rows[i][1]))
         /\ \A k \in Powers(0, c[4], c[5]) \ K : Coef(R, 0, c[4], fb, k) = RZ(R)
         /\ LET rr == SelectSeq(rows, LAMBDA x : x[3] # RZ(R)) IN rr # <<>> => LastPow(rr) - c[2] < LastPow(c[5])
    \* cyclic: <<R, n, (1 - x^s) p, (1 - x^t) q, the result times both>>, all modulo x^n - 1
    [] f = "cyc" -> IsProd(R, c[2], c[2] - 1, c[3], c[4], rows)
    \* <<R, op, p, q, rows>>: r[h(i, j)] collects p[i] q[j]
    [] f = "bit" -> LET a == c[3] b == c[4] A == {<<i, j, H(c[2], a[i][1], b[j][1])>> : i \in 1..Len(a), j \in 1..Len(b)} K == {t[3] : t \in A}
                        Val(k) == FoldSet(LAMBDA t, acc : RAdd(R, acc, RMul(R, a[t[1]][2], b[t[2]][2])), RZ(R), {t \in A : t[3] = k}) IN
         /\ Sorted(rows) /\ Keys(rows) \subseteq K /\ \A k \in K \ Keys(rows) : Val(k) = RZ(R)
         /\ \A i \in 1..Len(rows) : rows[i][2] = Val(rows[i][1])
    [] f = "ser" -> Series(c)
    [] OTHER -> FALSE
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
===============================================================================
