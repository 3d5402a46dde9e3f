-------------------------------- MODULE ConvFn --------------------------------
(* fft.h and convolutions.h: every transform and convolution by its defining sum over the rings of Ring.tla. Indices 0..n-1. *)
EXTENDS Ring, SequencesExt
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
Sum(R, n, S(_)) == FoldLeft(LAMBDA acc, i : RAdd(R, acc, S(i - 1)), RZ(R), [i \in 1..n |-> i])
RECURSIVE And(_, _), Or(_, _), Xor(_, _)
And(i, j) == IF i = 0 THEN 0 ELSE (i % 2) * (j % 2) + 2 * And(i \div 2, j \div 2)
Or(i, j) == i + j - And(i, j)
Xor(i, j) == i + j - 2 * And(i, j)
Sub(i, k) == And(i, k) = i
\* r[k] = Sum[f[i] g[j], k == h(i, j)] for all k at once
Group(R, n, f, g, h(_, _)) == FoldLeft(LAMBDA acc, t : LET i == t \div n j == t % n k == h(i, j) + 1 IN [acc EXCEPT ![k] = RAdd(R, @, RMul(R, f[i + 1], g[j + 1]))], [k \in 1..n |-> RZ(R)], [t \in 1..(n * n) |-> t - 1])
Max2(i, j) == IF i < j THEN j ELSE i
H(op, n, i, j) == CASE op = "and" -> And(i, j) [] op = "or" -> Or(i, j) [] op = "xor" -> Xor(i, j) [] op = "max" -> Max2(i, j) [] op = "cyc" -> (i + j) % n
VAdd(R, v, w) == [i \in 1..Len(v) |-> RAdd(R, v[i], w[i])]
\* the number of ones
RECURSIVE Ones(_)
Ones(i) == IF i = 0 THEN 0 ELSE (i % 2) + Ones(i \div 2)
Call(f, c) == LET R == c[1] m == Len(c) r == c[m] n == Len(c[2]) a == c[2] b == c[3] IN
  \* <<R, f, g, op, res>>
  CASE f = "group" -> r = LET g == Group(R, n, a, b, LAMBDA i, j : H(c[4], n, i, j)) IN g
    \* accumulates into r0: <<R, f, g, op, r0, res>>
    [] f = "sgroup" -> r = VAdd(R, c[5], Group(R, n, a, b, LAMBDA i, j : H(c[4], n, i, j)))
    \* transforms <<R, f, res>>: Walsh-Hadamard; sums over subsets and their inverse
    [] f = "wht" -> r = [k \in 1..n |-> Sum(R, n, LAMBDA i : IF Ones(And(i, k - 1)) % 2 = 1 THEN RNeg(R, a[i + 1]) ELSE a[i + 1])]
    [] f = "zeta" -> r = [k \in 1..n |-> Sum(R, n, LAMBDA i : IF Sub(i, k - 1) THEN a[i + 1] ELSE RZ(R))]
    [] f = "moeb" -> a = [k \in 1..n |-> Sum(R, n, LAMBDA i : IF Sub(i, k - 1) THEN r[i + 1] ELSE RZ(R))]
    [] f = "subset" -> r = [k \in 1..n |-> Sum(R, n, LAMBDA i : IF Sub(i, k - 1) THEN RMul(R, a[i + 1], b[k - i]) ELSE RZ(R))]
    \* discrete Fourier transform <<R, f, w, res>> with w of order n
    [] f = "fft" -> r = LET pw == TLCEval([i \in 1..n |-> RPow(R, b, i - 1)]) IN [k \in 1..n |-> Sum(R, n, LAMBDA i : RMul(R, a[i + 1], pw[((i * (k - 1)) % n) + 1]))]
    \* linear convolution
    [] f = "lin" -> r = IF R[1] = 2 THEN BVMod(BConv(a, b), R[2]) ELSE BConv(a, b)
    \* cyclic convolution with period Len(v): <<R, u, v, res>>
    [] f = "cyc" -> r = [k \in 1..(n + Len(b) - 1) |-> Sum(R, n, LAMBDA i : RMul(R, a[i + 1], b[((k - 1 - i + n * Len(b)) % Len(b)) + 1]))]
    [] OTHER -> FALSE
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
\* ---- laws over Z/5, length 4: the transforms turn convolutions into pointwise products, 2 has order 4
LInit == out \in {<<p, q>> : p \in [1..4 -> {B(i) : i \in 0..MaxN}], q \in {<<B(1), B(0), B(2), B(4)>>, <<B(3), B(3), B(0), B(1)>>}}
LNext == UNCHANGED out
Wht(R, a) == [k \in 1..4 |-> Sum(R, 4, LAMBDA i : IF Ones(And(i, k - 1)) % 2 = 1 THEN RNeg(R, a[i + 1]) ELSE a[i + 1])]
Zeta(R, a) == [k \in 1..4 |-> Sum(R, 4, LAMBDA i : IF Sub(i, k - 1) THEN a[i + 1] ELSE RZ(R))]
Dft(R, a) == [k \in 1..4 |-> Sum(R, 4, LAMBDA i : RMul(R, a[i + 1], RPow(R, B(2), i * (k - 1))))]
Pw(R, a, b) == [k \in 1..4 |-> RMul(R, a[k], b[k])]
Laws == LET R == <<2, B(5)>> p == out[1] q == out[2] IN
  /\ Wht(R, Group(R, 4, p, q, Xor)) = Pw(R, Wht(R, p), Wht(R, q)) /\ Zeta(R, Group(R, 4, p, q, Or)) = Pw(R, Zeta(R, p), Zeta(R, q))
  /\ Dft(R, Group(R, 4, p, q, LAMBDA i, j : (i + j) % 4)) = Pw(R, Dft(R, p), Dft(R, q))
  /\ Group(R, 4, p, q, And) = Reverse(Group(R, 4, Reverse(p), Reverse(q), Or)) /\ Group(R, 4, p, q, Max2) = Group(R, 4, q, p, Max2)
===============================================================================
