-------------------------------- MODULE Numbers --------------------------------
(* Algebraic number types. Fractions are <<num, den>>; an element of the quadratic extension X = <<R, D>> is <<a, b>>, that is  *)
(* a + b sqrt(D) over the ring R of Ring.tla; a point of its projective line is <<>> (infinity) or <<z>>; a Moebius             *)
(* transformation is <<a, b, c, d, s>>; nimbers and GF(2) words are numbers of Big.                                            *)
EXTENDS Ring, SequencesExt
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
Q == <<1>>
\* ---- quadratic extensions
XCan(X, x) == RCanon(X[1], x[1]) /\ RCanon(X[1], x[2])
X0(X) == <<RZ(X[1]), RZ(X[1])>>
X1(X) == <<R1(X[1]), RZ(X[1])>>
XI(X, b) == <<RB(X[1], b), RZ(X[1])>>
XAdd(X, x, y) == <<RAdd(X[1], x[1], y[1]), RAdd(X[1], x[2], y[2])>>
XNeg(X, x) == <<RNeg(X[1], x[1]), RNeg(X[1], x[2])>>
XSub(X, x, y) == XAdd(X, x, XNeg(X, y))
XMul(X, x, y) == LET R == X[1] IN <<RAdd(R, RMul(R, x[1], y[1]), RMul(R, RMul(R, x[2], y[2]), X[2])), RAdd(R, RMul(R, x[1], y[2]), RMul(R, x[2], y[1]))>>
XConj(X, x) == <<x[1], RNeg(X[1], x[2])>>
XNorm(X, x) == XMul(X, x, XConj(X, x))[1]
XScale(X, x, t) == <<RMul(X[1], x[1], t), RMul(X[1], x[2], t)>>
XLess(X, x, y) == RLess(X[1], x[1], y[1]) \/ (x[1] = y[1] /\ RLess(X[1], x[2], y[2]))
RECURSIVE XPow(_, _, _)
XPow(X, x, n) == IF n = B(0) THEN X1(X) ELSE LET h == XPow(X, x, BShr(n, 1)) s == TLCEval(XMul(X, h, h)) IN IF BMod(n, B(2)) = B(0) THEN s ELSE TLCEval(XMul(X, s, x))
\* ---- the projective line over X
Inf == <<>>
JAdd(X, x, y) == IF x = Inf \/ y = Inf THEN Inf ELSE <<XAdd(X, x[1], y[1])>>
JSub(X, x, y) == IF x = Inf \/ y = Inf THEN Inf ELSE <<XSub(X, x[1], y[1])>>
JNeg(X, x) == IF x = Inf THEN Inf ELSE <<XNeg(X, x[1])>>
JMul(X, x, y) == IF x = Inf \/ y = Inf THEN Inf ELSE <<XMul(X, x[1], y[1])>>
JLess(X, x, y) == IF x = Inf THEN FALSE ELSE y = Inf \/ XLess(X, x[1], y[1])
\* r is x / y (not inf / inf, not 0 / 0)
IsPDiv(X, x, y, r) == IF x = Inf THEN r = Inf ELSE IF y = Inf THEN r = <<X0(X)>> ELSE IF y[1] = X0(X) THEN r = Inf ELSE r # Inf /\ XMul(X, r[1], y[1]) = x[1]
\* ---- Moebius transformations
MAd(X, s, z) == IF s < 0 THEN XConj(X, z) ELSE z
IsM(X, m, z, r) == LET w == IF z = Inf THEN Inf ELSE <<MAd(X, m[5], z[1])>>
                       n == IF w = Inf THEN m[1] ELSE XAdd(X, XMul(X, m[1], w[1]), m[2])
                       d == IF w = Inf THEN m[3] ELSE XAdd(X, XMul(X, m[3], w[1]), m[4])
                   IN IsPDiv(X, <<n>>, <<d>>, r)
MDet(X, m) == XSub(X, XMul(X, m[1], m[4]), XMul(X, m[2], m[3]))
\* the coefficients up to a common factor
MSame(X, m, k) == m[5] = k[5] /\ \A i \in 1..4 : \A j \in 1..4 : XMul(X, m[i], k[j]) = XMul(X, m[j], k[i])
MCmp(X, m, k) == LET A(i) == MAd(X, m[5], k[i]) IN <<XAdd(X, XMul(X, m[1], A(1)), XMul(X, m[2], A(3))), XAdd(X, XMul(X, m[1], A(2)), XMul(X, m[2], A(4))),
                      XAdd(X, XMul(X, m[3], A(1)), XMul(X, m[4], A(3))), XAdd(X, XMul(X, m[3], A(2)), XMul(X, m[4], A(4))), m[5] * k[5]>>
MId(X) == <<X1(X), X0(X), X0(X), X1(X), 1>>
RECURSIVE MLess(_, _, _, _)
MLess(X, m, k, i) == IF i = 5 THEN m[5] < k[5] ELSE IF m[i] = k[i] THEN MLess(X, m, k, i + 1) ELSE XLess(X, m[i], k[i])
\* ---- nimbers: the products below n by the mex rule, then by Fermat powers
XorI(a, b) == BToInt(BXor(B(a), B(b)))
MexTab(n) == FoldLeft(LAMBDA t, i : LET a == i \div n b == i % n
                 used == {XorI(t[a1 * n + b + 1], XorI(t[a * n + b1 + 1], t[a1 * n + b1 + 1])) : a1 \in 0..(a - 1), b1 \in 0..(b - 1)}
               IN TLCEval(Append(t, CHOOSE v \in 0..(n * n) : v \notin used /\ \A u \in 0..(v - 1) : u \in used)), <<>>, [i \in 1..(n * n) |-> i - 1])
Nim16 == LET T == TLCEval(MexTab(16)) IN TLCEval([i \in 1..256 |-> B(T[i])])
RECURSIVE NimMul(_, _, _)
\* the product of two nimbers below 2^2^k
NimMul(k, x, y) == IF x = B(0) \/ y = B(0) THEN B(0) ELSE IF x = B(1) THEN y ELSE IF y = B(1) THEN x ELSE
  IF k <= 2 THEN Nim16[BToInt(x) * 16 + BToInt(y) + 1] ELSE LET n == 2^(k - 1) F == BPow2(n)
    xh == BShr(x, n) xl == BMod(x, F) yh == BShr(y, n) yl == BMod(y, F)
    hh == TLCEval(NimMul(k - 1, xh, yh)) ll == TLCEval(NimMul(k - 1, xl, yl)) ss == TLCEval(NimMul(k - 1, BXor(xh, xl), BXor(yh, yl)))
    IN BXor(BShl(BXor(ss, ll), n), BXor(ll, NimMul(k - 1, hh, BPow2(n - 1))))
NimIn(k, x) == BigOK(x) /\ BIn(x, B(0), BSub(BPow2(2^k), B(1)))
\* ---- calls
Ones(w) == BSub(BPow2(w), B(1))
Call(f, c) == LET n == Len(c) r == c[n] X == <<c[1], c[2]>> IN
  CASE f = "fnew" -> r = QNorm(c[1], c[2])
    [] f = "fadd" -> r = RAdd(Q, c[1], c[2])
    [] f = "fsub" -> r = RSub(Q, c[1], c[2])
    [] f = "fmul" -> r = RMul(Q, c[1], c[2])
    [] f = "fdiv" -> r = QNorm(BMul(c[1][1], c[2][2]), BMul(c[1][2], c[2][1]))
    [] f = "fone" -> r = <<RNeg(Q, c[1]), RZ(Q), R1(Q)>>
    [] f = "finv" -> r = QNorm(c[1][2], c[1][1])
    [] f = "fmod" -> r = RZ(Q)
    [] f = "fcmp" -> r = <<B01(c[1] = c[2]), B01(RLess(Q, c[1], c[2])), B01(~RLess(Q, c[2], c[1]))>>
    [] f = "xadd" -> r = XAdd(X, c[3], c[4])
    [] f = "xsub" -> r = XSub(X, c[3], c[4])
    [] f = "xmul" -> r = XMul(X, c[3], c[4])
    [] f = "xdiv" -> XCan(X, r) /\ XMul(X, r, c[4]) = c[3]
    \* remainder and quotient
    [] f = "xmod" -> XAdd(X, XMul(X, c[5], c[4]), r) = c[3] /\ (c[1] # <<0>> => r = X0(X))
    [] f = "xscale" -> r = XScale(X, c[3], c[4])
    [] f = "xquot" -> XCan(X, r) /\ XScale(X, r, c[4]) = c[3]
    [] f = "xone" -> r = <<XNeg(X, c[3]), XConj(X, c[3]), XNorm(X, c[3]), X0(X), X1(X), XI(X, c[4]), X[2]>>
    [] f = "xpow" -> r = XPow(X, c[3], c[4])
    [] f = "xcmp" -> r = <<B01(c[3] = c[4]), B01(XLess(X, c[3], c[4])), B01(c[3] = c[4] \/ XLess(X, c[3], c[4]))>>
    [] f = "padd" -> r = JAdd(X, c[3], c[4])
    [] f = "psub" -> r = JSub(X, c[3], c[4])
    [] f = "pmul" -> r = JMul(X, c[3], c[4])
    [] f = "pdiv" -> IsPDiv(X, c[3], c[4], r)
    [] f = "pone" -> r = <<JNeg(X, c[3]), <<X0(X)>>, <<X1(X)>>, B01(c[3] = Inf), IF c[3] = Inf THEN Inf ELSE <<XConj(X, c[3][1])>>>>
    \* a finite point and infinity, or two finite points, or a point and itself
    [] f = "pcmp" -> r = <<B01(c[3] = c[4]), B01(JLess(X, c[3], c[4])), B01(c[3] = c[4] \/ JLess(X, c[3], c[4]))>>
    [] f = "pinv" -> IsPDiv(X, <<X1(X)>>, c[3], r)
    [] f = "meval" -> IsM(X, c[3], c[4], r)
    [] f = "mmul" -> MSame(X, r, MCmp(X, c[3], c[4])) /\ MDet(X, r) # X0(X)
    [] f = "mdiv" -> MSame(X, MCmp(X, r, c[4]), c[3]) /\ MDet(X, r) # X0(X)
    [] f = "minv" -> MSame(X, MCmp(X, c[3], r), MId(X)) /\ MSame(X, MCmp(X, r, c[3]), MId(X)) /\ MDet(X, r) # X0(X)
    [] f = "mnorm" -> MSame(X, r, c[3]) /\ r[IF c[3][1] # X0(X) THEN 1 ELSE 2] = X1(X)
    [] f = "mpow" -> MSame(X, r, LET k == c[4] IN IF k = 0 THEN MId(X) ELSE FoldLeft(LAMBDA m, i : TLCEval(MCmp(X, m, c[3])), c[3], [i \in 1..(k - 1) |-> i])) /\ MDet(X, r) # X0(X)
    \* <<.., z, point, values at the point of: scaling by z, translation by z, rotation by z, reflections in both axes, inversion in the unit circle, identity>>
    [] f = "mmake" -> LET z == c[3] p == c[4] cj == XConj(X, p) IN Len(r) = 8 /\ r[8] = <<1, 1, 1, 0 - 1, 0 - 1, 0 - 1, 1, 1, 1>> /\ r[1] = XMul(X, z, p) /\ r[2] = XAdd(X, p, z) /\ r[3] = XMul(X, z, p) /\ r[4] = XNeg(X, cj) /\ r[5] = cj /\ XMul(X, r[6], cj) = X1(X) /\ r[7] = p
    [] f = "mcmp" -> r = <<B01(c[3] = c[4]), B01(MLess(X, c[3], c[4], 1)), B01(c[3] = c[4] \/ MLess(X, c[3], c[4], 1))>>
    [] f = "nadd" -> r = BXor(c[2], c[3])
    [] f = "nmul" -> r = NimMul(c[1], c[2], c[3])
    [] f = "ndiv" -> NimIn(c[1], r) /\ NimMul(c[1], r, c[3]) = c[2]
    [] f = "nsqrt" -> NimIn(c[1], r) /\ NimMul(c[1], r, r) = c[2]
    \* <<.., inverse, negation, zero, one>>
    [] f = "none" -> NimIn(c[1], r[1]) /\ (c[2] = B(0) \/ NimMul(c[1], c[2], r[1]) = B(1)) /\ r[2] = c[2] /\ r[3] = B(0) /\ r[4] = B(1)
    \* multiplication by the largest power of two below 2^2^j
    [] f = "nlift" -> r = NimMul(c[1], c[2], BPow2(2^(c[3]) - 1))
    [] f = "nlevel" -> r = CHOOSE k \in 0..7 : BLt(c[2], BPow2(2^k)) /\ \A j \in 0..(k - 1) : ~BLt(c[2], BPow2(2^j))
    [] f = "ncmp" -> r = <<B01(c[2] = c[3]), B01(BLt(c[2], c[3])), B01(BLe(c[2], c[3]))>>
    \* <<width, x, y, <<x+y, x-y, -x, x*y, x/y, zero, one>>>>: the quotient is fixed where the divisor is one
    [] f = "g2cmp" -> r = <<B01(c[1] = c[2]), B01(BLt(c[1], c[2])), B01(BLe(c[1], c[2]))>>
    [] f = "g2" -> LET x == c[2] y == c[3] IN /\ r[1] = BXor(x, y) /\ r[2] = BXor(x, y) /\ r[3] = x /\ r[4] = BAnd(x, y) /\ BAnd(r[5], y) = BAnd(x, y) /\ BIn(r[5], B(0), Ones(c[1])) /\ r[6] = B(0) /\ r[7] = Ones(c[1])
    [] OTHER -> FALSE
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
\* ---- laws: Moebius composition is composition; nim products form a field; the tower step extends the mex table
LInit == out \in {<<"m", p, s, t>> : p \in {2, 3}, s \in {1, -1}, t \in {1, -1}} \cup {<<"n", k>> : k \in 0..MaxN}
LNext == UNCHANGED out
XsOf(p) == LET R == <<2, B(p)>> IN {<<R, RI(R, -1)>>}
Fp(p) == {B(i) : i \in 0..(p - 1)}
MLaw(p, s, t) == \A X \in XsOf(p) : LET E == IF p = 3 THEN {X0(X), X1(X), <<B(1), B(1)>>} ELSE {<<B(a), B(0)>> : a \in 0..1}
       A == {<<B(a), B(b)>> : a \in 0..(p - 1), b \in IF p = 3 THEN 0..2 ELSE {0}}
       Pts == {Inf} \cup {<<z>> : z \in A}
       M(u) == {m \in {<<a, b, c, d, u>> : a \in E, b \in E, c \in E, d \in E} : MDet(X, m) # X0(X)}
       Ev(m, z) == CHOOSE r \in Pts : IsM(X, m, z, r)
       MA == {m \in M(s) : p = 2 \/ m[1] = m[4]} MB == {m \in M(t) : p = 2 \/ m[2] = X1(X)}
       FA == TLCEval([m \in MA |-> TLCEval([z \in Pts |-> Ev(m, z)])]) FB == TLCEval([m \in MB |-> TLCEval([z \in Pts |-> Ev(m, z)])])
   IN \A m \in MA : \A k \in MB : LET q == TLCEval(MCmp(X, m, k)) IN \A z \in Pts : IsM(X, q, z, FA[m][FB[k][z]])
NLaw(k) == LET N == 2^(2^k) S == 0..((IF N > 16 THEN 16 ELSE N) - 1) V(a) == B((a * 37 + 5 * (a \div 3)) % N) T == IF k <= 2 THEN <<>> ELSE TLCEval(MexTab(24)) IN
   /\ \A a \in S : \A b \in S : LET p == NimMul(k, V(a), V(b)) IN p = NimMul(k, V(b), V(a)) /\ (p = B(0)) = (V(a) = B(0) \/ V(b) = B(0)) /\ NimIn(k, p)
                   /\ \A c \in S : NimMul(k, p, V(c)) = NimMul(k, V(a), NimMul(k, V(b), V(c))) /\ NimMul(k, V(a), BXor(V(b), V(c))) = BXor(p, NimMul(k, V(a), V(c)))
   /\ k = 3 => \A a \in 0..23 : \A b \in 0..23 : NimMul(k, B(a), B(b)) = B(T[a * 24 + b + 1])
Laws == IF out[1] = "m" THEN MLaw(out[2], out[3], out[4]) ELSE NLaw(out[2])
===============================================================================
