------------------------------- MODULE SeriesFn -------------------------------
(* Power series modulo x^N over the rings of Ring.tla: what series.h returns. A call c = <<R, N, args..., result>>; a series is the sequence *)
(* of its N coefficients.                                                                                                                *)
EXTENDS Poly
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
\* ---- definitions
Ext(R, p, N) == [i \in 1..N |-> At(R, p, i - 1)]
SMul(R, N, p, q) == Ext(R, PMulP(R, PCut(p, N), PCut(q, N)), N)
SAdd(R, N, p, q) == Ext(R, PAddP(R, p, q), N)
SNeg(R, N, p) == Ext(R, PNegP(R, p), N)
SOne(R, N) == Ext(R, <<R1(R)>>, N)
SComp(R, N, p, q) == Ext(R, FoldRight(LAMBDA a, acc : SAdd(R, N, <<a>>, SMul(R, N, q, acc)), p, <<>>), N)
SDer(R, N, p) == Ext(R, PDeriv(R, p), N)
RECURSIVE SPow(_, _, _, _)
\* the exponent is a number of Big
SPow(R, N, p, a) == IF a = B(0) THEN SOne(R, N) ELSE LET h == SPow(R, N, p, BShr(a, 1)) s == SMul(R, N, h, h) IN IF BMod(a, B(2)) = B(0) THEN s ELSE SMul(R, N, s, p)
Is(R, N, r, x) == Len(r) = N /\ PCan(R, r) /\ r = Ext(R, x, N)
Ser(R, N, r) == Len(r) = N /\ PCan(R, r)
RECURSIVE RFact(_, _)
RFact(R, n) == IF n = 0 THEN R1(R) ELSE RMul(R, RI(R, n), RFact(R, n - 1))
Call(f, c) == LET R == c[1] N == c[2] n == Len(c) r == c[n] s == c[3] IN
  CASE f = "add" -> Is(R, N, r, SAdd(R, N, s, c[4]))
    [] f = "sub" -> Is(R, N, r, SAdd(R, N, s, PNegP(R, c[4])))
    [] f = "neg" -> Is(R, N, r, PNegP(R, s))
    [] f = "mul" -> Is(R, N, r, SMul(R, N, s, c[4]))
    [] f = "smul" -> Is(R, N, r, PScale(R, s, c[4]))
    [] f = "sdiv" -> Ser(R, N, r) /\ Ext(R, s, N) = PScale(R, r, c[4])
    [] f = "inv" -> Ser(R, N, r) /\ SMul(R, N, s, r) = SOne(R, N)
    [] f = "div" -> Ser(R, N, r) /\ SMul(R, N, c[4], r) = Ext(R, s, N)
    [] f = "deriv" -> Is(R, N, r, PDeriv(R, s))
    [] f = "integ" -> Ser(R, N, r) /\ r[1] = c[4] /\ PDeriv(R, r) = PCut(s, N - 1)
    [] f = "pmul" -> Is(R, N, r, [i \in 1..N |-> RMul(R, s[i], c[4][i])])
    [] f = "pinv" -> Ser(R, N, r) /\ \A i \in 1..N : RMul(R, s[i], r[i]) = R1(R)
    [] f = "pdiv" -> Ser(R, N, r) /\ \A i \in 1..N : RMul(R, c[4][i], r[i]) = s[i]
    \* times x^l; for l < 0 the lowest terms are dropped
    [] f = "shift" -> Is(R, N, r, IF c[4] < 0 THEN [i \in 1..N |-> At(R, s, i - 1 - c[4])] ELSE PShift(R, s, c[4]))
    [] f = "submul" -> Is(R, N, r, [i \in 1..N |-> RMul(R, s[i], RPow(R, c[4], i - 1))])
    [] f = "subpow" -> Is(R, N, r, [i \in 1..N |-> IF (i - 1) % c[4] = 0 THEN s[((i - 1) \div c[4]) + 1] ELSE RZ(R)])
    [] f = "comp" -> Is(R, N, r, SComp(R, N, s, c[4]))
    \* the inverse under composition, for series x * unit (else the zero series)
    [] f = "rever" -> Ser(R, N, r) /\ IF s[1] = RZ(R) /\ N > 1 /\ s[2] # RZ(R) THEN SComp(R, N, s, r) = Ext(R, <<RZ(R), R1(R)>>, N) /\ r[1] = RZ(R) ELSE r = Ext(R, <<>>, N)
    [] f = "exp" -> Ser(R, N, r) /\ r[1] = R1(R) /\ PCut(PDeriv(R, r), N - 1) = PCut(SMul(R, N, SDer(R, N, s), r), N - 1)
    \* <<R, N, s, c0, res>>
    [] f = "ln" -> Ser(R, N, r) /\ r[1] = c[4] /\ PCut(SMul(R, N, SDer(R, N, r), s), N - 1) = PCut(SDer(R, N, s), N - 1)
    [] f = "pow" -> Is(R, N, r, SPow(R, N, s, c[4]))
    [] f = "sqrt" -> Ser(R, N, r) /\ SMul(R, N, r, r) = Ext(R, s, N) /\ r[1] = c[4]
    \* exponential of a x; to and from exponential generating functions
    [] f = "expa" -> Ser(R, N, r) /\ \A i \in 1..N : RMul(R, r[i], RFact(R, i - 1)) = RPow(R, s, i - 1)
    [] f = "egf" -> Ser(R, N, r) /\ \A i \in 1..N : RMul(R, r[i], RFact(R, i - 1)) = s[i]
    [] f = "ogf" -> Ser(R, N, r) /\ \A i \in 1..N : r[i] = RMul(R, s[i], RFact(R, i - 1))
    \* <<R, N, s, v, identity, zero, v as a series, s after resize to N, the function i -> (i+1) v>>
    [] f = "make" -> Is(R, N, c[5], <<R1(R)>>) /\ Is(R, N, c[6], <<>>) /\ Is(R, N, c[7], <<c[4]>>) /\ Is(R, N, c[8], s) /\ Is(R, N, c[9], [i \in 1..N |-> RMul(R, RI(R, i), c[4])])
    [] f = "cmp" -> LET k == PCmpP(R, s, c[4]) IN c[5] = B01(k = 0) /\ c[6] = B01(k < 0) /\ c[7] = B01(k <= 0)
    [] OTHER -> FALSE
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
\* ---- laws over Z/5 modulo x^MaxN: units are invertible, exp and ln exist uniquely by their equations, composition is associative
LInit == out \in {<<p, q>> : p \in [1..MaxN -> {B(0), B(1), B(3)}], q \in [1..MaxN -> {B(0), B(1), B(4)}]}
LNext == UNCHANGED out
Laws == LET R == <<2, B(5)>> N == MaxN p == out[1] q == out[2] o == SOne(R, N) IN
  /\ SMul(R, N, p, q) = SMul(R, N, q, p) /\ SMul(R, N, p, SAdd(R, N, q, o)) = SAdd(R, N, SMul(R, N, p, q), p)
  /\ PCut(SDer(R, N, SMul(R, N, p, q)), N - 1) = PCut(SAdd(R, N, SMul(R, N, SDer(R, N, p), q), SMul(R, N, p, SDer(R, N, q))), N - 1)
  /\ q[1] = B(0) => /\ SMul(R, N, SComp(R, N, p, q), SComp(R, N, p, q)) = SComp(R, N, SMul(R, N, p, p), q)
                    /\ PCut(SDer(R, N, SComp(R, N, p, q)), N - 1) = PCut(SMul(R, N, SComp(R, N, SDer(R, N, p), q), SDer(R, N, q)), N - 1)
  /\ SPow(R, N, p, B(5)) = SMul(R, N, p, SMul(R, N, SPow(R, N, p, B(2)), SPow(R, N, p, B(2))))
===============================================================================
