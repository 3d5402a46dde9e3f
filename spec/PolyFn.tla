-------------------------------- MODULE PolyFn --------------------------------
(* What polynom.h, polynom_mod.h, polynoms.h return. Coefficients past the degree are zero; results are compared as polynomials. *)
EXTENDS Poly
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
Call(f, c) == LET R == c[1] n == Len(c) r == c[n] IN
  CASE f = "add" -> PCan(R, r) /\ PEq(R, r, PAddP(R, c[2], c[3]))
    [] f = "sub" -> PCan(R, r) /\ PEq(R, r, PAddP(R, c[2], PNegP(R, c[3])))
    [] f = "neg" -> PCan(R, r) /\ PEq(R, r, PNegP(R, c[2]))
    [] f = "mul" -> PCan(R, r) /\ PEq(R, r, PMulP(R, c[2], c[3]))
    \* <<R, p, q, lr, res>>: exactly the coefficients 0..lr of the product
    [] f = "mullr" -> PCan(R, r) /\ Len(r) = c[4] + 1 /\ PEq(R, r, PCut(PMulP(R, c[2], c[3]), c[4] + 1))
    [] f = "smul" -> PCan(R, r) /\ PEq(R, r, PScale(R, c[2], c[3]))
    [] f = "sdiv" -> PCan(R, r) /\ PEq(R, c[2], PScale(R, r, c[3]))
    \* <<R, p, d, q, r>>
    [] f = "divmod" -> PCan(R, r) /\ PCan(R, c[4]) /\ IsDivMod(R, c[2], c[3], c[4], r)
    \* <<R, p, L, res>>
    [] f = "inv" -> PCan(R, r) /\ PEq(R, PCut(PMulP(R, c[2], r), c[3]), <<R1(R)>>) /\ Len(PTrim(R, r)) <= c[3]
    [] f = "rev" -> PCan(R, r) /\ PEq(R, r, PRev(R, c[2]))
    [] f = "deriv" -> PCan(R, r) /\ PEq(R, r, PDeriv(R, c[2]))
    \* <<R, p, c0, res>>
    [] f = "integ" -> PCan(R, r) /\ PEq(R, PDeriv(R, r), c[2]) /\ At(R, r, 0) = c[3] /\ Len(PTrim(R, r)) <= Len(PTrim(R, c[2])) + 1
    [] f = "eval" -> r = PEval(R, c[2], c[3])
    [] f = "comp" -> PCan(R, r) /\ PEq(R, r, PComp(R, c[2], c[3]))
    \* <<R, p, q, p = q, p < q, p <= q>>
    [] f = "cmp" -> LET k == PCmpP(R, c[2], c[3]) IN c[4] = B01(k = 0) /\ c[5] = B01(k < 0) /\ c[6] = B01(k <= 0)
    \* <<R, p, degree, lowest, leading coefficient, is a monic power of x>>
    [] f = "deg" -> LET t == PTrim(R, c[2]) IN /\ c[3] = PDeg(R, t) /\ c[4] = PLow(R, t) /\ c[5] = At(R, t, PDeg(R, t))
                                               /\ c[6] = B01(t # <<>> /\ t[Len(t)] = R1(R) /\ PLow(R, t) = PDeg(R, t))
    \* <<R, p, i, v, coefficients after p[i] = v, at(i), at(-1), at(10^6), id>>: the others are unchanged
    [] f = "set" -> /\ Len(c[5]) >= c[3] + 1 /\ \A i \in 0..(Len(c[5]) + Len(c[2])) : At(R, c[5], i) = IF i = c[3] THEN c[4] ELSE At(R, c[2], i)
                    /\ c[6] = At(R, c[2], c[3]) /\ c[7] = RZ(R) /\ c[8] = RZ(R) /\ c[9] = R1(R)
    \* <<R, p, m, after resize(m), after shrink_to_fit, after reserve(m)>>
    [] f = "size" -> /\ Len(c[4]) = c[3] /\ PEq(R, c[4], PCut(c[2], c[3])) /\ PEq(R, c[5], c[2]) /\ Len(c[5]) = PDeg(R, c[2]) + 1
                     /\ PEq(R, c[6], c[2]) /\ Len(c[6]) = IF Len(c[2]) > c[3] THEN Len(c[2]) ELSE c[3]
    \* <<R, p, s>>: s(n) = p(1) + ... + p(n)
    [] f = "sum" -> PCan(R, r) /\ Len(PTrim(R, r)) <= Len(PTrim(R, c[2])) + 1 /\ At(R, r, 0) = RZ(R)
                    /\ PEq(R, PAddP(R, PComp(R, r, <<RI(R, 1), RI(R, 1)>>), PNegP(R, r)), PComp(R, c[2], <<RI(R, 1), RI(R, 1)>>))
    \* residues modulo a monic irreducible polynomial m: <<R, m, a, b, a + b, a - b, a * b, a / b, -a, powers a^0..a^k>>
    [] f = "gf" -> LET m == c[2] a == c[3] b == c[4] IsR(x, y) == PCan(R, x) /\ Len(PTrim(R, x)) < Len(PTrim(R, m)) /\ PEq(R, PModBy(R, y, m), x) IN
                   /\ IsR(c[5], PAddP(R, a, b)) /\ IsR(c[6], PAddP(R, a, PNegP(R, b))) /\ IsR(c[7], PMulP(R, a, b)) /\ IsR(c[9], PNegP(R, a))
                   /\ PTrim(R, b) # <<>> => IsR(c[8], c[8]) /\ PEq(R, PModBy(R, PMulP(R, c[8], b), m), a)
                   /\ \A i \in 1..Len(c[10]) : PEq(R, c[10][i], IF i = 1 THEN <<R1(R)>> ELSE PModBy(R, PMulP(R, c[10][i - 1], a), m))
    [] OTHER -> FALSE
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
\* ---- laws: over Z/m, all small polynomials
Seqs(S, k) == UNION {[1..j -> S] : j \in 0..k}
LInit == out \in {<<<<2, B(m)>>, p, q>> : m \in {2, 3, 4}, p \in Seqs({B(0), B(1), B(2)}, MaxN), q \in Seqs({B(0), B(1), B(2)}, MaxN)}
LNext == UNCHANGED out
Laws == LET R == out[1] p == BVMod(out[2], R[2]) q == BVMod(out[3], R[2]) x == RI(R, 3) pq == PMulP(R, p, q) IN
  /\ PEval(R, pq, x) = RMul(R, PEval(R, p, x), PEval(R, q, x)) /\ PEval(R, PAddP(R, p, q), x) = RAdd(R, PEval(R, p, x), PEval(R, q, x))
  /\ PEq(R, pq, PMulP(R, q, p)) /\ PEq(R, PDeriv(R, pq), PAddP(R, PMulP(R, PDeriv(R, p), q), PMulP(R, p, PDeriv(R, q))))
  /\ PEval(R, PComp(R, p, q), x) = PEval(R, p, PEval(R, q, x))
  /\ (q # <<>> /\ q[Len(q)] = R1(R)) => /\ IsDivMod(R, PAddP(R, pq, PModBy(R, p, q)), q, PAddP(R, p, <<>>), PModBy(R, p, q))
                                    /\ PEq(R, PModBy(R, PAddP(R, pq, p), q), PModBy(R, p, q)) /\ Len(PTrim(R, PModBy(R, p, q))) < Len(q)
  /\ (PCmpP(R, p, q) = 0) = PEq(R, p, q) /\ PCmpP(R, p, q) = 0 - PCmpP(R, q, p)
===============================================================================
