--------------------------------- MODULE Poly ---------------------------------
(* Polynomials over the rings of Ring.tla: sequences of coefficients, p[i] belonging to x^(i-1). A call c = <<R, args..., results...>>. *)
EXTENDS Ring, SequencesExt
\* ---- definitions
At(R, p, i) == IF i >= 0 /\ i < Len(p) THEN p[i + 1] ELSE RZ(R)
RECURSIVE PEvalAt(_, _, _, _), PSumTo(_, _, _)
PTrim(R, p) == LET z == TLCEval(RZ(R)) IN IF p = <<>> \/ (p # <<>> /\ p[Len(p)] # z) THEN p ELSE SubSeq(p, 1, FoldLeft(LAMBDA acc, i : IF p[i] # z THEN i ELSE acc, 0, [i \in 1..Len(p) |-> i]))
PEq(R, p, q) == PTrim(R, p) = PTrim(R, q)
PCan(R, p) == \A i \in 1..Len(p) : RCanon(R, p[i])
PAddP(R, p, q) == [i \in 1..(IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)) |-> RAdd(R, At(R, p, i - 1), At(R, q, i - 1))]
PNegP(R, p) == [i \in 1..Len(p) |-> RNeg(R, p[i])]
PScale(R, p, s) == [i \in 1..Len(p) |-> RMul(R, p[i], s)]
PShift(R, p, k) == [i \in 1..k |-> RZ(R)] \o p
PCut(p, n) == SubSeq(p, 1, IF Len(p) < n THEN Len(p) ELSE n)
PMulP(R, p, q) == IF p = <<>> \/ q = <<>> THEN <<>>
    ELSE IF R[1] = 0 THEN BConv(p, q) ELSE IF R[1] = 2 THEN BVMod(BConv(p, q), R[2])
    ELSE [k \in 1..(Len(p) + Len(q) - 1) |-> LET RECURSIVE S(_) S(i) == IF i > Len(p) \/ i > k THEN RZ(R) ELSE IF k - i + 1 > Len(q) THEN S(i + 1) ELSE RAdd(R, RMul(R, p[i], q[k - i + 1]), S(i + 1)) IN S(1)]
PEvalAt(R, p, x, i) == IF i > Len(p) THEN RZ(R) ELSE RAdd(R, p[i], RMul(R, x, PEvalAt(R, p, x, i + 1)))
PEval(R, p, x) == PEvalAt(R, p, x, 1)
PComp(R, p, q) == FoldRight(LAMBDA a, acc : PAddP(R, <<a>>, PMulP(R, q, acc)), p, <<>>)
PDeriv(R, p) == [i \in 1..(IF p = <<>> THEN 0 ELSE Len(p) - 1) |-> RMul(R, p[i + 1], RI(R, i))]
PDeg(R, p) == LET t == PTrim(R, p) IN IF t = <<>> THEN 0 ELSE Len(t) - 1
PIsZero(R, p) == PTrim(R, p) = <<>>
PLow(R, p) == LET t == PTrim(R, p) IN IF t = <<>> THEN 0 ELSE CHOOSE i \in 0..(Len(t) - 1) : t[i + 1] # RZ(R) /\ \A j \in 1..i : t[j] = RZ(R)
\* from the highest coefficient down
PCmpP(R, p, q) == LET m == IF Len(p) > Len(q) THEN Len(p) ELSE Len(q) D == {i \in 0..(m - 1) : At(R, p, i) # At(R, q, i)}
                  IN IF D = {} THEN 0 ELSE LET i == CHOOSE j \in D : \A k \in D : k <= j IN IF RLess(R, At(R, p, i), At(R, q, i)) THEN -1 ELSE 1
\* q and r are the quotient and the remainder of p by d
IsDivMod(R, p, d, q, r) == /\ PEq(R, p, PAddP(R, PMulP(R, q, d), r)) /\ LET t == PTrim(R, r) IN Len(t) < Len(PTrim(R, d))
\* the remainder by a monic polynomial
RECURSIVE PModBy(_, _, _)
PModBy(R, p, d) == LET a == PTrim(R, p) b == PTrim(R, d) k == Len(a) - Len(b) IN IF k < 0 THEN a ELSE PModBy(R, PAddP(R, a, PShift(R, PScale(R, b, RNeg(R, a[Len(a)])), k)), d)
PSumTo(R, p, n) == IF n = 0 THEN RZ(R) ELSE RAdd(R, PSumTo(R, p, n - 1), PEval(R, p, RI(R, n)))
PRev(R, p) == Reverse(PTrim(R, p))
===============================================================================
