--------------------------------- MODULE Ring ---------------------------------
(* Exact coefficient rings. Descriptor R: <<0>> integers, <<1>> rationals <<numerator, denominator>> in lowest terms,    *)
(* <<2, m>> residues 0..m-1 modulo m. Elements other than rationals are numbers of Big.                                    *)
EXTENDS Pick, Big
IsQ(R) == R[1] = 1
QNorm(n, d) == LET g == BGcd(n, d) s == IF d[1] < 0 THEN BNeg(g) ELSE g IN <<BQuo(n, s), BQuo(d, s)>>
\* is x the canonical form of an element
RCanon(R, x) == IF IsQ(R) THEN BigOK(x[1]) /\ BigOK(x[2]) /\ x[2][1] = 1 /\ BGcd(x[1], x[2]) = B(1) ELSE BigOK(x) /\ (R[1] = 2 => BIn(x, B(0), BSub(R[2], B(1))))
RB(R, b) == IF IsQ(R) THEN <<b, B(1)>> ELSE IF R[1] = 2 THEN BMod(b, R[2]) ELSE b
RI(R, n) == RB(R, B(n))
RZ(R) == RI(R, 0)
R1(R) == RI(R, 1)
RNeg(R, x) == IF IsQ(R) THEN <<BNeg(x[1]), x[2]>> ELSE RB(R, BNeg(x))
RAdd(R, x, y) == IF IsQ(R) THEN QNorm(BAdd(BMul(x[1], y[2]), BMul(y[1], x[2])), BMul(x[2], y[2])) ELSE RB(R, BAdd(x, y))
RSub(R, x, y) == RAdd(R, x, RNeg(R, y))
RMul(R, x, y) == IF IsQ(R) THEN QNorm(BMul(x[1], y[1]), BMul(x[2], y[2])) ELSE RB(R, BMul(x, y))
\* has x an inverse
RUnit(R, x) == IF IsQ(R) THEN x[1][1] # 0 ELSE IF R[1] = 2 THEN BGcd(x, R[2]) = B(1) ELSE x = B(1) \/ x = B(-1)
RLess(R, x, y) == IF IsQ(R) THEN BLt(BMul(x[1], y[2]), BMul(y[1], x[2])) ELSE BLt(x, y)
RECURSIVE RPow(_, _, _)
RPow(R, x, n) == IF n = 0 THEN R1(R) ELSE LET h == RPow(R, x, n \div 2) s == RMul(R, h, h) IN IF n % 2 = 1 THEN RMul(R, s, x) ELSE s
===============================================================================
