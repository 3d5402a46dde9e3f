--------------------------------- MODULE Big ---------------------------------
(* Integers beyond TLC's 32 bits: <<sign, limbs>>, sign in {-1,0,1}, limbs base 10^4 from the least significant one,    *)
(* no leading zero limb. P* are the definitions; B* are the names to use. TLC evaluates B* by spec/tlc2/module/Big.java; *)
(* BigLaws (checked by TLC in every check that uses this module) compares each B* with its P*.                          *)
EXTENDS Integers, Sequences
Base == 10000
\* ---- naturals as limb sequences
RECURSIVE NTrim(_), NAddC(_, _, _, _), NSubC(_, _, _, _), NMul1(_, _, _), NMulAcc(_, _, _), NCmpAt(_, _, _), NOfInt(_)
NTrim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
NOfInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o NOfInt(n \div Base)
Lm(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
NAddC(a, b, i, c) == IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>) ELSE LET s == Lm(a, i) + Lm(b, i) + c IN <<s % Base>> \o NAddC(a, b, i + 1, s \div Base)
NAdd(a, b) == NAddC(a, b, 1, 0)
NSubC(a, b, i, c) == IF i > Len(a) THEN <<>> ELSE LET s == a[i] - Lm(b, i) - c IN <<s % Base>> \o NSubC(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
NSub(a, b) == NTrim(NSubC(a, b, 1, 0))
NCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpAt(a, b, Len(a))
NMul1(a, d, c) == IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>) ELSE LET p == a[1] * d + c IN <<p % Base>> \o NMul1(Tail(a), d, p \div Base)
NMulD(a, d) == IF d = 0 THEN <<>> ELSE NMul1(a, d, 0)
NMulAcc(a, b, i) == IF i > Len(b) THEN <<>> ELSE LET r == NMulAcc(a, b, i + 1) IN NAdd(NMulD(a, b[i]), IF r = <<>> THEN r ELSE <<0>> \o r)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE NTrim(NMulAcc(a, b, 1))
\* largest digit d with d * b <= r
RECURSIVE NDig(_, _, _, _), NDivAt(_, _, _, _, _)
NDig(r, b, lo, hi) == IF hi - lo = 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF NCmp(NMulD(b, m), r) <= 0 THEN NDig(r, b, m, hi) ELSE NDig(r, b, lo, m)
NDivAt(a, b, i, q, r) == IF i = 0 THEN <<NTrim(q), r>> ELSE LET r1 == NTrim(<<a[i]>> \o r) d == NDig(r1, b, 0, Base) IN NDivAt(a, b, i - 1, <<d>> \o q, NSub(r1, NMulD(b, d)))
NDivMod(a, b) == NDivAt(a, b, Len(a), <<>>, <<>>)
\* ---- integers
PInt(n) == IF n = 0 THEN <<0, <<>>>> ELSE IF n > 0 THEN <<1, NOfInt(n)>> ELSE IF n = -2147483647 - 1 THEN <<-1, <<3648, 4748, 21>>>> ELSE <<-1, NOfInt(0 - n)>>
PNeg(a) == <<0 - a[1], a[2]>>
PMk(s, m) == IF m = <<>> THEN <<0, <<>>>> ELSE <<s, m>>
PAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a ELSE IF a[1] = b[1] THEN <<a[1], NAdd(a[2], b[2])>>
              ELSE LET c == NCmp(a[2], b[2]) IN IF c = 0 THEN <<0, <<>>>> ELSE IF c > 0 THEN <<a[1], NSub(a[2], b[2])>> ELSE <<b[1], NSub(b[2], a[2])>>
PSub(a, b) == PAdd(a, PNeg(b))
PMul(a, b) == PMk(a[1] * b[1], NMul(a[2], b[2]))
PCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE a[1] * NCmp(a[2], b[2])
\* quotient and remainder: rounding to zero (Quo, Rem), to minus infinity (Div, Mod; only for b > 0)
PQuo(a, b) == PMk(a[1] * b[1], NDivMod(a[2], b[2])[1])
PRem(a, b) == PMk(a[1], NDivMod(a[2], b[2])[2])
PMod(a, b) == LET r == PRem(a, b) IN IF r[1] < 0 THEN PAdd(r, b) ELSE r
PDiv(a, b) == PQuo(PSub(a, PMod(a, b)), b)
RECURSIVE PGcd(_, _), PPow(_, _), PPowMod(_, _, _)
PGcd(a, b) == IF b[1] = 0 THEN <<IF a[1] = 0 THEN 0 ELSE 1, a[2]>> ELSE PGcd(b, PRem(a, b))
PPow(a, n) == IF n = 0 THEN PInt(1) ELSE PMul(a, PPow(a, n - 1))
PPowMod(a, n, m) == IF n[1] = 0 THEN PMod(PInt(1), m) ELSE LET q == NDivMod(n[2], <<2>>) h == PPowMod(a, PMk(1, q[1]), m) s == PMod(PMul(h, h), m) IN IF q[2] = <<>> THEN s ELSE PMod(PMul(s, a), m)
PToInt(a) == LET RECURSIVE V(_) V(i) == IF i > Len(a[2]) THEN 0 ELSE a[2][i] + Base * V(i + 1) IN a[1] * V(1)
\* bits of a natural, least significant first, as 0/1; bitwise operations on naturals
RECURSIVE PBits(_), PVal(_)
PBits(a) == IF a[1] = 0 THEN <<>> ELSE LET q == NDivMod(a[2], <<2>>) IN <<Lm(q[2], 1)>> \o PBits(PMk(1, q[1]))
PVal(b) == IF b = <<>> THEN PInt(0) ELSE PAdd(PInt(b[1]), PMul(PInt(2), PVal(Tail(b))))
Bt(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
PBitw(F(_, _), a, b) == LET x == PBits(a) y == PBits(b) n == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y) IN PVal([i \in 1..n |-> F(Bt(x, i), Bt(y, i))])
AndF(x, y) == x * y
OrF(x, y) == x + y - x * y
XorF(x, y) == (x + y) % 2
PAnd(a, b) == PBitw(AndF, a, b)
POr(a, b) == PBitw(OrF, a, b)
PXor(a, b) == PBitw(XorF, a, b)
PPow2(n) == PPow(PInt(2), n)
PShl(a, n) == PMul(a, PPow2(n))
PShr(a, n) == PDiv(a, PPow2(n))
\* the number below 2^n congruent to a (wrap around), and the same with a sign bit
PWrap(a, n) == PMod(a, PPow2(n))
PWrapS(a, n) == LET r == PWrap(a, n) IN IF PCmp(r, PPow2(n - 1)) >= 0 THEN PSub(r, PPow2(n)) ELSE r
\* floor of the k-th root of a natural, by bisection
RECURSIVE PRootIn(_, _, _, _)
PRootIn(a, k, lo, hi) == IF PCmp(PSub(hi, lo), PInt(1)) = 0 THEN lo ELSE LET m == PQuo(PAdd(lo, hi), PInt(2)) IN IF PCmp(PPow(m, k), a) <= 0 THEN PRootIn(a, k, m, hi) ELSE PRootIn(a, k, lo, m)
PRoot(a, k) == PRootIn(a, k, PInt(0), PAdd(a, PInt(1)))
\* sequences of numbers: all remainders, and the convolution
PVMod(v, m) == [i \in 1..Len(v) |-> PMod(v[i], m)]
PConv(v, w) == IF v = <<>> \/ w = <<>> THEN <<>> ELSE [k \in 1..(Len(v) + Len(w) - 1) |->
    LET RECURSIVE S(_) S(i) == IF i > Len(v) \/ i > k THEN PInt(0) ELSE IF k - i + 1 > Len(w) THEN S(i + 1) ELSE PAdd(PMul(v[i], w[k - i + 1]), S(i + 1)) IN S(1)]
\* ---- the names to use
B(n) == PInt(n)
BNeg(a) == PNeg(a)
BAdd(a, b) == PAdd(a, b)
BSub(a, b) == PSub(a, b)
BMul(a, b) == PMul(a, b)
BCmp(a, b) == PCmp(a, b)
BQuo(a, b) == PQuo(a, b)
BRem(a, b) == PRem(a, b)
BMod(a, b) == PMod(a, b)
BDiv(a, b) == PDiv(a, b)
BGcd(a, b) == PGcd(a, b)
BPow(a, n) == PPow(a, n)
BPowMod(a, n, m) == PPowMod(a, n, m)
BToInt(a) == PToInt(a)
BBits(a) == PBits(a)
BVal(b) == PVal(b)
BAnd(a, b) == PAnd(a, b)
BOr(a, b) == POr(a, b)
BXor(a, b) == PXor(a, b)
BPow2(n) == PPow2(n)
BShl(a, n) == PShl(a, n)
BShr(a, n) == PShr(a, n)
BWrap(a, n) == PWrap(a, n)
BWrapS(a, n) == PWrapS(a, n)
BRoot(a, k) == PRoot(a, k)
BVMod(v, m) == PVMod(v, m)
BConv(v, w) == PConv(v, w)
BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0
BAbs(a) == IF a[1] < 0 THEN BNeg(a) ELSE a
\* a well-formed number
BigOK(a) == /\ a[1] \in {-1, 0, 1} /\ (a[1] = 0) = (a[2] = <<>>) /\ \A i \in 1..Len(a[2]) : a[2][i] \in 0..(Base - 1) /\ (a[2] # <<>> => a[2][Len(a[2])] # 0)
BIn(a, lo, hi) == BLe(lo, a) /\ BLe(a, hi)
==============================================================================
