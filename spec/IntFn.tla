-------------------------------- MODULE IntFn --------------------------------
(* Integer helpers as exact functions on the integers. A call reports its arguments and result together with its type   *)
(* (w bits, sg = 1 if signed); the result must be the exact one whenever the type can represent that.                    *)
EXTENDS Pick, Big
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
Z == B(0)
One == B(1)
Lo(w, sg) == IF sg = 1 THEN BNeg(BPow2(w - 1)) ELSE Z
Hi(w, sg) == BSub(BPow2(IF sg = 1 THEN w - 1 ELSE w), One)
Sgn(a) == B(a[1])
\* ---- definitions
Floor(a, b) == IF BLt(b, Z) THEN BDiv(BNeg(a), BNeg(b)) ELSE BDiv(a, b)
Ceil(a, b) == BNeg(Floor(BNeg(a), b))
\* to the nearest integer, ties away from zero
Round(a, b) == LET p == BAbs(a) q == BAbs(b) IN BMul(B(a[1] * b[1]), BDiv(BAdd(BAdd(p, p), q), BAdd(q, q)))
\* roots towards zero and away from zero, odd functions
RootF(a, k) == BMul(Sgn(a), BRoot(BAbs(a), k))
RootC(a, k) == LET r == BRoot(BAbs(a), k) IN BMul(Sgn(a), IF BPow(r, k) = BAbs(a) THEN r ELSE BAdd(r, One))
IsPow(a, k) == BPow(RootF(a, k), k) = a
Lcm(a, b) == BMul(a, BQuo(b, BGcd(a, b)))
\* the part of b made of primes of a: divide the rest by its gcd with a until nothing is left
RECURSIVE Rest(_, _)
Rest(a, b) == LET g == BGcd(a, b) IN IF g = One THEN b ELSE Rest(a, BQuo(b, g))
RECURSIVE Steps(_, _)
Steps(a, b) == IF b = Z THEN 0 ELSE 1 + Steps(b, BRem(a, b))
Min(a, b) == IF BLt(a, b) THEN a ELSE b
Max(a, b) == IF BLt(a, b) THEN b ELSE a
Fit(e, x, r) == IF BIn(x, Lo(e.w, e.sg), Hi(e.w, e.sg)) THEN r = x ELSE TRUE
\* one call c = <<arguments..., result>>
Call(e, c) ==
  CASE e.f = "div_floor" -> Fit(e, Floor(c[1], c[2]), c[3])
    [] e.f = "div_ceil" -> Fit(e, Ceil(c[1], c[2]), c[3])
    [] e.f = "div_round" -> Fit(e, Round(c[1], c[2]), c[3])
    \* the least multiple of a > 0 not below b
    [] e.f = "multiple" -> Fit(e, BMul(c[1], Ceil(c[2], c[1])), c[3])
    [] e.f = "gcd" -> BAbs(c[3]) = BGcd(c[1], c[2])
    [] e.f = "gcd0" -> c[3] = BGcd(c[1], c[2])
    [] e.f = "lcm" -> Fit(e, Lcm(c[1], c[2]), c[3])
    [] e.f = "gcd_max" -> c[3] = BQuo(c[2], Rest(c[1], c[2]))
    [] e.f = "sqrt" -> Fit(e, RootF(c[1], 2), c[2])
    [] e.f = "cbrt" -> Fit(e, RootF(c[1], 3), c[2])
    [] e.f = "sqrtc" -> Fit(e, RootC(c[1], 2), c[2])
    [] e.f = "cbrtc" -> Fit(e, RootC(c[1], 3), c[2])
    [] e.f = "is_square" -> c[2] = B(B01(BLe(Z, c[1]) /\ IsPow(c[1], 2)))
    [] e.f = "is_cube" -> c[2] = B(B01(IsPow(c[1], 3)))
    [] e.f = "sq" -> Fit(e, BMul(c[1], c[1]), c[2])
    [] e.f = "cb" -> Fit(e, BMul(c[1], BMul(c[1], c[1])), c[2])
    [] e.f = "abs" -> Fit(e, BAbs(c[1]), c[2])
    [] e.f = "pow" -> Fit(e, BPow(c[1], BToInt(c[2])), c[3])
    [] e.f = "min" -> c[3] = Min(c[1], c[2])
    [] e.f = "max" -> c[3] = Max(c[1], c[2])
    \* x bounded to l <= r
    [] e.f = "bound" -> c[4] = Min(Max(c[1], c[2]), c[3])
    \* <<a, b, x, y, g, steps>>: Bezout's identity, with the minimal coefficients of Euclid's algorithm
    [] e.f = "gcd_ex" -> /\ BAdd(BMul(c[1], c[3]), BMul(c[2], c[4])) = c[5] /\ BAbs(c[5]) = BGcd(c[1], c[2]) /\ c[6] = B(Steps(c[1], c[2]))
                         /\ (c[1] # Z /\ c[2] # Z) => BLe(BMul(BAbs(c[3]), BAbs(c[5])), BAbs(c[2])) /\ BLe(BMul(BAbs(c[4]), BAbs(c[5])), BAbs(c[1]))
    [] OTHER -> FALSE
Step(e) == \A i \in 1..Len(e.q) : Call(e, e.q[i])
\* ---- laws: the definitions have the properties that name them, on all small arguments
LInit == out \in {<<a, b>> : a \in (0 - MaxN)..MaxN, b \in (0 - MaxN)..MaxN}
LNext == UNCHANGED out
Laws == LET a == out[1] b == out[2] A == B(a) Bb == B(b) IN
  /\ b # 0 => LET f == BToInt(Floor(A, Bb)) c == BToInt(Ceil(A, Bb)) r == BToInt(Round(A, Bb)) ab == IF b < 0 THEN 0 - b ELSE b IN
       /\ (IF b > 0 THEN f * b <= a /\ a < (f + 1) * b ELSE f * b >= a /\ a > (f + 1) * b)
       /\ (IF b > 0 THEN c * b >= a /\ a > (c - 1) * b ELSE c * b <= a /\ a < (c - 1) * b)
       /\ 2 * (a - r * b) <= ab /\ 2 * (r * b - a) <= ab
       /\ (2 * (a - r * b) \in {ab, 0 - ab}) => (IF r < 0 THEN 0 - r ELSE r) > (IF f + c < 0 THEN 0 - (f + c) ELSE f + c) \div 2
  /\ a >= 0 => \A k \in 2..3 : LET r == BToInt(RootF(A, k)) c == BToInt(RootC(A, k)) IN r ^ k <= a /\ a < (r + 1) ^ k /\ c ^ k >= a /\ (c = 0 \/ (c - 1) ^ k < a) /\ RootF(BNeg(A), k) = B(0 - r)
  /\ (a > 0 /\ b > 0) =>
       /\ LET m == BToInt(Lcm(A, Bb)) IN m % a = 0 /\ m % b = 0 /\ \A t \in 1..(m - 1) : ~(t % a = 0 /\ t % b = 0)
       /\ LET g == b \div BToInt(Rest(A, Bb)) ok(d) == b % d = 0 /\ \A p \in 2..d : (d % p = 0 /\ \A t \in 2..(p - 1) : p % t # 0) => a % p = 0
          IN ok(g) /\ \A d \in (g + 1)..b : ~ok(d)
=============================================================================
