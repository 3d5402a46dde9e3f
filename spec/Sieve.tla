-------------------------------- MODULE Sieve --------------------------------
(* Sieves: the table of an arithmetic function for 0..n-1, or for a segment; the prime holder answers the same whatever was asked before. *)
EXTENDS Pick, PrimeB, Arith
CONSTANT MaxN, Lim
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
FT == TLCEval([i \in 1..Lim |-> Fac(i)])
Fc(i) == IF i <= Lim THEN FT[i] ELSE FcL(i)
Pr(i) == i > 1 /\ PrimeF(Fc(i))
PrimesBelow(n) == SelectSeq([i \in 1..(IF n > 1 THEN n - 1 ELSE 0) |-> i], Pr)
B01_(b) == IF b THEN 1 ELSE 0
\* the value at i >= 0
Val(k, i) ==
  CASE k = "q" -> B01_(Pr(i))
    [] k = "phi" -> IF i = 0 THEN 0 ELSE PhiF(Fc(i))
    [] k = "mu" -> IF i = 0 THEN 0 ELSE MuF(Fc(i))
    [] k = "nu" -> IF i = 0 THEN 0 ELSE NuF(Fc(i))
    [] k = "ds0" -> Sig0F(Fc(i))
    [] k = "ds1" -> Sig1F(Fc(i))
    [] k = "spf" -> IF i < 2 \/ Pr(i) THEN 0 ELSE Fc(i)[1][1]
    [] k = "bpf" -> IF i < 2 THEN i ELSE Fc(i)[Len(Fc(i))][1]
\* the running sum of kind k
Sums(k, n) == FoldLeft(LAMBDA a, i : Append(a, (IF a = <<>> THEN 0 ELSE a[Len(a)]) + Val(k, i - 1)), <<>>, [i \in 1..n |-> i])
SumTo(k, i) == FoldLeft(LAMBDA a, j : a + Val(k, j - 1), 0, [j \in 1..(i + 1) |-> j])
\* tables of the divisor sums start at 1
First(k) == IF k \in {"ds0", "ds1"} THEN 1 ELSE 0
Table(k, n, r) == Len(r) = n /\ \A i \in First(k)..(n - 1) : r[i + 1] = Val(k, i)
\* from the verified factorization of a large number
SegVal(k, fs) == CASE k = "q" -> B(B01_(PrimeF(fs)))
                   [] k = "mu" -> B(MuF(fs))
                   [] k = "phi" -> FoldLeft(LAMBDA a, t : BMul(a, BMul(BSub(t[1], B(1)), BPw(t[1], t[2] - 1))), B(1), fs)
Call(f, c) == LET n == Len(c) r == c[n] IN
  CASE f \in {"q", "phi", "mu", "nu", "ds0", "ds1", "spf", "bpf"} -> Table(f, c[1], r)
    \* <<n, count, primes>>
    [] f = "primes" -> r = PrimesBelow(c[1]) /\ c[2] = Len(r)
    \* a large table at some places: <<kind, n, <<i, value>>, ...>>; of running sums two neighbouring entries
    [] f = "big" -> LET k == c[1] IN \A j \in 1..Len(r) : r[j][1] < c[2] /\ (IF k \in {"pi", "mer"} THEN r[j][2] - r[j][3] = Val(IF k = "pi" THEN "q" ELSE "mu", r[j][1]) ELSE r[j][2] = Val(k, r[j][1]))
    \* <<n, primes below n, the last one>>: published counts
    [] f = "pcount" -> /\ r = (CASE c[1] = 1000000 -> 78498 [] c[1] = 2000000 -> 148933 [] c[1] = 4000000 -> 283146 [] c[1] = 6000000 -> 412849 [] c[1] = 10000000 -> 664579)
                       /\ Pr(c[2]) /\ \A x \in (c[2] + 1)..(c[1] - 1) : ~Pr(x)
    [] f = "pi" -> r = Sums("q", c[1])
    [] f = "mer" -> r = Sums("mu", c[1])
    \* <<kind, b, values>>, small
    [] f = "seg" -> \A i \in 1..Len(r) : r[i] = Val(c[1], c[2] + i - 1)
    \* <<kind, b, factorizations, values>>
    [] f = "bseg" -> Len(c[3]) = Len(r) /\ \A i \in 1..Len(r) : FacOK(BAdd(c[2], B(i - 1)), c[3][i]) /\ r[i] = SegVal(c[1], c[3][i])
    \* the holder: <<size, kind, i, answer>>
    [] f = "h" -> LET k == c[2] i == c[3] IN
         CASE k = "pi" -> r = SumTo("q", i) [] k = "mer" -> r = SumTo("mu", i) [] k = "p" -> Pr(r) /\ SumTo("q", r) = i + 1 [] k = "m" -> r = SumTo("q", c[1] - 1) [] k = "size" -> r = c[1]
           [] OTHER -> r = Val(k, i)
    [] f = "hfac" -> r = Fac(c[1])
    \* the factorization of a product
    [] f = "hfacs" -> r = (LET ps == SetToSortSeq(UNION {{t[1] : t \in {Fac(c[1][i])[j] : j \in 1..Len(Fac(c[1][i]))}} : i \in 1..Len(c[1])}, <) IN [j \in 1..Len(ps) |-> <<ps[j], FoldLeft(LAMBDA a, x : a + ExpOf(x, ps[j]), 0, c[1])>>])
    [] f = "hdiv" -> r = SetToSortSeq({d \in DivI(c[1]) : c[2] = 0 \/ d <= c[2]}, <)
    [] OTHER -> FALSE
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
LInit == out \in 1..MaxN
LNext == UNCHANGED out
Laws == ArithLaws(out) /\ BPrime(B(out)) = IsPrimeI(out)
===============================================================================
