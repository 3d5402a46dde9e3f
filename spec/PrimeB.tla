-------------------------------- MODULE PrimeB --------------------------------
(* Primes and factorizations of numbers of Big. *)
EXTENDS Big, SequencesExt
Bases == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37>>
RECURSIVE OddOf(_, _), Sqs(_, _, _)
OddOf(d, s) == IF BMod(d, B(2)) = B(0) THEN OddOf(BShr(d, 1), s + 1) ELSE <<d, s>>
Sqs(x, n, s) == x = BSub(n, B(1)) \/ (s > 1 /\ Sqs(BMod(BMul(x, x), n), n, s - 1))
\* n, odd and above 2, passes the strong test to base b
Sprp(n, b) == LET t == OddOf(BSub(n, B(1)), 0) x == BPowMod(BMod(b, n), t[1], n) IN x = B(1) \/ Sqs(x, n, t[2])
\* exact below 3 * 10^23 (Sorenson, Webster)
BPrime(n) == BLt(B(1), n) /\ \A i \in 1..12 : LET b == B(Bases[i]) IN n = b \/ (BMod(n, b) # B(0) /\ Sprp(n, b))
RECURSIVE BPw(_, _)
BPw(x, n) == IF n = 0 THEN B(1) ELSE BMul(x, BPw(x, n - 1))
FacProd(fs) == FoldLeft(LAMBDA a, t : BMul(a, BPw(t[1], t[2])), B(1), fs)
\* fs is the factorization of x: distinct primes, in any order
FacAny(x, fs) == FacProd(fs) = x /\ \A i \in 1..Len(fs) : fs[i][2] > 0 /\ BPrime(fs[i][1]) /\ \A j \in 1..(i - 1) : fs[i][1] # fs[j][1]
FacOK(x, fs) == FacAny(x, fs) /\ \A i \in 2..Len(fs) : BLt(fs[i - 1][1], fs[i][1])
===============================================================================
