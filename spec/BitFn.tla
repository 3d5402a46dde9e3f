-------------------------------- MODULE BitFn --------------------------------
(* Words as sequences of bits, b[1] the least significant. A call c = <<x, ..., result>> gives words as numbers; results  *)
(* named in NumRes are counts, the others words of the same width.                                                      *)
EXTENDS Pick, Big
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
Z == B(0)
\* the w bits of a natural
Wd(a, w) == LET b == BBits(a) IN [i \in 1..w |-> IF i <= Len(b) THEN b[i] ELSE 0]
\* ---- definitions
RECURSIVE Ones(_, _)
Ones(b, i) == IF i > Len(b) THEN 0 ELSE b[i] + Ones(b, i + 1)
Top(b) == IF \E i \in 1..Len(b) : b[i] = 1 THEN CHOOSE i \in 1..Len(b) : b[i] = 1 /\ \A j \in (i + 1)..Len(b) : b[j] = 0 ELSE 0
Low(b) == IF \E i \in 1..Len(b) : b[i] = 1 THEN CHOOSE i \in 1..Len(b) : b[i] = 1 /\ \A j \in 1..(i - 1) : b[j] = 0 ELSE 0
Only(b, k) == [i \in 1..Len(b) |-> IF i = k THEN 1 ELSE 0]
Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
OrDown(b) == [i \in 1..Len(b) |-> IF i <= Top(b) THEN 1 ELSE 0]
RECURSIVE Par(_, _)
Par(b, i) == IF i > Len(b) THEN 0 ELSE (b[i] + Par(b, i + 1)) % 2
XorDown(b) == [i \in 1..Len(b) |-> Par(b, i)]
Gray(b) == [i \in 1..Len(b) |-> IF i = Len(b) THEN b[i] ELSE (b[i] + b[i + 1]) % 2]
Erase(b, p) == [i \in 1..Len(b) |-> IF i <= p THEN b[i] ELSE IF i = Len(b) THEN 0 ELSE b[i + 1]]
Mix(a, b, m) == [i \in 1..Len(a) |-> IF m[i] = 1 THEN b[i] ELSE a[i]]
\* the same number in the other of two's complement and sign-and-magnitude
SignMag(a, w) == LET h == BPow2(w - 1) IN IF BLt(a, h) THEN a ELSE IF a = h THEN Z ELSE BAdd(h, BSub(BPow2(w), a))
\* next greater word of n bits with as many ones; after the last one, the first and FALSE: exchange the lowest 01 for 10 and pack the ones below
Next01(b) == {i \in 1..(Len(b) - 1) : b[i] = 1 /\ b[i + 1] = 0}
Pack(b, i) == LET k == Ones(SubSeq(b, 1, i - 1), 1) IN [j \in 1..Len(b) |-> IF j < i THEN (IF j <= k THEN 1 ELSE 0) ELSE IF j = i THEN 0 ELSE IF j = i + 1 THEN 1 ELSE b[j]]
NextComb(b) == IF Next01(b) = {} THEN <<0, Rev(b)>> ELSE LET i == CHOOSE x \in Next01(b) : \A y \in Next01(b) : x <= y IN <<1, Pack(b, i)>>
Word(f, c, w) == LET b == Wd(c[1], w) IN
  CASE f = "bit_reverse" -> Rev(b)
    [] f = "or_down" -> OrDown(b)
    [] f = "xor_down" -> XorDown(b)
    [] f = "gray_to_bin" -> XorDown(b)
    [] f = "bin_to_gray" -> Gray(b)
    [] f = "hi_bit" -> Only(b, Top(b))
    [] f = "lo_bit" -> Only(b, Low(b))
    [] f = "neg" -> Wd(BWrap(BNeg(c[1]), w), w)
    [] f = "sign_mag" -> Wd(SignMag(c[1], w), w)
    [] f = "next_pow2" -> Wd(BWrap(BPow2(Top(b)), w), w)
    [] f = "make_bit" -> Only(b, BToInt(c[1]) + 1)
    [] f = "make_ones" -> LET k == BToInt(c[1]) IN [i \in 1..w |-> IF i <= k THEN 1 ELSE 0]
    [] f = "get_bit" -> Wd(B(b[BToInt(c[2]) + 1]), w)
    [] f = "set_bit" -> [b EXCEPT ![BToInt(c[2]) + 1] = 1]
    [] f = "flip_bit" -> [b EXCEPT ![BToInt(c[2]) + 1] = 1 - @]
    [] f = "clear_bit" -> [b EXCEPT ![BToInt(c[2]) + 1] = 0]
    [] f = "erase_bit" -> Erase(b, BToInt(c[2]))
    [] f = "mix_bits" -> Mix(b, Wd(c[2], w), Wd(c[3], w))
Num(f, c, w) == LET b == Wd(c[1], w) IN
  CASE f = "ilog2" -> IF Top(b) = 0 THEN 0 ELSE Top(b) - 1
    [] f = "bit_cnt1" -> Ones(b, 1)
    [] f = "lzc" -> w - Top(b)
    [] f = "tzc" -> IF Low(b) = 0 THEN w ELSE Low(b) - 1
    [] f = "is_pow2" -> B01(Ones(b, 1) <= 1)
    [] f = "is_not_pow2" -> B01(Ones(b, 1) > 1)
NumRes == {"ilog2", "bit_cnt1", "lzc", "tzc", "is_pow2", "is_not_pow2"}
Call(f, c, w) ==
  CASE f \in NumRes -> c[Len(c)] = B(Num(f, c, w))
    \* <<x, n, more, next x>>
    [] f = "next_combination" -> LET n == BToInt(c[2]) r == NextComb(Wd(c[1], n)) IN c[3] = B(r[1]) /\ c[4] = BVal(r[2])
    [] OTHER -> BLe(Z, c[Len(c)]) /\ BLt(c[Len(c)], BPow2(w)) /\ Wd(c[Len(c)], w) = Word(f, c, w)
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i], e.w)
\* ---- laws on all words of MaxN bits
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<<>>} ELSE {Append(b, x) : b \in Words(n - 1), x \in 0..1}
RECURSIVE V(_, _)
V(b, i) == IF i > Len(b) THEN 0 ELSE b[i] + 2 * V(b, i + 1)
LInit == out \in {<<b>> : b \in Words(MaxN)}
LNext == UNCHANGED out
Laws == LET b == out[1] n == Len(b) x == V(b, 1) IN
  /\ XorDown(Gray(b)) = b /\ Gray(XorDown(b)) = b /\ Rev(Rev(b)) = b
  \* consecutive Gray codes differ in one bit
  /\ x + 1 < 2 ^ n => LET c == CHOOSE c \in Words(n) : V(c, 1) = x + 1 IN Cardinality({i \in 1..n : Gray(b)[i] # Gray(c)[i]}) = 1
  /\ BToInt(SignMag(SignMag(B(x), n), n)) = (IF x = 2 ^ (n - 1) THEN 0 ELSE x)
  /\ LET r == NextComb(b) S == {V(c, 1) : c \in {d \in Words(n) : Ones(d, 1) = Ones(b, 1)}} IN
       IF r[1] = 1 THEN V(r[2], 1) > x /\ V(r[2], 1) \in S /\ \A y \in S : ~(x < y /\ y < V(r[2], 1)) ELSE (\A y \in S : y <= x) /\ (\A y \in S : V(r[2], 1) <= y) /\ V(r[2], 1) \in S
=============================================================================
