-------------------------------- MODULE Coll --------------------------------
(* Binary searches over monotone predicates and the collection helpers, as functions of sequences. *)
EXTENDS Pick, Big, SequencesExt
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
\* ---- the first position of [lo, hi) at which the predicate holds, hi if there is none; p: its values at lo, lo+1, ...
Monotone(p) == \A i \in 1..Len(p) : \A j \in i..Len(p) : p[i] = 1 => p[j] = 1
FirstTrue(p) == IF \E i \in 1..Len(p) : p[i] = 1 THEN (CHOOSE i \in 1..Len(p) : p[i] = 1 /\ \A j \in 1..(i - 1) : p[j] = 0) - 1 ELSE Len(p)
Clamp(t, lo, hi) == IF BLt(t, lo) THEN lo ELSE IF BLt(hi, t) THEN hi ELSE t
\* f(x) against v, by kind
Rel(k, y, v) == CASE k = "ge" -> y >= v [] k = "le" -> y <= v [] k = "gt" -> y > v [] k = "lt" -> y < v
\* ---- sequences
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Ordered(q) == \A i \in 1..(Len(q) - 1) : q[i] <= q[i + 1]
Perm(q, r) == Len(q) = Len(r) /\ \A i \in 1..Len(q) : Count(q, q[i]) = Count(r, q[i])
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Take(q, n) == SubSeq(q, 1, IF n < Len(q) THEN n ELSE Len(q))
Keep(q, m, r) == LET T(x) == x % m = r IN SelectSeq(q, T)
\* maximal runs <<value, length>>
RL(q) == FoldLeft(LAMBDA r, x : IF r # <<>> /\ r[Len(r)][1] = x THEN [r EXCEPT ![Len(r)] = <<x, @[2] + 1>>] ELSE Append(r, <<x, 1>>), <<>>, q)
\* lexicographic comparison by the first difference
LexCmp(a, b, i) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) D == {j \in i..n : a[j] # b[j]}
  IN IF D = {} THEN (IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0) ELSE LET j == CHOOSE k \in D : \A m \in D : k <= m IN IF a[j] < b[j] THEN -1 ELSE 1
\* a number as a length limit: nothing here is longer than 10^6
Lim(n) == IF BLt(n, B(1000000)) THEN BToInt(n) ELSE 1000000
Cmp(a, b, n) == IF n < 0 THEN LexCmp(a, b, 1) ELSE LexCmp(Take(a, n), Take(b, n), 1)
Step(e) ==
  CASE e.f = "pred" -> Monotone(e.p) /\ e.r = FirstTrue(e.p) /\ e.inside = 1 /\ e.calls <= Len(e.p) /\ e.calls <= 34
    [] e.f = "predbig" -> e.r = Clamp(e.t, e.lo, e.hi) /\ e.inside = 1 /\ e.calls <= 66
    [] e.f = "num" -> e.r = Clamp(e.t, e.lo, e.hi) /\ e.inside = 1
    \* a step of eps: the result is within eps of the boundary (all values are multiples of the same unit)
    [] e.f = "eps" -> LET t == IF e.t < e.lo THEN e.lo ELSE IF e.t > e.hi THEN e.hi ELSE e.t IN e.r - t <= e.eps /\ t - e.r <= e.eps
    \* arguments lo, lo+1, ... with the values e.y of the monotone function
    [] e.f = "bound" -> e.r = FirstTrue([i \in 1..Len(e.y) |-> B01(Rel(e.k, e.y[i], e.v))])
    [] e.f = "sorted" -> Ordered(e.r) /\ Perm(e.q, e.r)
    [] e.f = "reversed" -> e.r = Rev(e.q)
    [] e.f = "take" -> e.r = Take(e.q, Lim(e.n))
    [] e.f = "filter" -> e.r = Keep(e.q, e.m, e.k)
    [] e.f = "transform" -> e.r = [i \in 1..Len(e.q) |-> e.a * e.q[i] + e.b]
    [] e.f = "runs" -> e.r = RL(e.q)
    [] e.f = "compare" -> e.r = Cmp(e.a, e.b, Lim(e.n))
    [] e.f = "contains" -> e.r = B01(\E i \in 1..Len(e.q) : e.q[i] = e.x)
    [] e.f = "reserve" -> /\ e.r = e.q /\ e.cap >= Len(e.q) + e.n /\ e.cap >= e.cap0
                          /\ IF Len(e.q) + e.n <= e.cap0 THEN e.cap = e.cap0 ELSE e.cap >= e.cap0 + e.cap0 \div 2
    [] OTHER -> FALSE
\* ---- laws on all short sequences
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE Seqs(n - 1) \cup {Append(s, x) : s \in {t \in Seqs(n - 1) : Len(t) = n - 1}, x \in 0..2}
RECURSIVE Flat(_)
Flat(r) == IF r = <<>> THEN <<>> ELSE [i \in 1..r[1][2] |-> r[1][1]] \o Flat(Tail(r))
LInit == out \in {<<s>> : s \in Seqs(MaxN)}
LNext == UNCHANGED out
Laws == LET q == out[1] IN
  /\ Flat(RL(q)) = q /\ \A i \in 1..(Len(RL(q)) - 1) : RL(q)[i][1] # RL(q)[i + 1][1]
  /\ Rev(Rev(q)) = q
  /\ \A t \in Seqs(2) : \A n \in -1..3 : Cmp(q, t, n) = 0 - Cmp(t, q, n) /\ (Cmp(q, t, -1) = 0) = (q = t)
=============================================================================
