------------------------------- MODULE StrFn -------------------------------
(* Strings as sequences of naturals; one definition per string structure.     *)
EXTENDS Pick
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
\* ---- substring of s at 0-based offsets [b, e)
Sub(s, b, e) == SubSeq(s, b + 1, e)
OccursAt(t, p, i) == i + Len(p) <= Len(t) /\ \A j \in 1..Len(p) : t[i + j] = p[j]
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Occ(t, p) == {i \in 0..(Len(t) - Len(p)) : OccursAt(t, p, i)}
\* all occurrences in increasing order, up to the stop-th (0: never stop); the result is the last one reported or n
Kmp(t, p, stop, vis, r) ==
  LET q == Asc(Occ(t, p)) k == IF stop = 0 \/ stop > Len(q) THEN Len(q) ELSE stop
  IN vis = SubSeq(q, 1, k) /\ r = (IF k = 0 THEN Len(t) ELSE q[k])
\* ---- dictionary matching
EndsAt(t, w, i) == Len(w) <= i /\ Sub(t, i - Len(w), i) = w
Hits(d, t, i) == Cardinality({k \in 1..Len(d) : EndsAt(t, d[k], i)})
IsPrefixOfDict(d, u) == \E k \in 1..Len(d) : Len(u) <= Len(d[k]) /\ SubSeq(d[k], 1, Len(u)) = u
\* the state after i symbols spells the longest suffix of the text that is a prefix of a dictionary word
State(d, t, i) == LET L == {l \in 0..i : IsPrefixOfDict(d, Sub(t, i - l, i))} IN Sub(t, i - (CHOOSE l \in L : \A m \in L : m <= l), i)
RECURSIVE SumSeq(_, _)
SumSeq(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumSeq(q, n - 1)
Aho(d, t, per, st, total) ==
  /\ Len(per) = Len(t) /\ Len(st) = Len(t)
  /\ \A i \in 1..Len(t) : per[i] = Hits(d, t, i) /\ (d # <<>> => st[i] = State(d, t, i))
  /\ total = SumSeq(per, Len(per))
\* ---- suffix order
Min2(a, b) == IF a < b THEN a ELSE b
\* length of the longest common prefix of two sequences read from offsets i and j
Lcp2(a, i, b, j) == LET m == Min2(Len(a) - i, Len(b) - j)
                    IN CHOOSE l \in 0..m : (IF l = m THEN TRUE ELSE a[i + l + 1] # b[j + l + 1]) /\ \A k \in 0..(l - 1) : a[i + k + 1] = b[j + k + 1]
LcpAt(s, i, j) == Lcp2(s, i, s, j)
LessAt(s, i, j) == LET l == LcpAt(s, i, j) IN IF j + l >= Len(s) THEN FALSE ELSE IF i + l >= Len(s) THEN TRUE ELSE s[i + l + 1] < s[j + l + 1]
Cmp(a, b) == LET l == Lcp2(a, 0, b, 0)
             IN IF l < Len(a) /\ l < Len(b) THEN (IF a[l + 1] < b[l + 1] THEN -1 ELSE 1) ELSE IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0
SuffixArray(s, sa, ord, lcp, cmp) ==
  LET n == Len(s)
  IN /\ Len(sa) = n + 1 /\ Len(ord) = n + 1
     /\ \A k \in 1..(n + 1) : sa[k] \in 0..n /\ ord[sa[k] + 1] = k - 1
     /\ \A k \in 1..n : LessAt(s, sa[k], sa[k + 1])
     /\ \A k \in 1..Len(lcp) : lcp[k][3] = IF lcp[k][1] = lcp[k][2] THEN n - lcp[k][1] ELSE LcpAt(s, lcp[k][1], lcp[k][2])
     /\ \A k \in 1..Len(cmp) : cmp[k][5] = Cmp(Sub(s, cmp[k][1], cmp[k][2]), Sub(s, cmp[k][3], cmp[k][4]))
\* ---- range minimum (maximum when greater = 1) over [b, e)
Rmq(a, greater, q) ==
  \A k \in 1..Len(q) : LET b == q[k][1] e == q[k][2] x == q[k][3] v == q[k][4]
                       IN x \in b..(e - 1) /\ a[x + 1] = v /\ \A i \in (b + 1)..e : IF greater = 1 THEN a[i] <= v ELSE v <= a[i]
\* ---- palindromes
IsPal(s, b, e) == \A i \in 0..((e - b) \div 2) : b + i < e - 1 - i => s[b + i + 1] = s[e - i]
PalRanges(s, n) == {<<b, e>> \in (0..(n - 1)) \X (1..n) : b < e /\ IsPal(s, b, e)}
Pals(s, n) == {Sub(s, r[1], r[2]) : r \in PalRanges(s, n)}
LongestPalSuffix(s, n) == LET B == {b \in 0..n : b = n \/ IsPal(s, b, n)} IN n - (CHOOSE b \in B : \A c \in B : b <= c)
\* a step: <<new node?, distinct so far, all palindromic substrings so far, length of the longest palindromic suffix>>
RECURSIVE Chain(_)
\* longest proper palindromic suffix of the palindrome u (a sequence)
PropSuf(u) == LET B == {b \in 1..Len(u) : b = Len(u) \/ IsPal(u, b, Len(u))} IN Sub(u, CHOOSE b \in B : \A c \in B : b <= c, Len(u))
Chain(u) == IF u = <<>> THEN 0 ELSE 1 + Chain(PropSuf(u))
\* a node: <<length, first position, occurrences, depth of its suffix chain, its suffix link as <<pos, len>>, children <<letter, pos, len>>>>
PalTree(s, steps, nodes) ==
  LET n == Len(s) R == PalRanges(s, n)
  IN /\ Len(steps) = n
     /\ \A k \in 1..n : LET Rk == {r \in R : r[2] <= k} Dk == {Sub(s, r[1], r[2]) : r \in Rk} Dp == {Sub(s, r[1], r[2]) : r \in {x \in R : x[2] < k}}
                        IN steps[k] = <<B01(Dk # Dp), Cardinality(Dk), Cardinality(Rk), LongestPalSuffix(s, k)>>
     /\ LET D == Pals(s, n) Spelled(x) == Sub(s, x[2], x[2] + x[1])
        IN /\ Len(nodes) = Cardinality(D) /\ {Spelled(nodes[i]) : i \in 1..Len(nodes)} = D
           /\ \A i \in 1..Len(nodes) :
                LET x == nodes[i] u == Spelled(x) F == {r \in R : Sub(s, r[1], r[2]) = u}
                IN /\ \A r \in F : x[2] <= r[1]
                   /\ x[3] = Cardinality(F) /\ x[4] = Chain(u)
                   /\ (IF x[5][2] = 0 THEN <<>> ELSE Sub(s, x[5][1], x[5][1] + x[5][2])) = PropSuf(u)
                   /\ {<<c[1], Sub(s, c[2], c[2] + c[3])>> : c \in {x[6][j] : j \in 1..Len(x[6])}}
                        = {<<v[1], v>> : v \in {w \in D : Len(w) = Len(u) + 2 /\ Sub(w, 1, Len(w) - 1) = u}}
Step(e) == CASE e.f = "kmp" -> Kmp(e.t, e.p, e.stop, e.vis, e.r) [] e.f = "aho" -> Aho(e.d, e.t, e.per, e.st, e.total)
  [] e.f = "sa" -> SuffixArray(e.s, e.sa, e.ord, e.lcp, e.cmp) [] e.f = "rmq" -> Rmq(e.a, e.gt, e.q) [] e.f = "pal" -> PalTree(e.s, e.steps, e.nodes)
\* ---- the definitions themselves, on all short strings
CONSTANTS MaxL
Strs == UNION {[1..n -> {0, 1}] : n \in 0..MaxL}
LInit == \E s \in Strs, p \in Strs : out = [f |-> "law", s |-> s, p |-> p]
LNext == UNCHANGED out
Laws == out.f = "law" => LET s == out.s p == out.p n == Len(s)
  IN /\ (p # <<>> => Occ(s, p) = {i - Len(p) : i \in {j \in 0..n : EndsAt(s, p, j)}})
     /\ Cmp(s, p) = -Cmp(p, s) /\ (Cmp(s, p) = 0) = (s = p)
     /\ \A i, j \in 0..n : i # j => (LessAt(s, i, j) # LessAt(s, j, i)) /\ LessAt(s, i, j) = (Cmp(Sub(s, i, n), Sub(s, j, n)) = -1)
     \* the number of distinct palindromes ending at k but not before is 0 or 1, and the chain lengths count the occurrences
     /\ Cardinality(Pals(s, n)) <= n
     /\ Cardinality(PalRanges(s, n)) = SumSeq([k \in 1..n |-> Chain(Sub(s, k - LongestPalSuffix(s, k), k))], n)
=============================================================================
