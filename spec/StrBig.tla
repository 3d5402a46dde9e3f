------------------------------- MODULE StrBig -------------------------------
(* Strings too long to write down, given by a shape; closed forms for what    *)
(* StrFn defines, each proved equal to the definition on all small instances. *)
EXTENDS Pick, Big, SequencesExt
CONSTANT MaxL
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
S == INSTANCE StrFn
\* ---- (0 1 .. p-1) repeated m times
Rep(p, m) == [i \in 1..(p * m) |-> (i - 1) % p]
\* k-th smallest suffix: the empty one, then by first symbol, shorter first
RepKth(p, m, k) == IF k = 0 THEN p * m ELSE p * (m - 1 - ((k - 1) % m)) + ((k - 1) \div m)
RepOrd(p, m, i) == IF i = p * m THEN 0 ELSE (i % p) * m + (m - 1 - (i \div p)) + 1
RepLcp(p, m, i, j) == IF (i - j) % p = 0 THEN p * m - (IF i > j THEN i ELSE j) ELSE 0
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RepCmp(p, m, c) == LET a == c[2] - c[1] b == c[4] - c[3] IN IF a = 0 \/ b = 0 \/ (c[1] - c[3]) % p = 0 THEN Sgn(a - b) ELSE Sgn((c[1] % p) - (c[3] % p))
SaBig(p, m, kth, ord, lcp, cmp) ==
  /\ \A k \in 1..Len(kth) : kth[k][2] = RepKth(p, m, kth[k][1])
  /\ \A k \in 1..Len(ord) : ord[k][2] = RepOrd(p, m, ord[k][1])
  /\ \A k \in 1..Len(lcp) : lcp[k][3] = RepLcp(p, m, lcp[k][1], lcp[k][2])
  /\ \A k \in 1..Len(cmp) : cmp[k][5] = RepCmp(p, m, cmp[k])
\* occurrences of the pattern of length L starting with symbol c in Rep(p, m)
RepOccN(p, m, c, L) == IF c + L > p * m THEN 0 ELSE (p * m - L - c) \div p + 1
\* what the visitor saw: how many, the first and the last (-1 if none), and whether it increased by the same step
KmpBig(p, m, c, L, n, first, last, step, r) ==
  LET k == RepOccN(p, m, c, L)
  IN n = k /\ first = (IF k = 0 THEN -1 ELSE c) /\ last = (IF k = 0 THEN -1 ELSE c + p * (k - 1)) /\ step = (IF k < 2 THEN 0 ELSE p) /\ r = (IF k = 0 THEN p * m ELSE last)
\* a word of length L (starting with symbol c) entered w times: one hit per occurrence and entry
AhoBig(p, m, ws, total) ==
  total = FoldLeft(LAMBDA acc, x : BAdd(acc, BMul(B(x[3]), B(RepOccN(p, m, x[1], x[2])))), B(0), ws)
\* ---- the string 0^n
PalBig(n, distinct, total, nodes) ==
  /\ distinct = n /\ BMul(B(2), total) = BMul(B(n), B(n + 1))
  /\ \A k \in 1..Len(nodes) : nodes[k][2] = n - nodes[k][1] + 1 /\ nodes[k][3] = 0 /\ nodes[k][4] = nodes[k][1]
\* ---- an array that is d everywhere except at the listed positions
RmqBig(d, ex, greater, q) ==
  LET Better(u, v) == IF greater = 1 THEN u > v ELSE u < v
  IN \A k \in 1..Len(q) :
       LET b == q[k][1] e == q[k][2] x == q[k][3] v == q[k][4]
           X == {i \in 1..Len(ex) : b <= ex[i][1] /\ ex[i][1] < e}
           At(y) == LET J == {i \in 1..Len(ex) : ex[i][1] = y} IN IF J = {} THEN d ELSE ex[CHOOSE i \in J : TRUE][2]
       IN b <= x /\ x < e /\ v = At(x) /\ (\A i \in X : ~Better(ex[i][2], v)) /\ (Cardinality(X) < e - b => ~Better(d, v))
Step(z) == CASE z.f = "sabig" -> SaBig(z.p, z.m, z.kth, z.ord, z.lcp, z.cmp)
  [] z.f = "kmpbig" -> KmpBig(z.p, z.m, z.c, z.len, z.n, z.first, z.last, z.step, z.r)
  [] z.f = "ahobig" -> AhoBig(z.p, z.m, z.ws, z.total)
  [] z.f = "palbig" -> PalBig(z.n, z.distinct, z.total, z.nodes)
  [] z.f = "rmqbig" -> RmqBig(z.d, z.ex, z.gt, z.q)
LInit == \E p \in 1..3, m \in 1..MaxL : out = [f |-> "law", p |-> p, m |-> m]
LNext == UNCHANGED out
Laws == out.f = "law" => LET p == out.p m == out.m s == Rep(p, m) n == p * m
  IN /\ \A i, j \in 0..n : i # j => RepLcp(p, m, i, j) = S!LcpAt(s, i, j) /\ (RepOrd(p, m, i) < RepOrd(p, m, j)) = S!LessAt(s, i, j)
     /\ \A i \in 0..n : RepKth(p, m, RepOrd(p, m, i)) = i
     /\ \A c \in 0..(p - 1), L \in 1..(n + 1) : S!Asc(S!Occ(s, [i \in 1..L |-> (c + i - 1) % p])) = [k \in 1..RepOccN(p, m, c, L) |-> c + p * (k - 1)]
     /\ \A i, j \in 0..n : \A a \in i..n, b \in j..n : RepCmp(p, m, <<i, a, j, b>>) = S!Cmp(S!Sub(s, i, a), S!Sub(s, j, b))
     /\ (p = 1 => /\ Cardinality(S!Pals(s, m)) = m /\ 2 * Cardinality(S!PalRanges(s, m)) = m * (m + 1)
                  /\ \A k \in 1..m : LET u == S!Sub(s, 0, k) IN S!Chain(u) = k /\ Cardinality({r \in S!PalRanges(s, m) : S!Sub(s, r[1], r[2]) = u}) = m - k + 1)
=============================================================================
