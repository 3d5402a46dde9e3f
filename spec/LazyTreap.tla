----------------------------- MODULE LazyTreap -----------------------------
(* S: the sequence of <<key, value>> (keys non-decreasing), T: a second treap. *)
(* Values are residues mod M; a range update applies v -> a*v + c; the range    *)
(* aggregate is <<length, sum of v_i * 5^i>> (not commutative).               *)
EXTENDS Pick
CONSTANTS MaxN, MaxK
VARIABLES S, T, out
vars == <<S, T, out>>
M == 97
RECURSIVE Hash(_, _)
Hash(q, i) == IF i > Len(q) THEN 0 ELSE (q[i][2] + 5 * Hash(q, i + 1)) % M
Agg(q) == <<Len(q), Hash(q, 1)>>
Upd(args, s) == S' = s /\ T' = T /\ out' = args @@ [n |-> Len(s), root |-> Agg(s)]
Sub(s, b, e) == SubSeq(s, b + 1, e)
N == Len(S)
\* number of elements with a smaller (or equal) key
Less(s, k) == Cardinality({i \in 1..Len(s) : s[i][1] < k})
LessEq(s, k) == Cardinality({i \in 1..Len(s) : s[i][1] <= k})
Put(s, p, x) == Sub(s, 0, p) \o <<x>> \o Sub(s, p, Len(s))
Start == S' = <<>> /\ T' = <<<<1, 3>>, <<1, 4>>, <<1, 5>>>> /\ out' = [op |-> "start"]
\* equal keys keep insertion order
Ins(k, v) == Upd([op |-> "ins", k |-> k, v |-> v, p |-> LessEq(S, k)], Put(S, LessEq(S, k), <<k, v>>))
InsB(p, k, v) == /\ p \in 0..N /\ (IF p = 0 THEN TRUE ELSE S[p][1] <= k) /\ (IF p = N THEN TRUE ELSE k <= S[p + 1][1])
                 /\ Upd([op |-> "insb", p |-> p, k |-> k, v |-> v], Put(S, p, <<k, v>>))
EraK(k) == Upd([op |-> "erak", k |-> k], Sub(S, 0, Less(S, k)) \o Sub(S, LessEq(S, k), N))
Era(p) == p \in 0..(N - 1) /\ Upd([op |-> "era", p |-> p], Sub(S, 0, p) \o Sub(S, p + 1, N))
EraR(b, e) == b \in 0..N /\ e \in b..N /\ Upd([op |-> "erar", b |-> b, e |-> e], Sub(S, 0, b) \o Sub(S, e, N))
Update(b, e, a, c) == /\ b \in 0..N /\ e \in b..N
                      /\ Upd([op |-> "upd", b |-> b, e |-> e, a |-> a, c |-> c],
                             [i \in 1..N |-> IF i > b /\ i <= e THEN <<S[i][1], (a * S[i][2] + c) % M>> ELSE S[i]])
Get(b, e) == b \in 0..N /\ e \in b..N /\ Upd([op |-> "get", b |-> b, e |-> e, r |-> Agg(Sub(S, b, e))], S)
\* value through an iterator after the pending updates on its path were pushed
Val(p) == p \in 0..(N - 1) /\ Upd([op |-> "val", p |-> p, r |-> S[p + 1]], S)
Find(k) == Upd([op |-> "find", k |-> k, r |-> <<IF Less(S, k) < LessEq(S, k) THEN Less(S, k) ELSE N, Less(S, k), LessEq(S, k)>>], S)
\* sequences of keys compare lexicographically
RECURSIVE Before(_, _, _)
Before(x, y, i) == IF i > Len(y) THEN FALSE ELSE IF i > Len(x) THEN TRUE ELSE IF x[i][1] # y[i][1] THEN x[i][1] < y[i][1] ELSE Before(x, y, i + 1)
SameKeys(x, y) == ~Before(x, y, 1) /\ ~Before(y, x, 1)
Bit(v) == IF v THEN 1 ELSE 0
Rel(x, y) == <<Bit(SameKeys(x, y)), Bit(Before(x, y, 1)), Bit(~Before(y, x, 1))>>
Dump == Upd([op |-> "dump", cmp |-> Rel(S, T) \o Rel(T, S), mix |-> 0, s |-> S, rs |-> [i \in 1..N |-> S[N + 1 - i][1]]], S)
Clear == Upd([op |-> "clear"], <<>>)
Copy == S' = S /\ T' = S /\ out' = [op |-> "copy", n |-> N, root |-> Agg(S)]
Xchg == S' = T /\ T' = S /\ out' = [op |-> "xchg", n |-> Len(T), root |-> Agg(T)]
Step(e) == CASE e.op = "start" -> Start [] e.op = "ins" -> Ins(e.k, e.v) [] e.op = "insb" -> InsB(e.p, e.k, e.v) [] e.op = "erak" -> EraK(e.k)
  [] e.op = "era" -> Era(e.p) [] e.op = "erar" -> EraR(e.b, e.e) [] e.op = "upd" -> Update(e.b, e.e, e.a, e.c) [] e.op = "get" -> Get(e.b, e.e)
  [] e.op = "val" -> Val(e.p) [] e.op = "find" -> Find(e.k) [] e.op = "dump" -> Dump [] e.op = "clear" -> Clear [] e.op = "copy" -> Copy [] e.op = "xchg" -> Xchg
Init == S = <<>> /\ T = <<>> /\ out = [op |-> "init"]
GenInit == Init
Ks == P(1..MaxK)
Vs == P(0..(IF MaxN < 4 THEN 1 ELSE M - 1))
Rg(act(_, _)) == \E b \in P(0..N) : \E e \in P(b..N) : act(b, e)
DoIns == N < MaxN /\ \E k \in Ks, v \in Vs : Ins(k, v)
DoInsB == N < MaxN /\ \E p \in P(0..N), v \in Vs : \E k \in P((IF p = 0 THEN 1 ELSE S[p][1])..(IF p = N THEN MaxK ELSE S[p + 1][1])) : InsB(p, k, v)
DoUpd == \E a \in P({0, 1, 2, 3, 96}), c \in P({0, 1, 5}) : Rg(LAMBDA b, e : Update(b, e, a, c))
DoGet == Rg(Get)
DoVal == \E p \in P(0..(N - 1)) : Val(p)
DoFind == \E k \in Ks : Find(k)
DoEra == (\E k \in Ks : EraK(k)) \/ (\E p \in P(0..(N - 1)) : Era(p))
DoEraR == Rg(EraR)
Rare == \E x \in P(1..20) : x = 1 /\ Clear
Next == DoIns \/ DoInsB \/ DoUpd \/ DoGet \/ DoVal \/ DoFind \/ DoEra \/ DoEraR \/ Dump \/ Copy \/ Xchg \/ Clear
GenNext == IF out.op = "init" THEN Start ELSE DoIns \/ DoIns \/ DoIns \/ DoIns \/ DoInsB \/ DoInsB \/ DoInsB \/ DoUpd \/ DoUpd \/ DoUpd \/ DoGet \/ DoGet \/ DoVal \/ DoFind \/ DoEra
  \/ (\E x \in P(1..3) : x = 1 /\ Xchg) \/ (\E x \in P(1..3) : x = 1 /\ Dump) \/ (\E x \in P(1..4) : x = 1 /\ (DoEraR \/ Dump \/ Copy \/ Xchg)) \/ Rare
MCNext == IF out.op = "init" THEN Start ELSE DoIns \/ DoInsB \/ (Rg(LAMBDA b, e : Update(b, e, 2, 1)) /\ \A i \in 1..N : S[i][2] < 6) \/ DoGet \/ DoEra \/ DoEraR
Sorted == \A i \in 1..(N - 1) : S[i][1] <= S[i + 1][1]
\* the aggregate of a concatenation is determined by the aggregates of its parts
RECURSIVE Pow5(_)
Pow5(n) == IF n = 0 THEN 1 ELSE (5 * Pow5(n - 1)) % M
Monoid == \A i \in 0..N : Agg(S) = LET l == Agg(Sub(S, 0, i)) r == Agg(Sub(S, i, N)) IN <<l[1] + r[1], (l[2] + Pow5(l[1]) * r[2]) % M>>
MCView == <<S, out.op = "init">>
Slim(e) == [f \in (DOMAIN e) \cap ({"op", "k", "v", "b", "e", "a", "c"} \cup (IF e.op = "ins" THEN {} ELSE {"p"})) |-> e[f]]
=============================================================================
