------------------------------ MODULE QuotMap ------------------------------
(* Two quotient-indexed maps (sqrt_map or lohi_map). S[m] is the ordinary map;*)
(* LO the low bound, MX[m] the current largest key (0 for lohi_map: any key).  *)
EXTENDS Pick
CONSTANTS MaxN, MaxV, Impls, Los
VARIABLES S, LO, MX, KIND, R, out   \* R[m]: the absent keys written through the unchecked access; subscripting those is unspecified until they are inserted or erased
vars == <<S, LO, MX, KIND, R, out>>
Empty == [k \in {} |-> 0]
RECURSIVE ISqrt(_, _)
ISqrt(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE ISqrt(n, r + 1)
IsSqrt(kind) == kind \in {"sqrt", "sqrt64"}
\* the keys the map is specified for
Keys(kind, lo, mx) == (0..lo) \cup (IF IsSqrt(kind) THEN {x \in {mx \div j : j \in 1..mx} : x > lo} ELSE (lo + 1)..MaxN)
RECURSIVE Asc(_)
Asc(K) == IF K = {} THEN <<>> ELSE LET x == CHOOSE x \in K : \A y \in K : x <= y IN <<x>> \o Asc(K \ {x})
At(m, k) == IF k \in DOMAIN m THEN m[k] ELSE -1
\* what the user sees: for every admissible key its count and what at() gives (-1: throws out_of_range)
Dump(kind, lo, mx, m) == LET q == Asc(Keys(kind, lo, mx)) IN [i \in 1..Len(q) |-> <<q[i], B01(q[i] \in DOMAIN m), At(m, q[i])>>]
Set(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Start(kind, lo, mx) ==
  /\ S' = <<Empty, Empty>> /\ LO' = lo /\ MX' = <<mx, mx>> /\ KIND' = kind /\ R' = <<{}, {}>>
  /\ out' = [op |-> "start", impl |-> kind, lo |-> lo, n |-> mx, d |-> Dump(kind, lo, mx, Empty)]
UpdR(args, s, mx, r) == /\ S' = s /\ MX' = mx /\ R' = r /\ UNCHANGED <<LO, KIND>>
                    /\ out' = args @@ [d |-> Dump(KIND, LO, mx[args.m], s[args.m])]
Upd(args, s, mx) == UpdR(args, s, mx, R)
UpdK(args, s) == UpdR(args, s, MX, [R EXCEPT ![args.m] = @ \ {args.k}])
Ok(m, k) == m \in {1, 2} /\ k \in Keys(KIND, LO, MX[m])
Ins(m, k, v) == Ok(m, k) /\ LET had == k \in DOMAIN S[m]
                IN UpdK([op |-> "ins", m |-> m, k |-> k, v |-> v, r |-> <<k, B01(~had)>>], IF had THEN S ELSE [S EXCEPT ![m] = Set(@, k, v)])
\* subscripting creates the default value when the key is absent; w: what was then written through the reference (-1: nothing)
Sub(m, k, w) == Ok(m, k) /\ k \notin R[m] /\ LET old == IF k \in DOMAIN S[m] THEN S[m][k] ELSE 0
                IN Upd([op |-> "sub", m |-> m, k |-> k, v |-> w, r |-> old], [S EXCEPT ![m] = Set(@, k, IF w = -1 THEN old ELSE w)], MX)
Era(m, k) == Ok(m, k) /\ UpdK([op |-> "era", m |-> m, k |-> k, r |-> B01(k \in DOMAIN S[m])], [S EXCEPT ![m] = Del(@, k)])
AtW(m, k, v) == Ok(m, k) /\ LET had == k \in DOMAIN S[m]
                IN Upd([op |-> "atw", m |-> m, k |-> k, v |-> v, r |-> B01(had)], IF had THEN [S EXCEPT ![m] = Set(@, k, v)] ELSE S, MX)
\* unchecked reads and writes, and direct low/high access, of a present key
Raw(m, k, v) == Ok(m, k) /\ IsSqrt(KIND) /\ k \notin R[m] /\ LET had == k \in DOMAIN S[m] IN
                UpdR([op |-> "raw", m |-> m, k |-> k, v |-> v, r |-> IF had THEN S[m][k] ELSE 0], IF had THEN [S EXCEPT ![m] = Set(@, k, v)] ELSE S, MX, IF had THEN R ELSE [R EXCEPT ![m] = @ \cup {k}])
Reset(m, mx) == m \in {1, 2} /\ IsSqrt(KIND) /\ LO >= ISqrt(mx, 0)
                /\ UpdR([op |-> "reset", m |-> m, n |-> mx], [S EXCEPT ![m] = [k \in {x \in DOMAIN @ : x <= LO} |-> @[k]]], [MX EXCEPT ![m] = mx], [R EXCEPT ![m] = {x \in @ : x <= LO}])
Swap(m) == IsSqrt(KIND) /\ UpdR([op |-> "swap", m |-> m], <<S[2], S[1]>>, <<MX[2], MX[1]>>, <<R[2], R[1]>>)
Copy(m) == UpdR([op |-> "copy", m |-> m], <<S[m], S[m]>>, <<MX[m], MX[m]>>, <<R[m], R[m]>>)     \* the other one becomes a copy of m
Step(e) == CASE e.op = "start" -> Start(e.impl, e.lo, e.n) [] e.op = "ins" -> Ins(e.m, e.k, e.v) [] e.op = "sub" -> Sub(e.m, e.k, e.v)
  [] e.op = "era" -> Era(e.m, e.k) [] e.op = "atw" -> AtW(e.m, e.k, e.v) [] e.op = "raw" -> Raw(e.m, e.k, e.v)
  [] e.op = "reset" -> Reset(e.m, e.n) [] e.op = "swap" -> Swap(e.m) [] e.op = "copy" -> Copy(e.m)
Init == S = <<Empty, Empty>> /\ LO = 1 /\ MX = <<0, 0>> /\ KIND = "lohi" /\ R = <<{}, {}>> /\ out = [op |-> "init"]
GenInit == Init
Maxes(lo) == {n \in 0..MaxN : ISqrt(n, 0) <= lo}
Vals == 1..MaxV
DoStart == \E im \in P(Impls), lo \in P(Los) : \E n \in P(IF IsSqrt(im) THEN Maxes(lo) ELSE {0}) : Start(im, lo, n)
DoKey(act(_, _)) == \E m \in P({1, 2}) : \E k \in P(Keys(KIND, LO, MX[m])) : act(m, k)
DoIns == \E v \in P(Vals) : DoKey(LAMBDA m, k : Ins(m, k, v))
DoSub == \E v \in P(Vals \cup {-1}) : DoKey(LAMBDA m, k : Sub(m, k, v))
DoSub0 == DoKey(LAMBDA m, k : Sub(m, k, -1))
DoEra == DoKey(Era)
DoAtW == \E v \in P(Vals) : DoKey(LAMBDA m, k : AtW(m, k, v))
DoRaw == \E v \in P(Vals), m \in P({1, 2}) : DOMAIN S[m] # {} /\ \E k \in P(DOMAIN S[m]) : Raw(m, k, v)
DoRawA == \E v \in P(Vals) : DoKey(LAMBDA m, k : Raw(m, k, v))
DoClean == \E m \in P({1, 2}) : R[m] # {} /\ \E k \in P(R[m]) : Era(m, k)
DoReset == \E m \in P({1, 2}), n \in P(Maxes(LO)) : Reset(m, n)
DoTwo == \E m \in P({1, 2}) : (Swap(m) \/ Copy(m))
Next == DoIns \/ DoSub \/ DoEra \/ DoAtW \/ DoRaw \/ DoRawA \/ DoReset \/ DoTwo
GenNext == IF out.op = "init" THEN DoStart ELSE DoIns \/ DoIns \/ DoIns \/ DoSub \/ DoSub \/ DoSub0 \/ DoEra \/ DoEra \/ DoAtW \/ DoRaw \/ DoRawA \/ DoRawA \/ DoClean \/ DoReset \/ DoTwo
MCNext == IF out.op = "init" THEN DoStart ELSE Next
\* the low and the high table never share a cell, and quotients index the high table injectively
NoAlias == \A m \in {1, 2} : IsSqrt(KIND) => \A x, y \in {k \in Keys(KIND, LO, MX[m]) : k > LO} : x # y => MX[m] \div x # MX[m] \div y
InDom == \A m \in {1, 2} : DOMAIN S[m] \subseteq Keys(KIND, LO, MX[m])
MCView == <<S, LO, MX, KIND, R, out.op = "init">>
MCValsOK == \A m \in {1, 2} : Cardinality(DOMAIN S[m]) + Cardinality(R[m]) <= 1
Slim(e) == [f \in (DOMAIN e) \cap {"op", "impl", "lo", "n", "m", "k", "v"} |-> e[f]]
=============================================================================
