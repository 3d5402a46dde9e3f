---------------------------- MODULE DisjointSet ----------------------------
(* An equivalence relation on 0..N-1. C[x+1] is the class of x (a set), W maps *)
(* a class to the extra weight added to it with add_count.                    *)
EXTENDS Pick
CONSTANTS MaxN
VARIABLES C, W, out
vars == <<C, W, out>>
N == Len(C)
Ext(n) == IF n <= N THEN C ELSE [i \in 1..n |-> IF i <= N THEN C[i] ELSE {i - 1}]
ExtW(n) == IF n <= N THEN W ELSE [i \in 1..n |-> IF i <= N THEN W[i] ELSE 0]
Sum(f, S) == LET RECURSIVE g(_) g(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f[x] + g(T \ {x}) IN g(S)
Cnt(c, w, x) == Cardinality(c[x + 1]) + w[x + 1]
Dist(c) == Cardinality({c[i] : i \in DOMAIN c})
Put(c, w, args) == C' = c /\ W' = w /\ out' = args @@ [dist |-> Dist(c), n |-> Len(c)]
Start(n) == Put([i \in 1..n |-> {i - 1}], [i \in 1..n |-> 0], [op |-> "start", sz |-> n])
Clear(n) == Put([i \in 1..n |-> {i - 1}], [i \in 1..n |-> 0], [op |-> "clear", sz |-> n])
Max(a, b) == IF a > b THEN a ELSE b
Unite(x, y) ==
  LET n == Max(N, Max(x, y) + 1) c == Ext(n) w == ExtW(n) U == c[x + 1] \cup c[y + 1] t == w[x + 1] + w[y + 1]
  IN IF c[x + 1] = c[y + 1] THEN Put(c, w, [op |-> "unite", x |-> x, y |-> y, r |-> 0])
     ELSE Put([i \in 1..n |-> IF i - 1 \in U THEN U ELSE c[i]], [i \in 1..n |-> IF i - 1 \in U THEN t ELSE w[i]],
              [op |-> "unite", x |-> x, y |-> y, r |-> 1])
\* the representative is any member of the class
Find(x, r) == LET n == Max(N, x + 1) c == Ext(n) IN r \in c[x + 1] /\ Put(c, ExtW(n), [op |-> "find", x |-> x, r |-> r])
Count(x) == LET n == Max(N, x + 1) IN Put(Ext(n), ExtW(n), [op |-> "count", x |-> x, r |-> Cnt(Ext(n), ExtW(n), x)])
AddCount(x, k) == LET n == Max(N, x + 1) c == Ext(n) w == ExtW(n)
                  IN Put(c, [i \in 1..n |-> IF i - 1 \in c[x + 1] THEN w[i] + k ELSE w[i]], [op |-> "add", x |-> x, k |-> k])
\* all representatives at once (asked from the last element down or from the first up), twice
Reps(dir, rep) == /\ Len(rep) = N
                  /\ \A i \in 1..N : rep[i] \in C[i] /\ rep[rep[i] + 1] = rep[i] /\ \A j \in C[i] : rep[j + 1] = rep[i]
                  /\ Put(C, W, [op |-> "reps", dir |-> dir, rep |-> rep, cnt |-> [i \in 1..N |-> Cnt(C, W, i - 1)]])
Copy == Put(C, W, [op |-> "copy"])
Step(e) == CASE e.op = "start" -> Start(e.sz) [] e.op = "clear" -> Clear(e.sz) [] e.op = "unite" -> Unite(e.x, e.y) [] e.op = "find" -> Find(e.x, e.r)
  [] e.op = "count" -> Count(e.x) [] e.op = "add" -> AddCount(e.x, e.k) [] e.op = "reps" -> Reps(e.dir, e.rep) [] e.op = "copy" -> Copy
Init == C = <<>> /\ W = <<>> /\ out = [op |-> "init"]
GenInit == Init
DoStart == \E n \in P(0..MaxN) : Start(n)
El == P(0..(MaxN - 1))
Low(c) == CHOOSE x \in c : \A y \in c : x <= y
\* generation: union of representatives of sizeable classes makes tall trees
DoUnite == \E x \in El, y \in El : Unite(x, y)
DoFind == \E x \in El : LET c == Ext(Max(N, x + 1)) IN Find(x, Low(c[x + 1]))
DoReps == \E d \in P({0, 1}) : Reps(d, [i \in 1..N |-> Low(C[i])])
DoCount == \E x \in El : Count(x)
DoAdd == \E x \in El, k \in P(1..5) : AddCount(x, k)
\* stars (a single element joins a class) and unions of classes of several elements, so that large classes of low rank meet higher ones
Cls(lo, hi) == {x \in 0..(N - 1) : Cardinality(C[x + 1]) >= lo /\ Cardinality(C[x + 1]) <= hi}
DoStar == Cls(2, 8) # {} /\ Cls(1, 1) # {} /\ \E x \in P(Cls(2, 8)), y \in P(Cls(1, 1)) : Unite(x, y) \/ Unite(y, x)
DoPair == Cardinality(Cls(1, 1)) > 1 /\ \E x \in P(Cls(1, 1)) : \E y \in P(Cls(1, 1) \ {x}) : Unite(x, y)
DoMerge(lo, hi) == Cls(lo, hi) # {} /\ \E x \in P(Cls(lo, hi)) : LET o == Cls(lo, hi) \ C[x + 1] IN o # {} /\ \E y \in P(o) : Unite(x, y)
TourNext == IF out.op = "init" THEN Start(MaxN) ELSE IF Cls(1, 1) # {} /\ Cardinality(Cls(1, 1)) > 3 THEN DoPair \/ DoStar \/ DoStar ELSE DoMerge(2, 4) \/ DoMerge(2, 8) \/ DoMerge(2, 24) \/ DoStar \/ DoReps \/ DoCount \/ DoAdd
Next == DoUnite \/ DoFind \/ DoCount \/ DoAdd \/ DoReps \/ Copy
Rare == \E k \in P(1..12) : k = 1 /\ \E n \in P(0..MaxN) : Clear(n)
GenNext == IF out.op = "init" THEN DoStart ELSE DoUnite \/ DoUnite \/ DoUnite \/ DoStar \/ DoStar \/ DoMerge(2, 24) \/ DoReps \/ DoFind \/ DoCount \/ DoAdd \/ DoReps \/ Copy \/ Rare
MCNext == IF out.op = "init" THEN DoStart ELSE DoUnite \/ DoFind \/ DoReps \/ (\E n \in 0..MaxN : Clear(n))
\* the classes partition the elements
Partition == /\ \A i \in 1..N : i - 1 \in C[i] /\ \A x \in C[i] : x \in 0..(N - 1) /\ C[x + 1] = C[i]
             /\ (out.op = "init" \/ Sum([i \in 1..N |-> 1], 1..N) = N)
WSame == \A i \in 1..N : \A x \in C[i] : W[x + 1] = W[i]
MCView == <<C, W, out.op = "init">>
Slim(e) == [f \in (DOMAIN e) \cap {"op", "sz", "x", "y", "k", "dir"} |-> e[f]]
=============================================================================
