-------------------------------- MODULE Heap --------------------------------
(* A binary heap is a bag with a distinguished extreme element. Elements are  *)
(* <<key, tag>>; the comparator only sees keys, so ties are real.             *)
EXTENDS Pick
CONSTANTS Keys, MaxLen, Impls
VARIABLES bag,   \* sequence, canonically sorted by <<key, tag>>: the contents as a bag
          desc, nt, fr, out
vars == <<bag, desc, nt, fr, out>>
Before(a, b) == IF desc = 1 THEN a > b ELSE a < b
LexLt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
RECURSIVE InsS(_, _)
InsS(b, x) == IF b = <<>> THEN <<x>> ELSE IF LexLt(x, b[1]) THEN <<x>> \o b ELSE <<b[1]>> \o InsS(Tail(b), x)
RECURSIVE SortS(_)
SortS(b) == IF b = <<>> THEN <<>> ELSE InsS(SortS(Tail(b)), b[1])
Drop(b, x) == SelectSeq(b, LAMBDA y : y # x)          \* tags are unique
Extreme(b) == {b[i] : i \in {j \in DOMAIN b : \A k \in DOMAIN b : ~Before(b[k][1], b[j][1])}}
\* the front is some element that no other precedes
Emit(args, b) == /\ bag' = b
                 /\ IF b = <<>> THEN fr' = <<>> ELSE fr' \in Extreme(b)
                 /\ out' = args @@ [size |-> Len(b), front |-> fr']
Start(im, d, ks) ==
  LET b == SortS([i \in 1..Len(ks) |-> <<ks[i], i>>])
  IN /\ bag' = b /\ desc' = d /\ nt' = Len(ks) + 1
     /\ IF b = <<>> THEN fr' = <<>> ELSE fr' \in {b[i] : i \in {j \in DOMAIN b : \A k \in DOMAIN b : IF d = 1 THEN b[k][1] <= b[j][1] ELSE b[k][1] >= b[j][1]}}
     /\ out' = [op |-> "start", impl |-> im, d |-> d, ks |-> ks, size |-> Len(b), front |-> fr']
Push(k) == /\ Emit([op |-> "push", k |-> k, t |-> nt], InsS(bag, <<k, nt>>)) /\ nt' = nt + 1 /\ UNCHANGED desc
Pop == /\ bag # <<>> /\ Emit([op |-> "pop"], Drop(bag, fr)) /\ UNCHANGED <<desc, nt>>
\* all contents in the order of repeated removal
SortedBy(r) == \A i \in 1..(Len(r) - 1) : ~Before(r[i + 1][1], r[i][1])
Sorted(r, op) == /\ SortedBy(r) /\ SortS(r) = bag
                 /\ out' = [op |-> op, r |-> r, size |-> Len(bag), front |-> fr] /\ UNCHANGED <<bag, desc, nt, fr>>
Sort == Sorted(IF desc = 1 THEN [i \in 1..Len(bag) |-> bag[Len(bag) + 1 - i]] ELSE bag, "sort")
Drain == Sorted(IF desc = 1 THEN [i \in 1..Len(bag) |-> bag[Len(bag) + 1 - i]] ELSE bag, "drain")
\* keys overwritten in place (by tag order), followed by a rebuild
Rekey(ks) == /\ Len(ks) = Len(bag)
             /\ LET byt == SortS([i \in 1..Len(bag) |-> <<bag[i][2], bag[i][1]>>])
                IN Emit([op |-> "rekey", ks |-> ks], SortS([i \in 1..Len(bag) |-> <<ks[i], byt[i][1]>>]))
             /\ UNCHANGED <<desc, nt>>
Step(e) == CASE e.op = "start" -> Start(e.impl, e.d, e.ks) [] e.op = "push" -> Push(e.k) [] e.op = "pop" -> Pop
             [] e.op = "sort" -> Sorted(e.r, "sort") [] e.op = "drain" -> Sorted(e.r, "drain") [] e.op = "rekey" -> Rekey(e.ks)
Init == bag = <<>> /\ desc = 0 /\ nt = 1 /\ fr = <<>> /\ out = [op |-> "init"]
GenInit == bag = <<>> /\ nt = 1 /\ fr = <<>> /\ desc = 0 /\ out = [op |-> "init"]
DoStart == nt = 1 /\ \E im \in P(Impls), d \in P({0, 1}), n \in P(0..MaxLen) : \E ks \in P([1..n -> Keys]) : Start(im, d, ks)
DoPush == Len(bag) < MaxLen /\ \E k \in P(Keys) : Push(k)
DoRekey == \E ks \in P([1..Len(bag) -> Keys]) : Rekey(ks)
Next == DoStart \/ (out.op # "init" /\ (DoPush \/ Pop \/ Sort \/ Drain \/ (Len(bag) < 4 /\ DoRekey)))
GenNext == IF out.op = "init" THEN DoStart ELSE DoPush \/ DoPush \/ Pop \/ Pop \/ DoPush \/ (nt % 3 = 0 /\ (Sort \/ Drain)) \/ (nt % 5 = 0 /\ DoRekey)
FrontOk == bag # <<>> => fr \in Extreme(bag)
Few == nt <= MaxLen + 1
Slim(e) == [f \in (DOMAIN e) \cap {"op", "impl", "d", "ks", "k"} |-> e[f]]
=============================================================================
