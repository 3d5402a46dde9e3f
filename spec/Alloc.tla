------------------------------- MODULE Alloc -------------------------------
(* bounded_contiguous_allocator: hands out at most `capacity` distinct cells  *)
(* of one contiguous block, reports exhaustion, reuses returned cells; copies *)
(* are fresh allocators of the same capacity and never share memory.          *)
EXTENDS Pick
CONSTANTS Caps, MaxA
VARIABLES al,   \* sequence of allocators: [cap, used: set of handle numbers]
          nh, out
vars == <<al, nh, out>>
N == Len(al)
Obs(a) == [free |-> [i \in DOMAIN a |-> a[i].cap - Cardinality(a[i].used)], caps |-> [i \in DOMAIN a |-> a[i].cap],
           distinct |-> 1, inblock |-> 1, intact |-> 1]
Emit(args, a) == al' = a /\ out' = args @@ Obs(a)
Start == al' = <<>> /\ nh' = 1 /\ out' = [op |-> "start"]
Make(c) == Emit([op |-> "make", c |-> c], Append(al, [cap |-> c, used |-> {}])) /\ UNCHANGED nh
\* copy construction (i): a new allocator
Copy(i) == i \in 1..N /\ Emit([op |-> "copy", i |-> i], Append(al, [cap |-> al[i].cap, used |-> {}])) /\ UNCHANGED nh
\* swapping two allocators swaps everything they own
Swap(i, j) == /\ i \in 1..N /\ j \in 1..N
              /\ Emit([op |-> "swap", i |-> i, j |-> j], [al EXCEPT ![i] = al[j], ![j] = al[i]]) /\ UNCHANGED nh
\* copy assignment to an allocator nothing is allocated from
Asg(i, j) == /\ i \in 1..N /\ j \in 1..N /\ al[i].used = {} /\ i # j
             /\ Emit([op |-> "asg", i |-> i, j |-> j], [al EXCEPT ![i] = [cap |-> al[j].cap, used |-> {}]]) /\ UNCHANGED nh
Get(i) == /\ i \in 1..N
          /\ LET ok == Cardinality(al[i].used) < al[i].cap
             IN /\ Emit([op |-> "get", i |-> i, h |-> nh, ok |-> B01(ok)],
                        IF ok THEN [al EXCEPT ![i].used = @ \union {nh}] ELSE al)
                /\ nh' = nh + 1
Put(i, h) == /\ i \in 1..N /\ h \in al[i].used
             /\ Emit([op |-> "put", i |-> i, h |-> h], [al EXCEPT ![i].used = @ \ {h}]) /\ UNCHANGED nh
Step(e) == CASE e.op = "start" -> Start [] e.op = "make" -> Make(e.c) [] e.op = "copy" -> Copy(e.i)
             [] e.op = "swap" -> Swap(e.i, e.j) [] e.op = "asg" -> Asg(e.i, e.j) [] e.op = "get" -> Get(e.i) [] e.op = "put" -> Put(e.i, e.h)
Init == al = <<>> /\ nh = 1 /\ out = [op |-> "start"]
GenInit == Init
DoMake == N < MaxA /\ \E c \in P(Caps) : Make(c)
DoCopy == N < MaxA /\ \E i \in P(1..N) : Copy(i)
DoSwap == \E i \in P(1..N), j \in P(1..N) : Swap(i, j)
DoAsg == \E i \in P({x \in 1..N : al[x].used = {}}), j \in P(1..N) : Asg(i, j)
DoGet == \E i \in P(1..N) : Get(i)
DoPut == \E i \in P({x \in 1..N : al[x].used # {}}) : \E h \in P(al[i].used) : Put(i, h)
Next == DoMake \/ DoCopy \/ DoSwap \/ DoAsg \/ DoGet \/ DoPut
GenNext == Next \/ DoGet \/ DoGet \/ DoGet \/ DoPut
Bounded == \A i \in 1..N : Cardinality(al[i].used) <= al[i].cap
Disjoint == \A i, j \in 1..N : i # j => al[i].used \intersect al[j].used = {}
Few == nh <= 6
Slim(e) == [f \in (DOMAIN e) \cap {"op", "i", "j", "c", "h"} |-> e[f]]
=============================================================================
