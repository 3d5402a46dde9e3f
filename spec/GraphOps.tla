------------------------------ MODULE GraphOps ------------------------------
(* A graph under editing: every node has a bag of arcs <<head, weight>> (here: its arcs in sorted order). *)
EXTENDS Pick
CONSTANTS MaxN, MaxE, Ws
VARIABLES a, ty, out
vars == <<a, ty, out>>
V == 0..(Len(a) - 1)
Leq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
RECURSIVE Sorted(_)
Sorted(q) == IF q = <<>> THEN <<>>
             ELSE LET i == CHOOSE k \in 1..Len(q) : \A j \in 1..Len(q) : Leq(q[k], q[j])
                  IN <<q[i]>> \o Sorted(SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)))
Keep(q, T(_)) == SelectSeq(q, T)
RECURSIVE Sum(_, _)
Sum(A, k) == IF k = 0 THEN 0 ELSE Len(A[k]) + Sum(A, k - 1)
AddTo(A, u, x) == [A EXCEPT ![u + 1] = Sorted(Append(@, x))]
NoEdge(A, u, v) == LET T(x) == x[1] # v IN [A EXCEPT ![u + 1] = Keep(@, T)]
\* the node u disappears with all its arcs; the last node takes its number
Drop(A, u) == LET n == Len(A) B == [i \in 1..n |-> IF i = u + 1 THEN A[n] ELSE A[i]]
                  T(x) == x[1] # u
                  R(q) == Sorted([k \in 1..Len(q) |-> IF q[k][1] = n - 1 THEN <<u, q[k][2]>> ELSE q[k]])
              IN [i \in 1..(n - 1) |-> R(Keep(B[i], T))]
\* v is merged into u, the arcs between them vanish; then parallel arcs are merged
Merge(A, u, v) == LET B == NoEdge(NoEdge(A, u, v), v, u)
                      C == [B EXCEPT ![u + 1] = @ \o B[v + 1]]
                      R(q) == [k \in 1..Len(q) |-> IF q[k][1] = v THEN <<u, q[k][2]>> ELSE q[k]]
                  IN Drop([i \in 1..Len(C) |-> R(C[i])], v)
Hds(q) == {q[k][1] : k \in 1..Len(q)}
\* d is a reduction of q to one arc for each head
Dedup(d, q) == Len(d) = Cardinality(Hds(q)) /\ Hds(d) = Hds(q) /\ \A k \in 1..Len(d) : \E j \in 1..Len(q) : q[j] = d[k]
Firsts(q) == LET T(x) == \A k \in 1..Len(q) : q[k][1] = x[1] => Leq(x, q[k]) r == Keep(q, T)
             IN Sorted(SelectSeq([k \in 1..Len(r) |-> IF \E j \in 1..(k - 1) : r[j] = r[k] THEN <<-1, 0>> ELSE r[k]], LAMBDA x : x[1] # -1))
Empty(n) == [i \in 1..n |-> <<>>]
\* e.a is the state afterwards
Step(e) ==
  LET A == e.a n == Len(a) IN
  /\ a' = A
  /\ ty' = (IF e.op = "new" THEN e.ty ELSE ty)
  /\ e.size = Len(A) /\ e.edges = Sum(A, Len(A))
  /\ \A i \in 1..Len(A) : \A k \in 1..(Len(A[i]) - 1) : Leq(A[i][k], A[i][k + 1])
  /\ CASE e.op = "new" -> A = Empty(e.n)
       [] e.op = "add_node" -> A = Append(a, <<>>) /\ e.ret = n
       [] e.op = "add_edge" -> A = AddTo(a, e.u, <<e.v, e.w>>)
       [] e.op = "add_edge2" -> A = AddTo(AddTo(a, e.u, <<e.v, e.w>>), e.v, <<e.u, e.w>>)
       [] e.op = "dup_edge2" -> IF a[e.u + 1] = <<>> THEN A = a
                                ELSE \E k \in 1..Len(a[e.u + 1]) : LET x == a[e.u + 1][k] IN A = AddTo(AddTo(a, e.u, x), x[1], <<e.u, x[2]>>)
       [] e.op = "delete_edge" -> A = NoEdge(a, e.u, e.v)
       [] e.op = "delete_node" -> A = Drop(a, e.u)
       [] e.op = "contract" -> LET M == Merge(a, e.u, e.v) IN Len(A) = Len(M) /\ \A i \in 1..Len(A) : Dedup(A[i], M[i])
       [] e.op = "dedup" -> Len(A) = n /\ \A i \in 1..n : IF i = e.u + 1 THEN Dedup(A[i], a[i]) ELSE A[i] = a[i]
       [] e.op = "copy" -> A = a /\ e.ret = 1
       [] OTHER -> FALSE
Init == a = <<>> /\ ty = 0 /\ out = [op |-> "init"]
GenInit == Init
Do(e) == a' = e.a /\ ty' = (IF e.op = "new" THEN e.ty ELSE ty) /\ out' = [size |-> Len(e.a), edges |-> Sum(e.a, Len(e.a))] @@ e
Wt(t) == IF t = 1 THEN Ws ELSE {0}
New == \E n \in P(0..MaxN), t \in P(0..1) : Do([op |-> "new", n |-> n, ty |-> t, ret |-> 0, a |-> Empty(n)])
GenNext ==
  IF out.op = "init" THEN New ELSE
  \/ Len(a) < MaxN /\ Do([op |-> "add_node", ret |-> Len(a), a |-> Append(a, <<>>)])
  \/ Len(a) > 0 /\ Sum(a, Len(a)) < MaxE /\ \E u \in P(V), v \in P(V), w \in P(Wt(ty)) : Do([op |-> "add_edge", u |-> u, v |-> v, w |-> w, ret |-> 0, a |-> AddTo(a, u, <<v, w>>)])
  \/ Len(a) > 0 /\ Sum(a, Len(a)) < MaxE /\ \E u \in P(V), v \in P(V), w \in P(Wt(ty)) : Do([op |-> "add_edge2", u |-> u, v |-> v, w |-> w, ret |-> 0, a |-> AddTo(AddTo(a, u, <<v, w>>), v, <<u, w>>)])
  \/ Len(a) > 0 /\ \E u \in P(V), v \in P(V) : Do([op |-> "delete_edge", u |-> u, v |-> v, ret |-> 0, a |-> NoEdge(a, u, v)])
  \/ Len(a) > 0 /\ \E u \in P(V) : Do([op |-> "delete_node", u |-> u, ret |-> 0, a |-> Drop(a, u)])
  \/ Len(a) > 1 /\ \E u \in P(V) : \E v \in P(V \ {u}) : Do([op |-> "contract", u |-> u, v |-> v, ret |-> 0, a |-> LET M == Merge(a, u, v) IN [i \in 1..Len(M) |-> Firsts(M[i])]])
  \/ Len(a) > 0 /\ \E u \in P(V) : Do([op |-> "dedup", u |-> u, ret |-> 0, a |-> [a EXCEPT ![u + 1] = Firsts(@)]])
  \/ Do([op |-> "copy", ret |-> 1, a |-> a])
\* behaviours for replay: only operations whose outcome the spec determines may precede others in the generator,
\* so weighted parallel arcs (whose survivor is free) are followed by the event's own state during validation
DupNext == Len(a) > 0 /\ Sum(a, Len(a)) < MaxE /\ \E u \in P(V) : Do([op |-> "dup_edge2", u |-> u, ret |-> 0,
             a |-> IF a[u + 1] = <<>> THEN a ELSE LET x == a[u + 1][1] IN AddTo(AddTo(a, u, x), x[1], <<u, x[2]>>)])
GenAll == GenNext \/ (out.op # "init" /\ DupNext)
Slim(e) == [k \in DOMAIN e \ {"a", "ret", "size", "edges"} |-> e[k]]
Next == GenNext
\* ---- laws of the model
Laws == out.op = "init" \/
  /\ \A i \in 1..Len(a) : \A k \in 1..Len(a[i]) : a[i][k][1] \in V
  /\ out.op = "contract" => \A i \in 1..Len(a) : Cardinality(Hds(a[i])) = Len(a[i])
  /\ out.op = "delete_edge" => out.v \notin Hds(a[out.u + 1])
\* an undirected graph stays undirected
Sym == \A u, v \in V : (v \in Hds(a[u + 1])) = (u \in Hds(a[v + 1]))
SymKept == [][(Sym /\ out'.op \in {"add_edge2", "delete_node", "contract", "copy", "add_node"}) => Sym']_vars
=============================================================================
