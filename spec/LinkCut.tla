------------------------------ MODULE LinkCut ------------------------------
(* The represented forest: Pa[i] is the parent of node i (0: root), V[i] its   *)
(* value. Nodes are numbered from 1.                                          *)
EXTENDS Pick
CONSTANTS MaxN, MaxV
VARIABLES Pa, V, out
vars == <<Pa, V, out>>
N == Len(Pa)
RECURSIVE PathTo(_, _)
PathTo(pa, x) == IF x = 0 THEN <<>> ELSE PathTo(pa, pa[x]) \o <<x>>     \* root first
Root(x) == PathTo(Pa, x)[1]
Depth(x) == Len(PathTo(Pa, x)) - 1
Vals(x) == LET p == PathTo(Pa, x) IN [i \in 1..Len(p) |-> V[p[i]]]
RECURSIVE Sum(_, _)
Sum(q, n) == IF n = 0 THEN 0 ELSE q[n] + Sum(q, n - 1)
RECURSIVE Common(_, _, _)
Common(p, q, i) == IF i < Len(p) /\ i < Len(q) /\ p[i + 1] = q[i + 1] THEN Common(p, q, i + 1) ELSE i
Start(vs) == Pa' = [i \in 1..Len(vs) |-> 0] /\ V' = vs /\ out' = [op |-> "start", vs |-> vs, n |-> Len(vs)]
Upd(args, pa) == Pa' = pa /\ V' = V /\ out' = args
Qry(args) == Upd(args, Pa)
Node(x) == x \in 1..N
Add(v) == Pa' = Append(Pa, 0) /\ V' = Append(V, v) /\ out' = [op |-> "add", v |-> v, r |-> N + 1]
Link(x, y) == Node(x) /\ Node(y) /\ Pa[x] = 0 /\ Root(y) # x /\ Upd([op |-> "link", x |-> x, y |-> y], [Pa EXCEPT ![x] = y])
\* cutting a root changes nothing
Cut(x) == Node(x) /\ Upd([op |-> "cut", x |-> x], [Pa EXCEPT ![x] = 0])
FindRoot(x) == Node(x) /\ Qry([op |-> "root", x |-> x, r |-> Root(x)])
FindParent(x) == Node(x) /\ Qry([op |-> "parent", x |-> x, r |-> Pa[x]])
\* 0 when not connected
FindLca(x, y) == Node(x) /\ Node(y) /\ LET p == PathTo(Pa, x) q == PathTo(Pa, y) c == Common(p, q, 0)
                 IN Qry([op |-> "lca", x |-> x, y |-> y, r |-> IF c = 0 THEN 0 ELSE p[c]])
DepthOf(x) == Node(x) /\ Qry([op |-> "depth", x |-> x, r |-> Depth(x)])
\* the aggregate of the path from the root to x, in path order
Get(x) == Node(x) /\ Qry([op |-> "get", x |-> x, own |-> V[x], r |-> Vals(x)])
\* the value of x is changed through the reference that get(x) returned
Set(x, v) == Node(x) /\ Pa' = Pa /\ V' = [V EXCEPT ![x] = v] /\ out' = [op |-> "set", x |-> x, v |-> v]
\* descent by depth: the ancestor of x at depth k
AncAt(x, k) == Node(x) /\ k \in 0..Depth(x) /\ Qry([op |-> "anc", x |-> x, k |-> k, r |-> PathTo(Pa, x)[k + 1]])
\* descent by aggregates: the first node of the root path whose prefix sum reaches t
First(x, t) == Node(x) /\ LET q == Vals(x) p == PathTo(Pa, x) S == {i \in 1..Len(q) : Sum(q, i) >= t}
               IN t > 0 /\ S # {} /\ Qry([op |-> "first", x |-> x, t |-> t, r |-> p[CHOOSE i \in S : \A j \in S : i <= j]])
Step(e) == CASE e.op = "start" -> Start(e.vs) [] e.op = "add" -> Add(e.v) [] e.op = "link" -> Link(e.x, e.y) [] e.op = "cut" -> Cut(e.x)
  [] e.op = "root" -> FindRoot(e.x) [] e.op = "parent" -> FindParent(e.x) [] e.op = "lca" -> FindLca(e.x, e.y) [] e.op = "depth" -> DepthOf(e.x)
  [] e.op = "get" -> Get(e.x) [] e.op = "set" -> Set(e.x, e.v) [] e.op = "anc" -> AncAt(e.x, e.k) [] e.op = "first" -> First(e.x, e.t)
Init == Pa = <<>> /\ V = <<>> /\ out = [op |-> "init"]
GenInit == Init
RndV(n) == [i \in 1..n |-> RandomElement(1..MaxV)]
DoStart == \E n \in P(1..MaxN) : \E vs \in P({RndV(n)}) : Start(vs)
Nd == P(1..N)
Roots == {x \in 1..N : Pa[x] = 0}
DoLink == \E x \in P(Roots) : LET T == {y \in 1..N : Root(y) # x} IN \E y \in P(T) : Link(x, y)
DoCut == \E x \in Nd : Cut(x)
DoAdd == N < MaxN /\ \E v \in P(1..MaxV) : Add(v)
Q1 == \E x \in Nd : (FindRoot(x) \/ FindParent(x) \/ DepthOf(x) \/ Get(x))
Q2 == \E x \in Nd, y \in Nd : FindLca(x, y)
Q3 == \E x \in Nd : \E k \in P(0..Depth(x)) : AncAt(x, k)
Q4 == \E x \in Nd : \E t \in P(1..Sum(Vals(x), Len(Vals(x)))) : First(x, t)
DoSet == \E x \in Nd, v \in P(1..MaxV) : Set(x, v)
Next == DoLink \/ DoCut \/ DoAdd \/ Q1 \/ Q2 \/ Q3 \/ Q4 \/ DoSet
GenNext == IF out.op = "init" THEN DoStart ELSE DoLink \/ DoLink \/ DoLink \/ DoLink \/ DoLink \/ DoCut \/ DoAdd \/ Q1 \/ Q1 \/ Q2 \/ Q2 \/ Q3 \/ Q4 \/ DoSet
MCStart == \E n \in 1..MaxN : Start([i \in 1..n |-> 1])
MCNext == IF out.op = "init" THEN MCStart ELSE DoLink \/ DoCut \/ Q1 \/ Q2 \/ Q3 \/ Q4
RECURSIVE Reach(_, _, _)
Reach(x, y, f) == x = y \/ (f > 0 /\ Pa[x] # 0 /\ Reach(Pa[x], y, f - 1))
\* the parent relation stays a forest; a lowest common ancestor is a common ancestor, and no deeper one exists
Forest == \A x \in 1..N : \E r \in 1..N : Pa[r] = 0 /\ Reach(x, r, N)
LcaLaw == out.op = "lca" => IF out.r = 0 THEN \A z \in 1..N : ~(Reach(out.x, z, N) /\ Reach(out.y, z, N))
          ELSE Reach(out.x, out.r, N) /\ Reach(out.y, out.r, N) /\ \A z \in 1..N : Reach(out.x, z, N) /\ Reach(out.y, z, N) => Reach(out.r, z, N)
MCView == <<Pa, V, out>>
Slim(e) == [f \in (DOMAIN e) \cap {"op", "vs", "x", "y", "k", "v", "t"} |-> e[f]]
=============================================================================
