------------------------------ MODULE GraphFn ------------------------------
(* Graphs: nodes 0..n-1; adj[u+1] is the list of arcs out of u, each <<v, w>>.                     *)
(* Every relation below is the textbook definition (or a complete certificate) of what is claimed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
B01(x) == IF x THEN 1 ELSE 0
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
N(A) == Len(A)
V(A) == 0..(Len(A) - 1)
Heads(A, u) == {A[u + 1][k][1] : k \in 1..Len(A[u + 1])}
\* closure of S under arcs; F is the part whose arcs have not been followed yet
RECURSIVE CloF(_, _, _)
CloF(A, F, S) == IF F = {} THEN S ELSE LET G == TLCEval((UNION {Heads(A, u) : u \in F}) \ S) IN CloF(A, G, TLCEval(S \cup G))
Reach(A, u) == CloF(A, {u}, {u})
Reaches(A) == TLCEval([u \in V(A) |-> Reach(A, u)])
HasArc(A, u, v, w) == \E k \in 1..Len(A[u + 1]) : A[u + 1][k] = <<v, w>>
RECURSIVE SumF(_, _)
SumF(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumF(q, k - 1)
Count(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : Count(p, p[k]) = Count(q, p[k])
RECURSIVE Steps(_, _, _)
Steps(P, v, k) == IF k = 0 \/ v = -1 THEN v ELSE Steps(P, P[v + 1], k - 1)
\* ---------------------------------------------------------------- C15
\* r[v+1] = <<previous node, distance>>; unreachable nodes keep <<-1, inf>>
ShortestTree(A, src, inf, r) ==
  LET R == TLCEval(Reach(A, src)) prev == TLCEval([i \in 1..N(A) |-> r[i][1]])
  IN /\ Len(r) = N(A)
     /\ r[src + 1] = <<src, 0>>
     /\ \A v \in V(A) : IF v \notin R THEN r[v + 1] = <<-1, inf>>
                        ELSE /\ \A k \in 1..Len(A[v + 1]) : LET a == A[v + 1][k] IN r[a[1] + 1][2] <= r[v + 1][2] + a[2]
                             /\ v # src => r[v + 1][1] \in R /\ HasArc(A, r[v + 1][1], v, r[v + 1][2] - r[r[v + 1][1] + 1][2])
                             /\ Steps(prev, v, N(A)) = src
\* r[u+1][v+1] = <<next node, distance>>
MinArc(A, u, v) == LET W == {A[u + 1][k][2] : k \in {j \in 1..Len(A[u + 1]) : A[u + 1][j][1] = v}} IN CHOOSE w \in W : \A x \in W : w <= x
RECURSIVE Follow(_, _, _, _, _, _)
\* weight of the walk that follows the next pointers from u to v in at most k arcs; a string when it does not arrive
Follow(A, r, u, v, k, acc) == IF u = v THEN <<"ok", acc>>
                              ELSE IF k = 0 \/ r[u + 1][v + 1][1] \notin Heads(A, u) THEN <<"lost", acc>>
                              ELSE LET x == r[u + 1][v + 1][1] IN Follow(A, r, x, v, k - 1, acc + MinArc(A, u, x))
AllPairs(A, inf, r) ==
  LET R == Reaches(A)
  IN /\ Len(r) = N(A)
     /\ \A u, v \in V(A) :
          LET d == r[u + 1][v + 1]
          IN IF u = v THEN d = <<u, 0>>
             ELSE IF v \notin R[u] THEN d = <<-1, inf>>
             ELSE /\ \A k \in 1..Len(A[u + 1]) : LET a == A[u + 1][k] IN v \in R[a[1]] => d[2] <= a[2] + r[a[1] + 1][v + 1][2]
                  /\ Follow(A, r, u, v, N(A), 0) = <<"ok", d[2]>>
\* components of the undirected graph with the edges {u,v,w}: w <= t, counted by their least members
RECURSIVE CloT(_, _, _)
CloT(A, t, S) == LET T == TLCEval(S \cup UNION {{A[u + 1][k][1] : k \in {j \in 1..Len(A[u + 1]) : A[u + 1][j][2] <= t}} : u \in S}) IN IF T = S THEN S ELSE CloT(A, t, T)
CompsIn(A, t, R) == Cardinality({u \in R : \A v \in CloT(A, t, {u}) : u <= v})
\* a spanning tree is minimum iff for every t it has as many edges of weight at most t as any forest can have
SpanningTree(A, root, inf, r) ==
  LET R == Reach(A, root) prev == [i \in 1..N(A) |-> r[i][1]] W == {A[u + 1][k][2] : u \in R, k \in {}} IN
  /\ Len(r) = N(A) /\ r[root + 1] = <<root, 0>>
  /\ \A v \in V(A) : IF v \notin R THEN r[v + 1] = <<-1, inf>>
                     ELSE (v # root => r[v + 1][1] \in R /\ HasArc(A, r[v + 1][1], v, r[v + 1][2])) /\ Steps(prev, v, N(A)) = root
  /\ \A t \in UNION {{A[u + 1][k][2] : k \in 1..Len(A[u + 1])} : u \in R} :
       Cardinality({v \in R \ {root} : r[v + 1][2] <= t}) = Cardinality(R) - CompsIn(A, t, R)
\* ---------------------------------------------------------------- C16
PosOf(cs, v) == CHOOSE i \in 1..Len(cs) : \E k \in 1..Len(cs[i]) : cs[i][k] = v
Scc(A, cs) ==
  LET R == Reaches(A) IN
  /\ \A i \in 1..Len(cs) : cs[i] # <<>>
  /\ SumF([i \in 1..Len(cs) |-> Len(cs[i])], Len(cs)) = N(A)
  /\ \A v \in V(A) : \E i \in 1..Len(cs) : \E k \in 1..Len(cs[i]) : cs[i][k] = v
  /\ \A u, v \in V(A) : (PosOf(cs, u) = PosOf(cs, v)) = (v \in R[u] /\ u \in R[v])
  /\ \A u \in V(A) : \A v \in Heads(A, u) : PosOf(cs, u) <= PosOf(cs, v)
Acyclic(A) == LET R == Reaches(A) IN \A u \in V(A) : \A v \in Heads(A, u) : u \notin R[v]
Topo(A, deg, t) ==
  /\ Len(deg) = N(A) /\ \A v \in V(A) : deg[v + 1] = SumF([u \in 1..N(A) |-> Cardinality({k \in 1..Len(A[u]) : A[u][k][1] = v})], N(A))
  /\ Acyclic(A) => /\ Len(t) = N(A) /\ {t[k] : k \in 1..Len(t)} = V(A)
                   /\ \A i, j \in 1..Len(t) : t[j] \in Heads(A, t[i]) => i < j
Closure(A, c) == Len(c) = N(A) /\ \A u \in V(A) : /\ {c[u + 1][k] : k \in 1..Len(c[u + 1])} = Reach(A, u) \ {u}
                                                 /\ Len(c[u + 1]) = Cardinality(Reach(A, u)) - 1
\* of an acyclic graph: an arc is kept iff its head is not reachable through another head
Reduction(A, c) == LET R == Reaches(A) IN
  /\ Len(c) = N(A)
  /\ Acyclic(A) => \A u \in V(A) : LET K == {v \in Heads(A, u) : ~\E x \in Heads(A, u) \ {v} : v \in R[x]}
                                   IN {c[u + 1][k] : k \in 1..Len(c[u + 1])} = K /\ Len(c[u + 1]) = Cardinality(K)
\* 2-SAT: literal 2*i+1 is variable i, 2*i its negation, -1 is false
LitTrue(x, a) == IF x = -1 THEN FALSE ELSE a[(x \div 2) + 1] = x % 2
Sat(cl, a) == \A k \in 1..Len(cl) : LitTrue(cl[k][1], a) \/ LitTrue(cl[k][2], a)
NVars(cl, pre) == LET S == {Len(pre)} \cup {(cl[k][1] \div 2) + 1 : k \in 1..Len(cl)} \cup {(cl[k][2] \div 2) + 1 : k \in 1..Len(cl)} IN CHOOSE m \in S : \A x \in S : x <= m
Sat2(cl, pre, res, sol) ==
  LET n == NVars(cl, pre)
      ok == \E a \in [1..n -> 0..1] : Sat(cl, a) /\ \A i \in 1..Len(pre) : pre[i] # -1 => a[i] = pre[i]
  IN /\ res = B01(ok)
     /\ ok => /\ Len(sol) = n /\ (\A i \in 1..Len(pre) : pre[i] # -1 => sol[i] = pre[i])
              /\ Sat(cl, [i \in 1..n |-> IF sol[i] = -1 THEN 0 ELSE sol[i]]) /\ Sat(cl, [i \in 1..n |-> IF sol[i] = -1 THEN 1 ELSE sol[i]])
Sat2v(cl, sol) == LET n == NVars(cl, <<>>) ok == \E a \in [1..n -> 0..1] : Sat(cl, a)
                  IN IF cl = <<>> THEN sol = <<>> ELSE IF ok THEN Len(sol) = n /\ Sat(cl, sol) ELSE sol = <<>>
\* ---------------------------------------------------------------- C17
\* the visitor calls of a depth-first search that does not enter the nodes of Rej; a frame is <<node, next arc>>
RECURSIVE Dfs(_, _, _, _, _, _, _)
Dfs(A, Rej, root, stack, visited, ev, one) ==
  IF stack = <<>>
  THEN IF one \/ root + 1 >= N(A) THEN ev
       ELSE LET o == root + 1 IN
            IF o \in visited THEN Dfs(A, Rej, o, <<>>, visited, ev, one)
            ELSE LET e == Append(ev, <<o, -1, o, 0>>) IN
                 IF o \in Rej THEN Dfs(A, Rej, o, <<>>, visited, e, one)
                 ELSE Dfs(A, Rej, o, << <<o, 1>> >>, visited \cup {o}, e, one)
  ELSE LET d == Len(stack) u == stack[d][1] i == stack[d][2] IN
       IF i > Len(A[u + 1]) THEN Dfs(A, Rej, root, SubSeq(stack, 1, d - 1), visited, Append(ev, <<root, u, -1, d>>), one)
       ELSE LET v == A[u + 1][i][1] s == [stack EXCEPT ![d] = <<u, i + 1>>] IN
            IF v \in visited THEN Dfs(A, Rej, root, s, visited, ev, one)
            ELSE LET e == Append(ev, <<root, u, v, d>>) IN
                 IF v \in Rej THEN Dfs(A, Rej, root, s, visited, e, one)
                 ELSE Dfs(A, Rej, root, Append(s, <<v, 1>>), visited \cup {v}, e, one)
DfsRun(A, Rej, src, ev) ==
  ev = IF src = -1 THEN Dfs(A, Rej, -1, <<>>, {}, <<>>, FALSE)
       ELSE IF src \in Rej THEN << <<src, -1, src, 0>> >>
       ELSE Dfs(A, Rej, src, << <<src, 1>> >>, {src}, << <<src, -1, src, 0>> >>, TRUE)
\* every undirected forest: the parent of a node, when each component hangs from its least node
RECURSIVE ParentMap(_, _, _)
ParentMap(A, todo, P) == IF todo = {} THEN P
  ELSE LET u == CHOOSE x \in todo : TRUE K == {v \in Heads(A, u) : v # P[u]}
       IN ParentMap(A, (todo \ {u}) \cup K, TLCEval([v \in DOMAIN P |-> IF v \in K THEN u ELSE P[v]]))
RECURSIVE Roots(_, _, _)
Roots(A, todo, acc) == IF todo = {} THEN acc ELSE LET u == CHOOSE x \in todo : \A y \in todo : x <= y IN Roots(A, TLCEval(todo \ CloF(A, {u}, {u})), acc \cup {u})
Parents(A) == LET roots == Roots(A, V(A), {}) IN ParentMap(A, roots, [v \in V(A) |-> -1])
RECURSIVE Up(_, _)
Up(P, v) == IF v = -1 THEN <<>> ELSE <<v>> \o Up(P, P[v])
ParentsOk(A, p) == Len(p) = N(A) /\ LET P == Parents(A) IN \A v \in V(A) : p[v + 1] = P[v]
\* chains up to the root, root first
RECURSIVE Rev(_)
Rev(q) == IF q = <<>> THEN <<>> ELSE Append(Rev(Tail(q)), Head(q))
Lca(U, u, v) == LET a == Rev(U[u]) b == Rev(U[v]) m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                    K == {k \in 0..m : \A i \in 1..k : a[i] = b[i]} k == CHOOSE x \in K : \A y \in K : y <= x
                IN IF k = 0 THEN -1 ELSE a[k]
LcaOk(A, dep, q) ==
  LET P == Parents(A) U == TLCEval([v \in V(A) |-> Up(P, v)]) IN
  /\ Len(dep) = N(A) /\ \A v \in V(A) : dep[v + 1] = Len(U[v]) - 1
  /\ \A k \in 1..Len(q) : LET u == q[k][1] v == q[k][2] IN
       IF u \in V(A) /\ v \in V(A)
       THEN LET a == Lca(U, u, v) IN q[k][3] = a /\ q[k][4] = IF a = -1 THEN -1 ELSE Len(U[u]) + Len(U[v]) - 2 * Len(U[a])
       ELSE q[k][3] = -1 /\ q[k][4] = -1
Hld(A, B, pos, node, cpar, sz) ==
  LET P == Parents(A) U == TLCEval([v \in V(A) |-> Up(P, v)])
      UU == TLCEval([v \in V(A) |-> {U[v][k] : k \in 1..Len(U[v])}])
      SubM == TLCEval([u \in V(A) |-> {v \in V(A) : u \in UU[v]}])
      KidM == TLCEval([u \in V(A) |-> {v \in V(A) : P[v] = u}])
      Sub(u) == SubM[u]
      Kids(u) == KidM[u]
      heavy(v) == P[v] # -1 /\ cpar[v + 1] # P[v]
  IN /\ Len(pos) = N(A) /\ \A v \in V(A) : pos[v + 1] \in V(A) /\ node[pos[v + 1] + 1] = v
     /\ \A u \in V(A) : sz[u + 1] = Cardinality(Sub(u)) /\ {pos[v + 1] : v \in Sub(u)} = pos[u + 1]..(pos[u + 1] + sz[u + 1] - 1)
     /\ \A u \in V(A) : /\ P[u] = -1 => cpar[u + 1] = -1
                        /\ heavy(u) => pos[u + 1] = pos[P[u] + 1] + 1 /\ cpar[u + 1] = cpar[P[u] + 1]
                        /\ Kids(u) # {} => /\ Cardinality({v \in Kids(u) : heavy(v)}) = 1
                                           /\ \A v \in Kids(u) : heavy(v) => \A w \in Kids(u) : sz[w + 1] <= sz[v + 1]
     /\ Len(B) = N(A) /\ \A u \in V(A) : SameBag(A[u + 1], B[u + 1])
\* the nodes of the path from u to v, and for the edges of the path the lower endpoint of each
PathNodes(U, u, v) == LET a == Lca(U, u, v) ku == Len(U[u]) - Len(U[a]) kv == Len(U[v]) - Len(U[a])
                      IN SubSeq(U[u], 1, ku + 1) \o Rev(SubSeq(U[v], 1, kv))
PathEdges(U, u, v) == LET a == Lca(U, u, v) ku == Len(U[u]) - Len(U[a]) kv == Len(U[v]) - Len(U[a])
                      IN SubSeq(U[u], 1, ku) \o Rev(SubSeq(U[v], 1, kv))
\* segs: <<chain_begin, chain_end, path_first, path_last, path_length, direction>>
Walk(node, path, ret, segs) ==
  /\ ret = Len(path)
  /\ \A k \in 1..Len(segs) : LET s == segs[k] IN
       /\ s[2] - s[1] >= 1 /\ s[5] = Len(path)
       /\ IF s[6] = 1 THEN s[3] - s[4] = s[2] - s[1] - 1 ELSE s[4] - s[3] = s[2] - s[1] - 1
       /\ \A i \in 0..(s[2] - s[1] - 1) : LET j == IF s[6] = 1 THEN s[3] - i ELSE s[3] + i
                                          IN j \in 0..(Len(path) - 1) /\ s[1] + i \in 0..(Len(node) - 1) /\ node[s[1] + i + 1] = path[j + 1]
  /\ SumF([k \in 1..Len(segs) |-> segs[k][2] - segs[k][1]], Len(segs)) = Len(path)
  /\ \A j \in 0..(Len(path) - 1) : \E k \in 1..Len(segs) : IF segs[k][6] = 1 THEN segs[k][4] <= j /\ j <= segs[k][3] ELSE segs[k][3] <= j /\ j <= segs[k][4]
HldEx(A, node, kp, walks) ==
  LET P == Parents(A) U == TLCEval([v \in V(A) |-> Up(P, v)]) IN
  /\ \A k \in 1..Len(kp) : kp[k][3] = IF kp[k][2] < 0 \/ kp[k][2] >= Len(U[kp[k][1]]) THEN -1 ELSE U[kp[k][1]][kp[k][2] + 1]
  /\ \A k \in 1..Len(walks) : LET w == walks[k] IN Walk(node, IF w.nodes = 1 THEN PathNodes(U, w.u, w.v) ELSE PathEdges(U, w.u, w.v), w.ret, w.segs)
\* ---------------------------------------------------------------- C18
\* cap and flow are square matrices; net[u][v] is the flow actually sent along u->v
RECURSIVE ResClo(_, _, _)
ResClo(c, f, S) == LET T == TLCEval(S \cup {v \in 1..Len(c) : \E u \in S : c[u][v] > f[u][v] \/ f[v][u] > 0}) IN IF T = S THEN S ELSE ResClo(c, f, T)
Sum2(M, u) == SumF(M[u], Len(M))
ColSum(M, v) == SumF([u \in 1..Len(M) |-> M[u][v]], Len(M))
\* a maximum flow: admissible, conserving, of the stated value, with no augmenting path left
MaxFlow(c, s, t, f, val) ==
  LET n == Len(c) I == 1..n IN
  /\ \A u, v \in I : u = v \/ (0 <= f[u][v] /\ f[u][v] <= c[u][v])
  /\ \A u \in I \ {s + 1, t + 1} : Sum2(f, u) = ColSum(f, u)
  /\ val = Sum2(f, s + 1) - ColSum(f, s + 1)
  /\ (t + 1) \notin ResClo(c, f, {s + 1})
\* the push-relabel form: antisymmetric net flow
MaxFlowNet(c, s, t, f, val) ==
  LET n == Len(c) I == 1..n p == [u \in I |-> [v \in I |-> IF f[u][v] > 0 THEN f[u][v] ELSE 0]] IN
  /\ \A u, v \in I : f[u][v] = -f[v][u] /\ (u = v \/ f[u][v] <= c[u][v])
  /\ \A u \in I \ {s + 1, t + 1} : Sum2(f, u) = 0
  /\ val = Sum2(f, s + 1)
  /\ LET q == [u \in I |-> [v \in I |-> c[u][v] - f[u][v]]] IN (t + 1) \notin ResClo(q, [u \in I |-> [v \in I |-> 0]], {s + 1})
\* brute-force minimum cut, for the smallest networks
CutCap(c, S) == SumF([u \in 1..Len(c) |-> IF u \in S THEN SumF([v \in 1..Len(c) |-> IF v \in S THEN 0 ELSE c[u][v]], Len(c)) ELSE 0], Len(c))
MinCut(c, s, t) == LET C == {CutCap(c, S \cup {s + 1}) : S \in SUBSET ((1..Len(c)) \ {s + 1, t + 1})} IN CHOOSE m \in C : \A x \in C : m <= x
\* matching: sel is a sub-bag of the edge list E with no common ends and of maximum size (edges go from left to right nodes)
RECURSIVE MaxMatch(_, _)
MaxMatch(E, L) == IF L = {} THEN 0 ELSE LET u == CHOOSE x \in L : TRUE E1 == {e \in E : e[1] # u}
  IN LET c == {MaxMatch(E1, L \ {u})} \cup {1 + MaxMatch({x \in E1 : x[2] # e[2]}, L \ {u}) : e \in {x \in E : x[1] = u}} IN CHOOSE m \in c : \A x \in c : x <= m
\* a matching is maximum iff no alternating path joins two unmatched nodes (Berge): the nodes such paths reach from the left
RECURSIVE AltL(_, _, _)
AltL(S, M, X) == LET Y == TLCEval({e[2] : e \in {z \in S : z[1] \in X}}) Z == TLCEval(X \cup {m[1] : m \in {z \in M : z[2] \in Y}}) IN IF Z = X THEN Y ELSE AltL(S, M, Z)
NoAugment(S, M) == LET free == {e[1] : e \in S} \ {m[1] : m \in M} IN AltL(S, M, free) \subseteq {m[2] : m \in M}
Matching(E, sel) ==
  /\ \A k \in 1..Len(sel) : \E i \in 1..Len(E) : E[i] = sel[k]
  /\ \A i, j \in 1..Len(sel) : i # j => sel[i][1] # sel[j][1] /\ sel[i][2] # sel[j][2]
  /\ LET S == {<<E[i][1], E[i][2]>> : i \in 1..Len(E)} IN /\ NoAugment(S, {sel[k] : k \in 1..Len(sel)}) /\ (Cardinality({e[1] : e \in S}) <= 6 => Len(sel) = MaxMatch(S, {e[1] : e \in S}))
\* a permutation is a cheapest assignment iff exchanging along no cycle makes it cheaper: shortest exchange walks, Floyd-Warshall
RECURSIVE Shortest(_, _, _)
Shortest(D, n, k) == IF k > n THEN D ELSE Shortest(TLCEval([p \in (1..n) \X (1..n) |-> LET z == D[<<p[1], k>>] + D[<<k, p[2]>>] IN IF z < D[p] THEN z ELSE D[p]]), n, k + 1)
NoCheaperCycle(c, xy) == LET n == Len(c) D == Shortest(TLCEval([p \in (1..n) \X (1..n) |-> c[p[1]][xy[p[2]] + 1] - c[p[1]][xy[p[1]] + 1]]), n, 1) IN \A x \in 1..n : D[<<x, x>>] >= 0
RECURSIVE BestAssign(_, _, _)
BestAssign(c, x, Y) == IF Y = {} THEN 0 ELSE LET B == {c[x][y] + BestAssign(c, x + 1, Y \ {y}) : y \in Y} IN CHOOSE m \in B : \A z \in B : z <= m
Assign(c, minimise, val, xy, yx) ==
  LET n == Len(c) d == IF minimise = 1 THEN [x \in 1..n |-> [y \in 1..n |-> -c[x][y]]] ELSE c IN
  /\ \A x \in 1..n : xy[x] \in 0..(n - 1) /\ yx[xy[x] + 1] = x - 1
  /\ val = SumF([x \in 1..n |-> c[x][xy[x] + 1]], n)
  /\ NoCheaperCycle([x \in 1..n |-> [y \in 1..n |-> -d[x][y]]], xy)
  /\ (n <= 6 => (IF minimise = 1 THEN -val ELSE val) = BestAssign(d, 1, 1..n))
\* ---------------------------------------------------------------- C19: simple undirected graphs
Edges(A) == {<<u, v>> \in V(A) \X V(A) : u < v /\ v \in Heads(A, u)}
\* component labels (least member) after removing the nodes in X and the edge e
RECURSIVE CloX(_, _, _, _, _)
CloX(A, X, e, F, S) == IF F = {} THEN S ELSE LET G == TLCEval((UNION {{v \in Heads(A, u) \ X : <<u, v>> # e /\ <<v, u>> # e} : u \in F}) \ S) IN CloX(A, X, e, G, TLCEval(S \cup G))
Comp(A, X, e, u) == CloX(A, X, e, {u}, {u})
NumComps(A, X, e) == Cardinality({u \in V(A) \ X : \A v \in Comp(A, X, e, u) : u <= v})
Bridge(A, e) == e[2] \notin Comp(A, {}, e, e[1])
CutVertex(A, u) == NumComps(A, {u}, <<>>) > NumComps(A, {}, <<>>)
\* two edges are in one block iff no single node separates them
SameBlock(A, L, e, f) == \A w \in V(A) : \E a \in {e[1], e[2]} \ {w}, b \in {f[1], f[2]} \ {w} : L[w][a] = L[w][b]
Least(S) == CHOOSE m \in S : \A x \in S : m <= x
Blocks(A) == LET L == TLCEval([w \in V(A) |-> [u \in V(A) \ {w} |-> Least(Comp(A, {w}, <<>>, u))]])
                 E == Edges(A)
             IN {{f \in E : SameBlock(A, L, e, f)} : e \in E}
Ends(F) == UNION {{e[1], e[2]} : e \in F}
Norm(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
ChainEdges(c) == {Norm(c[i], c[i + 1]) : i \in 1..(Len(c) - 1)}
\* [component][block][chain][vertex]; dec is the decomposition with its component level
ChainDec(A, dec) ==
  LET flat == UNION {UNION {{<<i, j, k>> : k \in 1..Len(dec[i][j])} : j \in 1..Len(dec[i])} : i \in 1..Len(dec)}
      C(x) == dec[x[1]][x[2]][x[3]]
      E == Edges(A)
      bl == TLCEval({F \in Blocks(A) : Cardinality(F) > 1})
  IN /\ Len(dec) = NumComps(A, {}, <<>>)
     /\ \A x \in flat : Len(C(x)) >= 2 /\ ChainEdges(C(x)) \subseteq E
     /\ \A x \in flat : Cardinality(ChainEdges(C(x))) = Len(C(x)) - 1
     /\ \A x, y \in flat : x # y => ChainEdges(C(x)) \cap ChainEdges(C(y)) = {}
     /\ \A x \in flat : LET c == C(x) IN IF x[3] = 1 THEN c[1] = c[Len(c)] /\ Cardinality({c[i] : i \in 1..Len(c)}) = Len(c) - 1
                                         ELSE Cardinality({c[i] : i \in 1..Len(c)}) = Len(c)
     /\ {UNION {ChainEdges(dec[i][j][k]) : k \in 1..Len(dec[i][j])} : <<i, j>> \in UNION {{<<p, q>> : q \in 1..Len(dec[p])} : p \in 1..Len(dec)}} = bl
     /\ SumF([i \in 1..Len(dec) |-> Len(dec[i])], Len(dec)) = Cardinality(bl)
     /\ \A i \in 1..Len(dec) : \A j, k \in 1..Len(dec[i]) : Comp(A, {}, <<>>, dec[i][j][1][1]) = Comp(A, {}, <<>>, dec[i][k][1][1])
\* the blocks reported are those with more than one edge; t is the block-cut tree, idx maps nodes to it
Bicon(A, ce, cv, bc, t, idx) ==
  LET bl == TLCEval({F \in Blocks(A) : Cardinality(F) > 1})
      nb == Len(bc) nv == Len(cv)
      cvs == TLCEval({cv[k] : k \in 1..nv})
      inb(u) == {i \in 1..nb : \E k \in 1..Len(bc[i]) : bc[i][k] = u}
      TE == TLCEval({<<idx[cv[k] + 1], i - 1>> : <<k, i>> \in {<<k, i>> \in (1..nv) \X (1..nb) : i \in inb(cv[k])}}
            \cup {<<idx[ce[k][1] + 1], idx[ce[k][2] + 1]>> : k \in 1..Len(ce)})
  IN /\ {<<ce[k][1], ce[k][2]>> : k \in 1..Len(ce)} = {e \in Edges(A) : Bridge(A, e)} /\ Len(ce) = Cardinality({e \in Edges(A) : Bridge(A, e)})
     /\ cvs = {u \in V(A) : CutVertex(A, u)} /\ nv = Cardinality(cvs)
     /\ {{bc[i][k] : k \in 1..Len(bc[i])} : i \in 1..nb} = {Ends(F) : F \in bl} /\ nb = Cardinality(bl)
     /\ \A i \in 1..nb : Cardinality({bc[i][k] : k \in 1..Len(bc[i])}) = Len(bc[i])
     \* the tree: blocks first, then cut vertices in their order, then the remaining nodes one each
     /\ Len(idx) = N(A)
     /\ \A k \in 1..nv : idx[cv[k] + 1] = nb + k - 1
     /\ LET rest == {u \in V(A) : u \notin cvs /\ inb(u) = {}}
        IN /\ \A u \in V(A) \ (cvs \cup rest) : inb(u) = {idx[u + 1] + 1}
           /\ {idx[u + 1] : u \in rest} = (nb + nv)..(nb + nv + Cardinality(rest) - 1)
           /\ Len(t) = nb + nv + Cardinality(rest)
     /\ \A x \in V(t) : LET H == {y \in V(t) : <<x, y>> \in TE \/ <<y, x>> \in TE} IN Heads(t, x) = H /\ Len(t[x + 1]) = Cardinality(H)
     \* and it is a forest with one tree for each component
     /\ SumF([x \in 1..Len(t) |-> Len(t[x])], Len(t)) = 2 * (Len(t) - NumComps(A, {}, <<>>))
     /\ NumComps(t, {}, <<>>) = NumComps(A, {}, <<>>)
\* ---------------------------------------------------------------- C20: chromatic polynomial, by evaluation
\* part[j]: the number of partitions of the nodes into j independent classes; a colouring with k colours is such a
\* partition with an injective choice of colours
Indep(A, u, S) == \A v \in S : v \notin Heads(A, u) /\ u \notin Heads(A, v)
RECURSIVE Parts(_, _, _, _), PartsIn(_, _, _, _, _)
Parts(A, j, u, cl) == IF Len(cl) > j THEN 0 ELSE IF u = N(A) THEN (IF Len(cl) = j THEN 1 ELSE 0)
                      ELSE Parts(A, j, u + 1, Append(cl, {u})) + PartsIn(A, j, u, cl, 1)
PartsIn(A, j, u, cl, i) == IF i > Len(cl) THEN 0 ELSE (IF Indep(A, u, cl[i]) THEN Parts(A, j, u + 1, [cl EXCEPT ![i] = @ \cup {u}]) ELSE 0) + PartsIn(A, j, u, cl, i + 1)
RECURSIVE Falling(_, _)
Falling(k, j) == IF j = 0 THEN 1 ELSE k * Falling(k - 1, j - 1)
PartCounts(A) == TLCEval([j \in 1..N(A) |-> Parts(A, j, 0, <<>>)])
Colourings(PC, n, k) == IF n = 0 THEN 1 ELSE SumF([j \in 1..n |-> PC[j] * Falling(k, j)], n)
RECURSIVE EvalAt(_, _, _)
EvalAt(p, k, i) == IF i > Len(p) THEN 0 ELSE p[i] + k * EvalAt(p, k, i + 1)
Loopless(A) == \A u \in V(A) : u \notin Heads(A, u)
\* the degree is the number of nodes, so n+1 values determine the polynomial
Chromatic(A, p) == /\ Len(p) = N(A) + 1 /\ p[N(A) + 1] = 1
                   /\ LET PC == PartCounts(A) IN \A k \in 0..N(A) : EvalAt(p, k, 1) = IF Loopless(A) THEN Colourings(PC, N(A), k) ELSE 0
\* comparison is that of the adjacency lists (heads only), == and <
RECURSIVE LexLess(_, _)
LexLess(p, q) == IF p = <<>> THEN q # <<>> ELSE IF q = <<>> THEN FALSE ELSE IF p[1] < q[1] THEN TRUE ELSE IF q[1] < p[1] THEN FALSE ELSE LexLess(Tail(p), Tail(q))
RECURSIVE LexLess2(_, _)
LexLess2(p, q) == IF p = <<>> THEN q # <<>> ELSE IF q = <<>> THEN FALSE ELSE IF LexLess(p[1], q[1]) THEN TRUE ELSE IF LexLess(q[1], p[1]) THEN FALSE ELSE LexLess2(Tail(p), Tail(q))
Hd(A) == [i \in 1..Len(A) |-> [k \in 1..Len(A[i]) |-> A[i][k][1]]]
GCmp(a, b, eq, lt) == eq = B01(Hd(a) = Hd(b)) /\ lt = B01(LexLess2(Hd(a), Hd(b)))
\* ----------------------------------------------------------------
Step(e) == CASE e.f = "dijkstra" -> ShortestTree(e.a, e.src, e.inf, e.r)
             [] e.f = "floyd" -> AllPairs(e.a, e.inf, e.r)
             [] e.f = "prim" -> SpanningTree(e.a, e.root, e.inf, e.r)
             [] e.f = "scc" -> Scc(e.a, e.r)
             [] e.f = "topo" -> Topo(e.a, e.deg, e.r)
             [] e.f = "closure" -> Closure(e.a, e.r)
             [] e.f = "reduction" -> Reduction(e.a, e.r)
             [] e.f = "sat2" -> Sat2(e.cl, e.pre, e.r, e.sol)
             [] e.f = "sat2v" -> Sat2v(e.cl, e.sol)
             [] e.f = "dfs" -> DfsRun(e.a, {e.rej[k] : k \in 1..Len(e.rej)}, e.src, e.ev)
             [] e.f = "parents" -> ParentsOk(e.a, e.r)
             [] e.f = "lca" -> LcaOk(e.a, e.dep, e.q)
             [] e.f = "hld" -> Hld(e.a, e.b, e.pos, e.node, e.cpar, e.sz)
             [] e.f = "hldex" -> HldEx(e.a, e.node, e.kp, e.walks)
             [] e.f = "dinic" -> MaxFlow(e.c, e.s, e.t, e.flow, e.val) /\ (Len(e.c) <= 6 => e.val = MinCut(e.c, e.s, e.t))
             [] e.f = "pushrelabel" -> MaxFlowNet(e.c, e.s, e.t, e.flow, e.val) /\ (Len(e.c) <= 6 => e.val = MinCut(e.c, e.s, e.t))
             [] e.f = "matching" -> Matching(e.e, e.sel)
             [] e.f = "assign" -> Assign(e.c, e.min, e.val, e.xy, e.yx)
             [] e.f = "chains" -> ChainDec(e.a, e.dec)
             [] e.f = "bicon" -> Bicon(e.a, e.ce, e.cv, e.bc, e.t, e.idx)
             [] e.f = "chromatic" -> Chromatic(e.a, e.p)
             [] e.f = "gcmp" -> GCmp(e.a, e.b, e.eq, e.lt)
\* ---------------------------------------------------------------- the certificates used above, checked against brute force
CONSTANT MaxN
\* all undirected weighted graphs on n nodes, weights 0 (absent), 1, 2
Pairs(n) == {<<u, v>> \in (0..(n - 1)) \X (0..(n - 1)) : u < v}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
OfW(n, w) == [i \in 1..n |-> LET P == {v \in 0..(n - 1) : v # i - 1 /\ w[Norm(i - 1, v)] > 0} q == SetSeq(P) IN [k \in 1..Len(q) |-> <<q[k], w[Norm(i - 1, q[k])]>>]]
LInit == \E n \in 1..MaxN : \E w \in [Pairs(n) -> 0..2] : out = [f |-> "lemma", n |-> n, w |-> w]
LNext == FALSE /\ UNCHANGED vars
RECURSIVE SumSet(_, _)
SumSet(w, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN w[x] + SumSet(w, S \ {x})
Lemma ==
  LET n == out.n w == out.w A == OfW(n, w) E == {p \in Pairs(n) : w[p] > 0}
      Sub(T) == OfW(n, [p \in Pairs(n) |-> IF p \in T THEN w[p] ELSE 0])
      c == NumComps(A, {}, <<>>)
      trees == {T \in SUBSET E : Cardinality(T) = n - c /\ NumComps(Sub(T), {}, <<>>) = c}
      best == LET S == {SumSet(w, T) : T \in trees} IN Least(S)
  IN \* the threshold criterion characterises the minimum spanning forests
     /\ \A T \in trees : (SumSet(w, T) = best) =
           (\A t \in 1..2 : Cardinality({p \in T : w[p] <= t}) = n - CompsIn(A, t, V(A)))
     \* blocks by separation: they partition the edges, two share at most one node, and that is a cut vertex
     /\ LET B == Blocks(A) IN /\ UNION B = E
                              /\ \A F, G \in B : F # G => F \cap G = {} /\ Cardinality(Ends(F) \cap Ends(G)) <= 1
                              /\ \A u \in V(A) : CutVertex(A, u) = (\E F, G \in B : F # G /\ u \in Ends(F) /\ u \in Ends(G))
     \* proper colourings counted through partitions
     /\ LET PC == PartCounts(A) IN \A k \in 0..3 : Colourings(PC, n, k) = Cardinality({f \in [0..(n - 1) -> 1..k] : \A e \in E : f[e[1]] # f[e[2]]})
     /\ LET B == Blocks(A) IN \A e \in E : Bridge(A, e) = ({e} \in B)
\* the two certificates of C18 on all small instances
MInit == \/ \E n \in 1..3 : \E S \in SUBSET ((0..(n - 1)) \X (10..11)) : out = [f |-> "match", s |-> S]
         \/ \E n \in 1..(MaxN - 1) : \E c \in [1..n -> [1..n -> 0..(IF n = 3 THEN 1 ELSE 3)]] : out = [f |-> "assign", c |-> c]
Matchings(S) == {M \in SUBSET S : \A a, b \in M : a # b => a[1] # b[1] /\ a[2] # b[2]}
MLemma ==
  IF out.f = "match" THEN LET S == out.s k == MaxMatch(S, {e[1] : e \in S}) IN \A M \in Matchings(S) : Cardinality(M) <= k /\ NoAugment(S, M) = (Cardinality(M) = k)
  ELSE LET c == out.c n == Len(c) neg == [x \in 1..n |-> [y \in 1..n |-> -c[x][y]]] best == BestAssign(neg, 1, 1..n)
       IN \A xy \in {p \in [1..n -> 0..(n - 1)] : Cardinality({p[x] : x \in 1..n}) = n} : NoCheaperCycle(c, xy) = (SumF([x \in 1..n |-> neg[x][xy[x] + 1]], n) = best)
=============================================================================
