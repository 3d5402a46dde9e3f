------------------------------ MODULE RangeTree ------------------------------
(* segment_tree, lazy_segment_tree, fenwick_tree over the most discriminating *)
(* monoid: the fold of a range is the *word* of its elements (free monoid),   *)
(* for the Fenwick tree the *bag* of its elements (free commutative monoid).  *)
(* An element 0 is the identity (never set).                                  *)
EXTENDS Pick
CONSTANTS Sizes, Impls
VARIABLES arr, im, out
vars == <<arr, im, out>>
N == Len(arr)
Word(b, e) == SelectSeq(SubSeq(arr, b + 1, e), LAMBDA x : x # 0)
RECURSIVE InsS(_, _)
InsS(b, x) == IF b = <<>> THEN <<x>> ELSE IF x < b[1] THEN <<x>> \o b ELSE <<b[1]>> \o InsS(Tail(b), x)
RECURSIVE SortS(_)
SortS(b) == IF b = <<>> THEN <<>> ELSE InsS(SortS(Tail(b)), b[1])
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
Zero(i) == IF i = "fenwick" THEN <<>> ELSE 0
\* built empty, or from a range of elements
Start(i, n, vs) ==
  /\ im' = i /\ arr' = IF vs = <<>> THEN [x \in 1..n |-> Zero(i)] ELSE vs
  /\ out' = [op |-> "start", impl |-> i, n |-> n, vs |-> vs]
Upd(a, args) == arr' = a /\ out' = args /\ UNCHANGED im
Query(r, args) == out' = args @@ [r |-> r] /\ UNCHANGED <<arr, im>>
Get(b, e) == im # "fenwick" /\ b \in 0..N /\ e \in b..N /\ Query(Word(b, e), [op |-> "get", b |-> b, e |-> e])
GetAt(b) == im = "seg" /\ b \in 0..(N - 1) /\ Query(Word(b, b + 1), [op |-> "getat", b |-> b])
Set(b, v) == im = "seg" /\ b \in 0..(N - 1) /\ Upd([arr EXCEPT ![b + 1] = v], [op |-> "set", b |-> b, v |-> v])
\* in-place modification of a range, then the documented rebuild (whole, range, or single index)
Write(b, vs, how) ==
  /\ im # "fenwick" /\ b \in 0..N /\ b + Len(vs) <= N /\ how \in {"all", "range", "index"}
  /\ (how = "index" => Len(vs) = 1 /\ im = "seg") /\ (how = "range" => Len(vs) > 0)
  /\ Upd([i \in 1..N |-> IF i > b /\ i <= b + Len(vs) THEN vs[i - b] ELSE arr[i]], [op |-> "write", b |-> b, vs |-> vs, how |-> how])
\* lazy range updates: affine map x -> a x + c (mod 11) on 1..11, and x -> min(x, c), which a node
\* may refuse unless it is uniform
Aff(x, a, c) == IF x = 0 THEN 0 ELSE (((x - 1) * a + c) % 11) + 1
LAff(b, e, a, c) == /\ im = "lazy" /\ b \in 0..N /\ e \in b..N
                    /\ Upd([i \in 1..N |-> IF i > b /\ i <= e THEN Aff(arr[i], a, c) ELSE arr[i]], [op |-> "aff", b |-> b, e |-> e, a |-> a, c |-> c])
LMin(b, e, c) == /\ im = "lazy" /\ b \in 0..N /\ e \in b..N
                 /\ Upd([i \in 1..N |-> IF i > b /\ i <= e /\ arr[i] > c THEN c ELSE arr[i]], [op |-> "min", b |-> b, e |-> e, c |-> c])
Add(b, v) == im = "fenwick" /\ b \in 0..(N - 1) /\ Upd([arr EXCEPT ![b + 1] = Append(@, v)], [op |-> "add", b |-> b, v |-> v])
Sum(b) == im = "fenwick" /\ b \in -1..(N - 1) /\ Query(SortS(Cat(SubSeq(arr, 1, b + 1))), [op |-> "sum", b |-> b])
Reset == im = "fenwick" /\ Upd([i \in 1..N |-> <<>>], [op |-> "reset"])
Step(e) == CASE e.op = "start" -> Start(e.impl, e.n, e.vs) [] e.op = "get" -> Get(e.b, e.e) [] e.op = "getat" -> GetAt(e.b)
  [] e.op = "set" -> Set(e.b, e.v) [] e.op = "write" -> Write(e.b, e.vs, e.how) [] e.op = "aff" -> LAff(e.b, e.e, e.a, e.c)
  [] e.op = "min" -> LMin(e.b, e.e, e.c) [] e.op = "add" -> Add(e.b, e.v) [] e.op = "sum" -> Sum(e.b) [] e.op = "reset" -> Reset
Init == arr = <<>> /\ im = "seg" /\ out = [op |-> "init"]
GenInit == Init
DoStart == \E i \in P(Impls), n \in P(Sizes), f \in P({0, 1}) :
             IF i = "fenwick" \/ f = 0 \/ n = 0 THEN Start(i, n, <<>>) ELSE \E vs \in P({[x \in 1..n |-> 1 + ((x * k + m) % 11)] : k \in {1, 3, 7}, m \in {0, 5}}) : Start(i, n, vs)
Rng == {<<b, e>> \in (0..N) \X (0..N) : b <= e}
DoGet == \E b \in P(0..N) : \E e \in P(b..N) : Get(b, e)
DoSet == \E b \in P(0..(N - 1)), v \in P(0..11) : Set(b, v)
DoWrite == \E b \in P(0..N), h \in P({"all", "range", "index"}) : \E k \in P(0..(IF N - b < 4 THEN N - b ELSE 4)) :
             \E x \in P(0..11), y \in P(0..3) : Write(b, [i \in 1..k |-> (x + i * y) % 12], h)
DoAff == \E b \in P(0..N) : \E e \in P(b..N), a \in P({0, 1, 1, 2, 5}), c \in P(0..10) : LAff(b, e, a, c)
DoMin == \E b \in P(0..N) : \E e \in P(b..N), c \in P(1..11) : LMin(b, e, c)
DoAdd == \E b \in P(0..(N - 1)), v \in P(1..11) : Add(b, v)
DoSum == \E b \in P(-1..(N - 1)) : Sum(b)
DoGetAt == \E b \in P(0..(N - 1)) : GetAt(b)
Next == DoStart \/ DoGet \/ DoGetAt \/ DoSet \/ DoWrite \/ DoAff \/ DoMin \/ DoAdd \/ DoSum \/ Reset
SegNext == DoGet \/ DoGet \/ DoGetAt \/ DoSet \/ DoSet \/ DoWrite
LazyNext == DoGet \/ DoGet \/ DoAff \/ DoAff \/ DoMin \/ DoWrite
FenNext == DoAdd \/ DoAdd \/ DoAdd \/ DoAdd \/ DoSum \/ DoSum \/ DoSum \/ DoSum \/ (N % 3 = 0 /\ Reset)
GenNext == IF out.op = "init" THEN DoStart ELSE IF im = "seg" THEN SegNext ELSE IF im = "lazy" THEN LazyNext ELSE FenNext
\* folding a range splits at any point
Splits == im # "fenwick" => \A b \in 0..N : \A e \in b..N : \A m \in b..e : Word(b, e) = Word(b, m) \o Word(m, e)
Dom == im # "fenwick" => \A i \in 1..N : arr[i] \in 0..11
Slim(e) == [f \in (DOMAIN e) \cap {"op", "impl", "n", "vs", "b", "e", "v", "how", "a", "c"} |-> e[f]]
=============================================================================
