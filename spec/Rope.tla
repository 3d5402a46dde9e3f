-------------------------------- MODULE Rope --------------------------------
(* A rope is a sequence with positional edits; a second rope is only used for *)
(* comparisons. Iterators are positions.                                      *)
EXTENDS Pick
CONSTANTS Vals, MaxLen, Impls
VARIABLES s, out
vars == <<s, out>>
Rev(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
Obs(x) == [items |-> x, rev |-> Rev(x), at |-> x, size |-> Len(x), empty |-> B01(x = <<>>),
           pos |-> [i \in 1..(Len(x) + 1) |-> i - 1]]
Emit(args, x) == s' = x /\ out' = args @@ Obs(x)
Start(im, init) == s' = init /\ out' = [op |-> "start", impl |-> im, init |-> init]
Push(v) == Emit([op |-> "push", v |-> v], Append(s, v))
Ins(p, v) == p \in 0..Len(s) /\ Emit([op |-> "ins", p |-> p, v |-> v], SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s)))
InsIt(p, v) == p \in 0..Len(s) /\ Emit([op |-> "insit", p |-> p, v |-> v], SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s)))
Del(p) == p \in 0..(Len(s) - 1) /\ Emit([op |-> "del", p |-> p], SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s)))
DelR(b, e) == b \in 0..Len(s) /\ e \in b..Len(s) /\ Emit([op |-> "delr", b |-> b, e |-> e], SubSeq(s, 1, b) \o SubSeq(s, e + 1, Len(s)))
Set(p, v) == p \in 0..(Len(s) - 1) /\ Emit([op |-> "set", p |-> p, v |-> v], [s EXCEPT ![p + 1] = v])
SetIt(p, v) == p \in 0..(Len(s) - 1) /\ Emit([op |-> "setit", p |-> p, v |-> v], [s EXCEPT ![p + 1] = v])
Clr == Emit([op |-> "clr"], <<>>)
\* iterator arithmetic between positions i and j
Iter(i, j) == /\ i \in 0..Len(s) /\ j \in 0..Len(s) /\ s' = s
              /\ out' = [op |-> "iter", i |-> i, j |-> j, diff |-> j - i, plus |-> j, minus |-> j, lt |-> B01(i < j), le |-> B01(i <= j),
                         gt |-> B01(i > j), ge |-> B01(i >= j), eq |-> B01(i = j),
                         deref |-> IF j < Len(s) THEN <<s[j + 1]>> ELSE <<>>]
RECURSIVE Cmp3(_, _)
Cmp3(a, b) == IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
              ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE Cmp3(Tail(a), Tail(b))
Cmp(b) == LET c == Cmp3(s, b) IN s' = s /\ out' = [op |-> "cmp", b |-> b, eq |-> B01(c = 0), ne |-> B01(c # 0), lt |-> B01(c < 0),
                                                   gt |-> B01(c > 0), le |-> B01(c <= 0), ge |-> B01(c >= 0)]
Step(e) == CASE e.op = "start" -> Start(e.impl, e.init) [] e.op = "push" -> Push(e.v) [] e.op = "ins" -> Ins(e.p, e.v)
  [] e.op = "insit" -> InsIt(e.p, e.v) [] e.op = "del" -> Del(e.p) [] e.op = "delr" -> DelR(e.b, e.e) [] e.op = "set" -> Set(e.p, e.v)
  [] e.op = "setit" -> SetIt(e.p, e.v) [] e.op = "clr" -> Clr [] e.op = "iter" -> Iter(e.i, e.j) [] e.op = "cmp" -> Cmp(e.b)
Init == s = <<>> /\ out = [op |-> "init"]
GenInit == \E im \in Impls, n \in {0, 1, 7} : s = [i \in 1..n |-> 1 + (i % 3)] /\ out = [op |-> "start", impl |-> im, init |-> [i \in 1..n |-> 1 + (i % 3)]]
Room == Len(s) < MaxLen
DoPush == Room /\ \E v \in P(Vals) : Push(v)
DoIns == Room /\ \E p \in P(0..Len(s)), v \in P(Vals) : Ins(p, v)
DoInsIt == Room /\ \E p \in P(0..Len(s)), v \in P(Vals) : InsIt(p, v)
DoDel == \E p \in P(0..(Len(s) - 1)) : Del(p)
DoDelR == \E b \in P(0..Len(s)) : \E e \in P(b..(IF b + 5 < Len(s) THEN b + 5 ELSE Len(s))) : DelR(b, e)
DoSet == \E p \in P(0..(Len(s) - 1)), v \in P(Vals) : Set(p, v) \/ SetIt(p, v)
DoIter == \E i \in P(0..Len(s)), j \in P(0..Len(s)) : Iter(i, j)
\* comparisons against near misses of the current contents
DoCmp == \/ Cmp(s) \/ (Len(s) > 0 /\ Cmp(SubSeq(s, 1, Len(s) - 1))) \/ \E v \in P(Vals) : Cmp(Append(s, v))
         \/ \E p \in P(0..(Len(s) - 1)), v \in P(Vals) : Cmp([s EXCEPT ![p + 1] = v])
Next == DoPush \/ DoIns \/ DoInsIt \/ DoDel \/ DoDelR \/ DoSet \/ Clr \/ DoIter \/ DoCmp
GenNext == DoPush \/ DoIns \/ DoIns \/ DoIns \/ DoInsIt \/ DoInsIt \/ DoDel \/ DoDel \/ DoSet \/ DoIter \/ DoDelR
           \/ (Len(s) % 3 = 1 /\ DoCmp) \/ (Len(s) > 10 /\ Clr)
Consistent == out.op \in {"push", "ins", "insit", "del", "delr", "set", "setit", "clr"} => /\ out.size = Len(out.items) /\ Rev(out.rev) = out.items
LenOk == Len(s) <= MaxLen
Slim(e) == [f \in (DOMAIN e) \cap {"op", "impl", "init", "p", "v", "b", "e", "i", "j"} |-> e[f]]
=============================================================================
