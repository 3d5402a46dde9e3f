-------------------------------- MODULE Trie --------------------------------
(* A prefix tree: the list of words (1-based indices); erasing a word moves the *)
(* last word to its index. Index 0 is the empty word, which is never stored.   *)
EXTENDS Pick
CONSTANTS K, MaxL, MaxN
VARIABLES W, out
vars == <<W, out>>
Idx(w) == IF \E i \in 1..Len(W) : W[i] = w THEN CHOOSE i \in 1..Len(W) : W[i] = w ELSE 0
Prefixes(ws) == {SubSeq(ws[i], 1, j) : <<i, j>> \in {<<a, b>> \in (1..Len(ws)) \X (1..MaxL * 2) : b <= Len(ws[a])}}
Upd(args, ws) == W' = ws /\ out' = args @@ [n |-> Len(ws), letters |-> Cardinality(Prefixes(ws))]
Start == Upd([op |-> "start"], <<>>)
Clear == Upd([op |-> "clear"], <<>>)
Put(op, args, w) == IF w = <<>> THEN Upd(args @@ [op |-> op, r |-> 0], W)
                    ELSE IF Idx(w) # 0 THEN Upd(args @@ [op |-> op, r |-> Idx(w)], W) ELSE Upd(args @@ [op |-> op, r |-> Len(W) + 1], Append(W, w))
Word(i) == IF i = 0 THEN <<>> ELSE W[i]
Add(w) == Put("add", [w |-> w], w)
AppendW(i, w) == i \in 0..Len(W) /\ Put("append", [i |-> i, w |-> w], Word(i) \o w)
Find(w) == Upd([op |-> "find", w |-> w, r |-> Idx(w)], W)
Get(i) == i \in 0..Len(W) /\ Upd([op |-> "get", i |-> i, r |-> Word(i)], W)
Drop(i) == IF i = 0 THEN W ELSE SubSeq([W EXCEPT ![i] = W[Len(W)]], 1, Len(W) - 1)
Erase(i) == i \in 0..Len(W) /\ Upd([op |-> "erase", i |-> i, r |-> i], Drop(i))
EraseW(w) == Upd([op |-> "erasew", w |-> w, r |-> Idx(w)], Drop(Idx(w)))
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
IsPrefix(p, w) == Len(p) <= Len(w) /\ SubSeq(w, 1, Len(p)) = p
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE i \in S : \A j \in S : i = j \/ Less(W[i], W[j]) IN <<m>> \o Sorted(S \ {m})
\* words starting with the given word, in lexicographic order, with their indices
ForEach(i) == /\ i \in 0..Len(W)
              /\ LET q == Sorted({x \in 1..Len(W) : IsPrefix(Word(i), W[x])})
                 IN Upd([op |-> "each", i |-> i, ids |-> q, ws |-> [x \in 1..Len(q) |-> W[q[x]]]], W)
Step(e) == CASE e.op = "start" -> Start [] e.op = "clear" -> Clear [] e.op = "add" -> Add(e.w) [] e.op = "append" -> AppendW(e.i, e.w)
  [] e.op = "find" -> Find(e.w) [] e.op = "get" -> Get(e.i) [] e.op = "erase" -> Erase(e.i) [] e.op = "erasew" -> EraseW(e.w) [] e.op = "each" -> ForEach(e.i)
Init == W = <<>> /\ out = [op |-> "init"]
GenInit == Init
RECURSIVE RndW(_)
RndW(n) == IF n = 0 THEN <<>> ELSE <<RandomElement(0..(K - 1))>> \o RndW(n - 1)
AnyWord == P({RndW(RandomElement(0..MaxL))})
DoStored == W # <<>> /\ \E i \in P(1..Len(W)) : (EraseW(W[i]) \/ Find(W[i]) \/ Erase(i) \/ ForEach(i) \/ Get(i))
\* near misses: a prefix or an extension of a stored word
DoNear == W # <<>> /\ \E i \in P(1..Len(W)) : \E j \in P(0..Len(W[i])), x \in P(0..(K - 1)) :
            LET w == SubSeq(W[i], 1, j) IN \E v \in P({w, Append(w, x)}) : (Find(v) \/ EraseW(v) \/ (Len(W) < MaxN /\ Len(v) <= MaxL /\ Add(v)))
DoAdd == Len(W) < MaxN /\ \E w \in AnyWord : Add(w)
DoAppend == Len(W) < MaxN /\ \E i \in P(0..Len(W)), w \in AnyWord : Len(Word(i)) + Len(w) <= 2 * MaxL /\ AppendW(i, w)
Rare == \E x \in P(1..15) : x = 1 /\ Clear
Next == DoAdd \/ DoAppend \/ DoStored \/ DoNear \/ ForEach(0) \/ Get(0) \/ Erase(0) \/ (\E w \in AnyWord : Find(w)) \/ Clear
GenNext == IF out.op = "init" THEN Start ELSE DoAdd \/ DoAdd \/ DoAdd \/ DoAppend \/ DoStored \/ DoNear \/ ForEach(0) \/ (\E w \in AnyWord : Find(w)) \/ Rare \/ (\E x \in P(1..8) : x = 1 /\ (Erase(0) \/ Get(0)))
MCWords == {<<>>, <<0>>, <<1>>, <<0, 1>>, <<1, 0>>, <<0, 0>>}
MCNext == IF out.op = "init" THEN Start ELSE (\E w \in MCWords : (Len(W) < MaxN /\ Add(w)) \/ EraseW(w) \/ Find(w)) \/ (\E i \in 0..Len(W) : Erase(i) \/ ForEach(i))
Distinct == \A i, j \in 1..Len(W) : W[i] = W[j] => i = j
NoEmpty == \A i \in 1..Len(W) : W[i] # <<>>
MCView == <<W, out.op = "init">>
Slim(e) == [f \in (DOMAIN e) \cap {"op", "w", "i"} |-> e[f]]
=============================================================================
