------------------------------- MODULE BitVec -------------------------------
(* Two bit vectors as sequences of 0/1; every operation bit by bit.           *)
EXTENDS Pick
CONSTANTS Impls, MaxWords
VARIABLES A, B, L, out
vars == <<A, B, L, out>>
Width(im) == CASE im = "w8" -> 8 [] im = "w16" -> 16 [] im = "w32" -> 32 [] im = "w64" -> 64 [] im = "w2" -> 2
Z(n) == [i \in 1..n |-> 0]
Pad(s, n) == IF Len(s) >= n THEN s ELSE s \o Z(n - Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Sub(s, b, e) == SubSeq(s, b + 1, e)
Put(s, b, x) == [i \in 1..Len(s) |-> IF i > b /\ i <= b + Len(x) THEN x[i - b] ELSE s[i]]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Obs == [a |-> A', b |-> B', na |-> Len(A'), same |-> 1]
Upd(args, a) == A' = a /\ B' = B /\ L' = L /\ out' = args @@ Obs
Qry(args) == out' = args /\ UNCHANGED <<A, B, L>>
Start(im, x, y) == /\ A' = x /\ B' = y /\ L' = Width(im) /\ out' = [op |-> "start", impl |-> im, x |-> x, y |-> y]
Or2(x, y) == IF x + y > 0 THEN 1 ELSE 0
SetBit(x, v) == IF v = -1 THEN 1 - x ELSE v
Set(p, v) == p \in 0..(Len(A) - 1) /\ v \in {-1, 0, 1} /\ Upd([op |-> "set", p |-> p, v |-> v], [A EXCEPT ![p + 1] = SetBit(@, v)])
Prox(p, k, v) == /\ p \in 0..(Len(A) - 1) /\ v \in {0, 1}
                 /\ Upd([op |-> "prox", p |-> p, k |-> k, v |-> v],
                        [A EXCEPT ![p + 1] = CASE k = "eq" -> v [] k = "xor" -> (@ + v) % 2 [] k = "or" -> Or2(@, v) [] k = "and" -> @ * v])
Un(k, x) == CASE k = "set0" -> 0 [] k = "set1" -> 1 [] k = "nop" -> x [] k = "flip" -> 1 - x
Bin(k, x, y) == CASE k = "set" -> y [] k = "setn" -> 1 - y [] k = "and" -> x * y [] k = "or" -> Or2(x, y)
                  [] k = "xor" -> (x + y) % 2 [] k = "nand" -> 1 - x * y [] k = "nor" -> 1 - Or2(x, y) [] k = "eq" -> 1 - ((x + y) % 2)
UnOps == {"set0", "set1", "nop", "flip"}
BinOps == {"set", "setn", "and", "or", "xor", "nand", "nor", "eq"}
App1(b, e, k) == /\ b \in 0..Len(A) /\ e \in b..Len(A)
                 /\ Upd([op |-> "app1", p |-> b, q |-> e, k |-> k], [i \in 1..Len(A) |-> IF i > b /\ i <= e THEN Un(k, A[i]) ELSE A[i]])
App2(b, c, n, k, self) ==
  LET S == IF self = 1 THEN A ELSE B
  IN /\ b >= 0 /\ c >= 0 /\ n >= 0 /\ b + n <= Len(A) /\ c + n <= Len(S)
     /\ Upd([op |-> "app2", p |-> b, q |-> c, n |-> n, k |-> k, s |-> self],
            [i \in 1..Len(A) |-> IF i > b /\ i <= b + n THEN Bin(k, A[i], S[i - b + c]) ELSE A[i]])
Reverse(b, e) == b \in 0..Len(A) /\ e \in b..Len(A) /\ Upd([op |-> "rev", p |-> b, q |-> e], Put(A, b, Rev(Sub(A, b, e))))
\* the two ranges are disjoint; given in either order
SwapR(b, e, c, f, ord) ==
  /\ 0 <= b /\ b <= e /\ e <= c /\ c <= f /\ f <= Len(A) /\ b < c
  /\ Upd([op |-> "swap", p |-> b, q |-> e, p2 |-> c, q2 |-> f, s |-> ord],
         Sub(A, 0, b) \o Sub(A, c, f) \o Sub(A, e, c) \o Sub(A, b, e) \o Sub(A, f, Len(A)))
RotL(b, e, n) == /\ b \in 0..Len(A) /\ e \in b..Len(A)
                 /\ LET m == IF e = b THEN 0 ELSE n % (e - b)
                    IN Upd([op |-> "rotl", p |-> b, q |-> e, n |-> n], Put(A, b, Sub(A, b + m, e) \o Sub(A, b, b + m)))
RotR(b, e, n) == /\ b \in 0..Len(A) /\ e \in b..Len(A)
                 /\ LET m == IF e = b THEN 0 ELSE n % (e - b)
                    IN Upd([op |-> "rotr", p |-> b, q |-> e, n |-> n], Put(A, b, Sub(A, e - m, e) \o Sub(A, b, e - m)))
\* shifts keep the length and shift in zeros; >> moves towards position 0
Shr(n) == Upd([op |-> "shr", n |-> n], [i \in 1..Len(A) |-> IF i + n <= Len(A) THEN A[i + n] ELSE 0])
Shl(n) == Upd([op |-> "shl", n |-> n], [i \in 1..Len(A) |-> IF i > n THEN A[i - n] ELSE 0])
\* combining with B: the shorter operand is extended by zeros
Comb(k) == LET n == Max(Len(A), Len(B)) x == Pad(A, n) y == Pad(B, n)
           IN Upd([op |-> "comb", k |-> k], [i \in 1..n |-> Bin(k, x[i], y[i])])
Not == Upd([op |-> "not"], [i \in 1..Len(A) |-> 1 - A[i]])
Resize(n) == Upd([op |-> "resize", n |-> n], Pad(SubSeq(A, 1, Min(n, Len(A))), n))
Reserve(n) == Upd([op |-> "reserve", n |-> n], Pad(A, n))
PushB(v) == v \in {0, 1} /\ Upd([op |-> "push", v |-> v], Append(A, v))
PopB == A # <<>> /\ Upd([op |-> "pop"], SubSeq(A, 1, Len(A) - 1))
\* B becomes a copy of A (later changes to A must not show in B), or the two are exchanged
CopyAB == A' = A /\ B' = A /\ L' = L /\ out' = [op |-> "copy"] @@ Obs
Xchg == A' = B /\ B' = A /\ L' = L /\ out' = [op |-> "xchg"] @@ Obs
RECURSIVE Cmp3(_, _)
Cmp3(a, b) == IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
              ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE Cmp3(Tail(a), Tail(b))
\* comparison of a common prefix decides, then the length
FirstDiff(x, y) == LET n == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
                       D == {i \in 1..n : x[i] # y[i]}
                   IN IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : i <= j
Cmp(x, y) == LET d == FirstDiff(x, y)
             IN IF d # 0 THEN (IF x[d] < y[d] THEN -1 ELSE 1) ELSE IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE 0
Compare == LET c == Cmp(A, B) IN Qry([op |-> "cmp", eq |-> B01(c = 0), ne |-> B01(c # 0), lt |-> B01(c < 0), gt |-> B01(c > 0), le |-> B01(c <= 0), ge |-> B01(c >= 0)])
CmpR(b, e, c, f) == /\ b \in 0..Len(A) /\ e \in b..Len(A) /\ c \in 0..Len(B) /\ f \in c..Len(B)
                    /\ Qry([op |-> "cmpr", p |-> b, q |-> e, p2 |-> c, q2 |-> f, r |-> Cmp(Sub(A, b, e), Sub(B, c, f))])
Ham(b, c, n) == /\ b + n <= Len(A) /\ c + n <= Len(B)
                /\ Qry([op |-> "ham", p |-> b, q |-> c, n |-> n, r |-> Cardinality({i \in 1..n : A[b + i] # B[c + i]})])
Str(b, e) == b \in 0..Len(A) /\ e \in b..Len(A) /\ Qry([op |-> "str", p |-> b, q |-> e, r |-> Sub(A, b, e)])
Scan(b, e) == b \in 0..Len(A) /\ e \in b..Len(A) /\ Qry([op |-> "scan", p |-> b, q |-> e, r |-> Sub(A, b, e)])
Step(e) == CASE e.op = "start" -> Start(e.impl, e.x, e.y) [] e.op = "set" -> Set(e.p, e.v) [] e.op = "prox" -> Prox(e.p, e.k, e.v)
  [] e.op = "app1" -> App1(e.p, e.q, e.k) [] e.op = "app2" -> App2(e.p, e.q, e.n, e.k, e.s) [] e.op = "rev" -> Reverse(e.p, e.q)
  [] e.op = "swap" -> SwapR(e.p, e.q, e.p2, e.q2, e.s) [] e.op = "rotl" -> RotL(e.p, e.q, e.n) [] e.op = "rotr" -> RotR(e.p, e.q, e.n)
  [] e.op = "shr" -> Shr(e.n) [] e.op = "shl" -> Shl(e.n) [] e.op = "comb" -> Comb(e.k) [] e.op = "not" -> Not [] e.op = "resize" -> Resize(e.n)
  [] e.op = "reserve" -> Reserve(e.n) [] e.op = "push" -> PushB(e.v) [] e.op = "pop" -> PopB [] e.op = "copy" -> CopyAB [] e.op = "xchg" -> Xchg
  [] e.op = "cmp" -> Compare [] e.op = "cmpr" -> CmpR(e.p, e.q, e.p2, e.q2) [] e.op = "ham" -> Ham(e.p, e.q, e.n) [] e.op = "str" -> Str(e.p, e.q)
  [] e.op = "scan" -> Scan(e.p, e.q)
Init == A = <<>> /\ B = <<>> /\ L = 8 /\ out = [op |-> "init"]
GenInit == Init
Sizes == {n \in 0..(MaxWords * L + 1) : n % L \in {0, 1, L - 1} \/ n < 4}
AnyN == {n \in 0..(MaxWords * L + 1) : TRUE}
Near(n) == {p \in 0..n : p % L \in {0, 1, L - 1} \/ p >= n - 1}
Bnd(n, h) == IF h = 0 THEN Near(n) ELSE 0..n
RndBits(n) == [i \in 1..n |-> RandomElement({0, 1})]
Pats(n) == {Z(n), [i \in 1..n |-> 1], [i \in 1..n |-> IF i % 3 = 1 THEN 1 ELSE 0], RndBits(n), [RndBits(n) EXCEPT ![IF n = 0 THEN 1 ELSE n] = 1]}
SizesW(w) == {n \in 0..(MaxWords * w + 1) : n % w \in {0, 1, w - 1, w \div 2} \/ n < 4}
DoStart == \E im \in P(Impls) : \E n \in P(SizesW(Width(im))), m \in P(SizesW(Width(im))) : \E x \in P(Pats(n)), y \in P(Pats(m)) :
             Start(im, IF n = 0 THEN <<>> ELSE x, IF m = 0 THEN <<>> ELSE y)
Rg(n, act(_, _)) == \E h \in P({0, 1}) : \E b \in P(Bnd(n, h)) : \E e \in P({x \in Bnd(n, h) : x >= b}) : act(b, e)
DoSet == \E p \in P(0..(Len(A) - 1)), v \in P({-1, 0, 1}) : Set(p, v)
DoProx == \E p \in P(0..(Len(A) - 1)), v \in P({0, 1}), k \in P({"eq", "xor", "or", "and"}) : Prox(p, k, v)
DoApp1 == \E k \in P(UnOps) : Rg(Len(A), LAMBDA b, e : App1(b, e, k))
DoApp2 == \E s \in P({0, 1}), k \in P(BinOps), h \in P({0, 1}), g \in P({0, 1}) :
            LET m == IF s = 1 THEN Len(A) ELSE Len(B)
            IN \E b \in P(Bnd(Len(A), h)), c \in P(Bnd(m, g)) :
                 LET mx == Min(Len(A) - b, m - c) IN \E n \in P(Bnd(mx, h)) : App2(b, c, n, k, s)
DoRev == Rg(Len(A), LAMBDA b, e : Reverse(b, e))
DoSwapR == \E o \in P({0, 1}) : Rg(Len(A), LAMBDA b, e : \E c \in P(e..Len(A)) : \E f \in P(c..Len(A)) : SwapR(b, e, c, f, o))
DoRot == \E n \in P(0..(2 * L + 1)), w \in P({0, 1}) : Rg(Len(A), LAMBDA b, e : IF w = 0 THEN RotL(b, e, n) ELSE RotR(b, e, n))
Cnts == {n \in 0..(Len(A) + 2 * L + 1) : n % L \in {0, 1, L - 1, L \div 2} \/ n < 5}
DoShift == \E n \in P(Cnts), w \in P({0, 1}) : IF w = 0 THEN Shr(n) ELSE Shl(n)
DoComb == \E k \in P({"and", "or", "xor"}) : Comb(k)
DoResize == \E h \in P({0, 1}) : \E n \in P(IF h = 0 THEN Sizes ELSE AnyN), w \in P({0, 0, 1}) : IF w = 0 THEN Resize(n) ELSE Reserve(n)
DoPush == Len(A) < MaxWords * L + 1 /\ \E v \in P({0, 1}) : PushB(v)
DoCmpR == Rg(Len(A), LAMBDA b, e : Rg(Len(B), LAMBDA c, f : CmpR(b, e, c, f)))
DoHam == \E h \in P({0, 1}) : \E b \in P(Bnd(Len(A), h)), c \in P(Bnd(Len(B), h)) :
           LET mx == Min(Len(A) - b, Len(B) - c) IN \E n \in P(Bnd(mx, h)) : Ham(b, c, n)
DoStr == Rg(Len(A), LAMBDA b, e : (Str(b, e) \/ Scan(b, e)))
Next == DoSet \/ DoProx \/ DoApp1 \/ DoApp2 \/ DoRev \/ DoSwapR \/ DoRot \/ DoShift \/ DoComb \/ Not \/ DoResize \/ DoPush \/ PopB \/ CopyAB \/ Xchg
        \/ Compare \/ DoCmpR \/ DoHam \/ DoStr
GenNext == IF out.op = "init" THEN DoStart ELSE Next \/ DoApp2 \/ DoApp2 \/ DoRev \/ DoShift
\* model checking: a two-bit "word"
MCInit == A = <<>> /\ B = <<1>> /\ L = 2 /\ out = [op |-> "init"]
Bits == (\A i \in DOMAIN A : A[i] \in {0, 1}) /\ (\A i \in DOMAIN B : B[i] \in {0, 1})
Lens == Len(A) <= MaxWords * L + 1
CmpLaw == (Cmp(A, B) = 0) = (A = B) /\ Cmp(A, B) = -Cmp(B, A)
MCView == <<A, B>>
Slim(e) == [f \in (DOMAIN e) \cap {"op", "impl", "x", "y", "p", "q", "p2", "q2", "n", "k", "v", "s"} |-> e[f]]
=============================================================================
