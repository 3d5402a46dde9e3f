------------------------------- MODULE HashFn -------------------------------
(* A polynomial hash of a sequence s over moduli M with bases B: component k is the sum of s[i] * B[k]^i mod M[k].      *)
(* A cumulative hash is the sequence it has been given; get(b, e) is the hash of that part of it. Structural hashes     *)
(* fold the hashes of the components with Boost's hash_combine on 64 bits.                                             *)
EXTENDS Pick, Big
CONSTANT MaxN
VARIABLES s, M, Bs, out
vars == <<s, M, Bs, out>>
RECURSIVE Hor(_, _, _, _)
\* Horner from the last element
Hor(q, i, b, m) == IF i > Len(q) THEN B(0) ELSE BMod(BAdd(q[i], BMul(b, Hor(q, i + 1, b, m))), m)
H(q, b, m) == Hor(q, 1, b, m)
HK(q) == [k \in 1..Len(M) |-> H(q, Bs[k], M[k])]
\* component arithmetic
Add(x, y) == [k \in 1..Len(M) |-> BMod(BAdd(x[k], y[k]), M[k])]
Sub(x, y) == [k \in 1..Len(M) |-> BMod(BSub(x[k], y[k]), M[k])]
Mul(x, y) == [k \in 1..Len(M) |-> BMod(BMul(x[k], y[k]), M[k])]
Pw(n) == [k \in 1..Len(M) |-> BPowMod(Bs[k], B(n), M[k])]
\* x = y * B^n, i.e. dividing by B^n undoes multiplying
IsDiv(y, x, n) == Mul(y, Pw(n)) = [k \in 1..Len(M) |-> BMod(x[k], M[k])] /\ \A k \in 1..Len(M) : BIn(y[k], B(0), BSub(M[k], B(1)))
RECURSIVE Lex(_, _, _)
Lex(x, y, k) == IF k > Len(x) THEN FALSE ELSE IF x[k] = y[k] THEN Lex(x, y, k + 1) ELSE BLt(x[k], y[k])
\* hash_combine on 64 bits
Golden == BAdd(BMul(B(40503), B(65536)), B(31161))
Comb(h, v) == BXor(h, BWrap(BAdd(BAdd(v, Golden), BAdd(BWrap(BShl(h, 6), 64), BShr(h, 2))), 64))
RECURSIVE Fold(_, _)
Fold(h, q) == IF q = <<>> THEN h ELSE Fold(Comb(h, Head(q)), Tail(q))
Rep(x) == [k \in 1..Len(M) |-> x]
Step(e) ==
  CASE e.op = "open" -> s' = <<>> /\ M' = e.M /\ Bs' = e.B
    [] e.op = "assign" -> s' = e.q /\ UNCHANGED <<M, Bs>>
    [] e.op = "push" -> s' = Append(s, e.x) /\ UNCHANGED <<M, Bs>>
    [] e.op = "pop" -> s # <<>> /\ s' = SubSeq(s, 1, Len(s) - 1) /\ UNCHANGED <<M, Bs>>
    [] e.op = "size" -> e.n = Len(s) /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "get" -> e.h = HK(SubSeq(s, e.b + 1, e.e)) /\ UNCHANGED <<s, M, Bs>>
    \* one hash object: arithmetic
    [] e.op = "add" -> e.r = Add(e.x, e.y) /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "sub" -> e.r = Sub(e.x, e.y) /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "mul" -> e.r = Mul(e.x, e.y) /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "adds" -> e.r = Add(e.x, Rep(e.y)) /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "subs" -> e.r = Sub(e.x, Rep(e.y)) /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "muls" -> e.r = Mul(e.x, Rep(e.y)) /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "shl" -> e.r = Mul(e.x, Pw(e.n)) /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "shr" -> IsDiv(e.r, e.x, e.n) /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "addat" -> e.r = Add(e.x, Mul(e.y, Pw(e.n))) /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "addats" -> e.r = Add(e.x, Mul(Rep(e.y), Pw(e.n))) /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "subshr" -> IsDiv(e.r, Sub(e.x, e.y), e.n) /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "subshrs" -> IsDiv(e.r, Sub(e.x, Rep(e.y)), e.n) /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "cmp" -> e.lt = B01(Lex(e.x, e.y, 1)) /\ e.eq = B01(e.x = e.y) /\ e.h = e.x[1] /\ UNCHANGED <<s, M, Bs>>
    \* concatenation: the hash of x followed by y is that of x plus that of y shifted by the length of x
    [] e.op = "cat" -> e.r = HK(e.q \o e.p) /\ UNCHANGED <<s, M, Bs>>
    \* structural hashes of components whose own hashes are e.eh
    [] e.op = "fold" -> e.h = Fold(B(0), e.eh) /\ e.h2 = e.h /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "nest" -> e.h = Fold(B(0), <<Fold(B(0), e.e1), Fold(B(0), e.e2)>>) /\ e.h2 = e.h /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "comb" -> e.r = Comb(e.h, e.v) /\ UNCHANGED <<s, M, Bs>>
    [] e.op = "same" -> e.h = e.h2 /\ UNCHANGED <<s, M, Bs>>
    [] OTHER -> FALSE
Init == s = <<>> /\ M = <<>> /\ Bs = <<>> /\ out = [op |-> "init"]
\* ---- laws on a small instance: prefix differences give the hash of every part
LInit == M = <<B(7), B(5)>> /\ Bs = <<B(3), B(2)>> /\ s = <<>> /\ out = [op |-> "init"]
LNext == Len(s) < MaxN /\ \E x \in 0..2 : s' = Append(s, B(x)) /\ UNCHANGED <<M, Bs, out>>
Part(b, e) == HK(SubSeq(s, b + 1, e))
Laws == \A e \in 0..Len(s) : \A b \in 0..e :
  /\ IsDiv(Part(b, e), Sub(Part(0, e), Part(0, b)), b)
  /\ Part(0, e) = Add(Part(0, b), Mul(Part(b, e), Pw(b)))
=============================================================================
