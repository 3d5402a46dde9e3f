--------------------------------- MODULE Perm ---------------------------------
(* Permutations of 0..n-1 as sequences (p[i+1] is the image of i) with their cycle and transposition notations, powers  *)
(* and roots; enumeration of combinations, partitions and permutations in lexicographic order.                         *)
EXTENDS Pick, Big
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
IsPerm(p) == \A i \in 1..Len(p) : p[i] \in 0..(Len(p) - 1) /\ \A j \in 1..(i - 1) : p[i] # p[j]
Id(n) == [i \in 1..n |-> i - 1]
\* p1 * p2, as applying p1 to the line of p2: position i receives what stands at p1(i)
Comp(p, q) == [i \in 1..Len(p) |-> q[p[i] + 1]]
Inv(p) == [i \in 1..Len(p) |-> (CHOOSE j \in 1..Len(p) : p[j] = i - 1) - 1]
\* the orbit of i: i, p(i), ...
RECURSIVE OrbitFrom(_, _, _)
OrbitFrom(p, s, x) == IF p[x + 1] = s THEN <<x>> ELSE <<x>> \o OrbitFrom(p, s, p[x + 1])
Orbit(p, i) == OrbitFrom(p, i, i)
PowB(p, T) == [i \in 1..Len(p) |-> LET o == Orbit(p, i - 1) IN o[BToInt(BMod(T, B(Len(o)))) + 1]]
Least(p, i) == LET o == Orbit(p, i) IN \A k \in 1..Len(o) : i <= o[k]
\* the cycles, each from its least element, ordered by it; one: including 1-cycles, which come last
CycFrom(p, S) == LET RECURSIVE C(_) C(i) == IF i = Len(p) THEN <<>> ELSE (IF Least(p, i) /\ (Len(Orbit(p, i)) = 1) = S THEN <<Orbit(p, i)>> ELSE <<>>) \o C(i + 1) IN C(0)
Cycles(p) == CycFrom(p, FALSE)
AllCycles(p) == Cycles(p) \o CycFrom(p, TRUE)
NCycles(p) == Len(AllCycles(p))
Swap(s, i, j) == [s EXCEPT ![i + 1] = s[j + 1], ![j + 1] = s[i + 1]]
RECURSIVE Swaps(_, _)
Swaps(s, ts) == IF ts = <<>> THEN s ELSE Swaps(Swap(s, ts[1][1], ts[1][2]), Tail(ts))
\* a cycle moves along its list; cycles are applied one after the other
CycTs(c) == [i \in 1..(Len(c) - 1) |-> <<c[i], c[i + 1]>>]
RECURSIVE CycsTs(_)
CycsTs(cs) == IF cs = <<>> THEN <<>> ELSE CycTs(Head(cs)) \o CycsTs(Tail(cs))
OfCycles(cs, n) == Swaps(Id(n), CycsTs(cs))
Expand(s, n) == s \o [i \in 1..(IF Len(s) < n THEN n - Len(s) ELSE 0) |-> Len(s) + i - 1]
MaxOf(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x
\* ---- roots: cycles of equal length l merge in groups; the least group is the part of T made of primes of l
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE Strip(_, _)
Strip(l, T) == LET g == Gcd(l, T) IN IF g = 1 THEN T ELSE Strip(l, T \div g)
Grp(l, T) == T \div Strip(l, T)
NumLen(p, l) == Cardinality({i \in 0..(Len(p) - 1) : Least(p, i) /\ Len(Orbit(p, i)) = l})
Lens(p) == {Len(Orbit(p, i)) : i \in 0..(Len(p) - 1)}
RootAny(p, T) == \A l \in Lens(p) : NumLen(p, l) % Grp(l, T) = 0
SumOver(S, F(_)) == LET RECURSIVE G(_) G(R) == IF R = {} THEN 0 ELSE LET x == CHOOSE x \in R : TRUE IN F(x) + G(R \ {x}) IN G(S)
MinTs(p, T) == LET W(l) == (l * Grp(l, T) - 1) * (NumLen(p, l) \div Grp(l, T)) IN SumOver(Lens(p), W)
CanFlip(p, T) == T % 2 = 0 /\ \E l \in Lens(p) : l % 2 = 1 /\ NumLen(p, l) >= 2 * Grp(l, T)
RootEx(p, T, par) == RootAny(p, T) /\ (par = -1 \/ MinTs(p, T) % 2 = par \/ CanFlip(p, T))
\* ---- enumeration
RECURSIVE LexLt(_, _, _)
LexLt(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] < b[i] THEN TRUE ELSE IF a[i] > b[i] THEN FALSE ELSE LexLt(a, b, i + 1)
Lt(a, b) == LexLt(a, b, 1)
Ordered(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Srt(s) == SortSeq(s, LAMBDA x, y : x < y)
\* what is left of the sorted s without the sorted part t
RECURSIVE Minus(_, _)
Minus(s, t) == IF t = <<>> THEN s ELSE IF s[1] = t[1] THEN Minus(Tail(s), Tail(t)) ELSE <<s[1]>> \o Minus(Tail(s), t)
At(s, S) == LET RECURSIVE G(_) G(i) == IF i > Len(s) THEN <<>> ELSE (IF i \in S THEN <<s[i]>> ELSE <<>>) \o G(i + 1) IN G(1)
Combs(s, k) == {At(s, S) : S \in {R \in SUBSET (1..Len(s)) : Cardinality(R) = k}}
NextC(s, k) == LET w == Srt(s) cur == SubSeq(s, 1, k) C == {c \in Combs(w, k) : Lt(cur, c)} IN
  IF C = {} THEN <<0, w>> ELSE LET c == CHOOSE c \in C : \A d \in C : ~Lt(d, c) IN <<1, c \o Minus(w, c)>>
\* partitions of n into at most m parts of at most x, padded with zeros
RECURSIVE Parts(_, _, _)
Parts(n, m, x) == IF m = 0 THEN (IF n = 0 THEN {<<>>} ELSE {}) ELSE UNION {{<<f>> \o r : r \in Parts(n - f, m - 1, f)} : f \in 0..(IF x < n THEN x ELSE n)}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
NextP(s) == LET n == SumSeq(s) C == {c \in Parts(n, Len(s), n) : Lt(c, s)} IN
  IF C = {} THEN <<0, [i \in 1..Len(s) |-> IF i = 1 THEN n ELSE 0]>> ELSE <<1, CHOOSE c \in C : \A d \in C : ~Lt(c, d)>>
RECURSIVE FactB(_)
FactB(n) == IF n = 0 THEN B(1) ELSE BMul(B(n), FactB(n - 1))
RECURSIVE Nth(_, _)
Nth(s, o) == IF s = <<>> THEN <<>> ELSE LET f == FactB(Len(s) - 1) k == BToInt(BQuo(o, f)) + 1 IN <<s[k]>> \o Nth(SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)), BRem(o, f))
Step(e) ==
  CASE e.f = "line" -> e.n = Len(e.p) /\ e.r = e.p /\ e.cyc = Cycles(e.p) /\ e.all = AllCycles(e.p) /\ e.scyc = Cycles(e.p)
    \* transposition notation: gives the permutation back, with the least number of transpositions
    [] e.f = "trans" -> Swaps(Id(Len(e.p)), e.t) = e.p /\ Len(e.t) = Len(e.p) - NCycles(e.p)
    [] e.f = "ofcyc" -> e.r = OfCycles(e.c, e.n) /\ e.size = MaxOf(UNION {{e.c[i][j] : j \in 1..Len(e.c[i])} : i \in 1..Len(e.c)}) + 1
    [] e.f = "oftrans" -> e.r = Swaps(Id(e.n), e.t) /\ e.size = MaxOf(UNION {{e.t[i][1], e.t[i][2]} : i \in 1..Len(e.t)}) + 1 /\ e.cyc = Cycles(Swaps(Id(e.size), e.t))
    [] e.f = "mul" -> e.r = Comp(e.p, e.q)
    [] e.f = "div" -> e.r = Comp(e.p, Inv(e.q))
    [] e.f = "inv" -> e.r = Inv(e.p)
    [] e.f = "pow" -> e.r = PowB(e.p, e.T)
    [] e.f = "apply" -> LET s == Expand(e.s, Len(e.p)) IN e.r = [i \in 1..Len(s) |-> IF i <= Len(e.p) THEN s[e.p[i] + 1] ELSE s[i]]
    \* equality and order of permutations, however they were obtained
    [] e.f = "cmp" -> e.eq = B01(e.p = e.q) /\ e.ne = 1 - e.eq /\ e.lt + e.gt + e.eq = 1 /\ e.le = 1 - e.gt /\ e.ge = 1 - e.lt
    [] e.f = "id" -> e.r = Id(e.n)
    [] e.f = "root" -> IF RootEx(e.p, e.T, e.par)
                         THEN IsPerm(e.r) /\ Len(e.r) = Len(e.p) /\ PowB(e.r, B(e.T)) = e.p
                              /\ (e.par >= 0 => (Len(e.r) - NCycles(e.r)) % 2 = e.par) /\ (e.par = -1 => Len(e.r) - NCycles(e.r) = MinTs(e.p, e.T))
                         ELSE e.r = <<>>
    [] e.f = "ncomb" -> LET r == NextC(e.s, e.k) IN e.more = r[1] /\ e.r = r[2]
    [] e.f = "npart" -> LET r == NextP(e.s) IN e.more = r[1] /\ e.r = r[2]
    [] e.f = "nth" -> e.r = Nth(e.s, e.o)
    [] OTHER -> FALSE
\* ---- laws on all permutations of up to MaxN elements
RECURSIVE Perms(_)
Perms(n) == IF n = 0 THEN {<<>>} ELSE UNION {{[i \in 1..n |-> IF i < k THEN p[i] ELSE IF i = k THEN n - 1 ELSE p[i - 1]] : k \in 1..n} : p \in Perms(n - 1)}
LInit == out \in {<<p>> : p \in UNION {Perms(n) : n \in 0..MaxN}}
LNext == UNCHANGED out
Rank(p, S) == Cardinality({q \in S : Lt(q, p)})
Laws == LET p == out[1] n == Len(p) S == TLCEval(Perms(n)) IN
  /\ OfCycles(Cycles(p), n) = p /\ OfCycles(AllCycles(p), n) = p
  /\ Comp(p, Inv(p)) = Id(n) /\ Comp(Inv(p), p) = Id(n) /\ Comp(p, Id(n)) = p
  /\ PowB(p, B(0)) = Id(n) /\ PowB(p, B(1)) = p /\ PowB(p, B(-1)) = Inv(p) /\ \A k \in 1..4 : PowB(p, B(k + 1)) = Comp(PowB(p, B(k)), p)
  /\ Nth(Id(n), B(Rank(p, S))) = p
  /\ \A T \in 1..6 : LET R == {q \in S : PowB(q, B(T)) = p} IN
       /\ (R # {}) = RootEx(p, T, -1) /\ \A par \in 0..1 : (\E q \in R : (n - NCycles(q)) % 2 = par) = RootEx(p, T, par)
       /\ R # {} => (\E q \in R : n - NCycles(q) = MinTs(p, T)) /\ \A q \in R : n - NCycles(q) >= MinTs(p, T)
=============================================================================
