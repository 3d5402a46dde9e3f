------------------------------- MODULE IoText -------------------------------
(* Printing: the text of a value depends on its components and on the settings in force; a setting is in force from *)
(* the construction of its manipulator to its destruction, when the previous one returns. Tokenizing: reading from   *)
(* a position in a character sequence.                                                                               *)
EXTENDS Pick
CONSTANTS Nums, MaxD
VARIABLES st, stack, out
vars == <<st, stack, out>>
\* settings: always print a denominator, fraction as pair, print the modulus, modulo as pair, polynomial as vector
Fields == {"den", "fpair", "mmod", "mpair", "pvec"}
Default == [den |-> 0, fpair |-> 0, mmod |-> 0, mpair |-> 0, pvec |-> 1]
\* ---- texts
S(n) == ToString(n)
RECURSIVE Join(_, _)
Join(q, d) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o d \o Join(Tail(q), d)
Brace(q) == "{" \o Join(q, ", ") \o "}"
Map1(F(_), a) == [i \in 1..Len(a) |-> F(a[i])]
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
\* a fraction in lowest terms with a positive denominator
FracOf(p, q, s) ==
  LET g == Gcd(Abs(p), Abs(q)) sg == IF q < 0 THEN -1 ELSE 1 n == sg * (IF p < 0 THEN 0 - (Abs(p) \div g) ELSE Abs(p) \div g) d == Abs(q) \div g
  IN IF s.fpair = 1 THEN Brace(<<S(n), S(d)>>) ELSE IF s.den = 1 \/ d # 1 THEN S(n) \o "/" \o S(d) ELSE S(n)
ModOf(v, m, s) == LET r == v % m IN IF s.mpair = 1 THEN Brace(<<S(r), S(m)>>) ELSE IF s.mmod = 1 THEN S(r) \o " (mod " \o S(m) \o ")" ELSE S(r)
\* a polynomial with printed coefficients c, zero where z: the vector of its coefficients, or its non-zero terms from the top
PolyOf(c, z, s) ==
  IF s.pvec = 1 THEN Brace(c)
  ELSE LET nz == {i \in 1..Len(c) : ~z[i]}
           Term(i) == c[i] \o (IF i > 1 THEN " x" ELSE "") \o (IF i > 2 THEN "^" \o S(i - 1) ELSE "")
           RECURSIVE Terms(_)
           Terms(i) == IF i = 0 THEN <<>> ELSE (IF z[i] THEN <<>> ELSE <<Term(i)>>) \o Terms(i - 1)
       IN IF nz = {} THEN c[1] ELSE Join(Terms(Len(c)), " + ")
RECURSIVE SortSet(_)
SortSet(A) == IF A = {} THEN <<>> ELSE LET m == CHOOSE x \in A : \A y \in A : x <= y IN <<m>> \o SortSet(A \ {m})
Range(a) == {a[i] : i \in 1..Len(a)}
\* the last (first) value given for each key
KeyVal(a, n) == LET K == {a[2 * i - 1] : i \in 1..n} V(k) == a[2 * (CHOOSE i \in 1..n : a[2 * i - 1] = k /\ \A j \in 1..n : a[2 * j - 1] = k => i <= j)]
                IN [i \in 1..Cardinality(K) |-> <<SortSet(K)[i], V(SortSet(K)[i])>>]
Pair(x, y) == Brace(<<x, y>>)
NZ(x) == IF x = 0 THEN 1 ELSE x
Tri(a, i, e) == S(a[i]) \o " " \o e[1] \o " + " \o S(a[i + 1]) \o " " \o e[2] \o " + " \o S(a[i + 2]) \o " " \o e[3]
B0(a, i) == S(a[i]) \o " id"
B1(a, i) == S(a[i]) \o " e0 + " \o Tri(a, i + 1, <<"e1", "e2", "e3">>)
B2E(a, i) == Tri(a, i, <<"e23", "e31", "e12">>)
B2e(a, i) == Tri(a, i, <<"e01", "e02", "e03">>)
B3(a, i) == S(a[i]) \o " e123 + " \o Tri(a, i + 1, <<"e032", "e013", "e021">>)
B4(a, i) == S(a[i]) \o " e0123"
\* the catalogue of printed types; a: 16 numbers, n: how many of them a container uses
Text(ty, a, n, s) ==
  CASE ty = "pair" -> Pair(S(a[1]), S(a[2]))
    [] ty = "vector" -> Brace(Map1(S, SubSeq(a, 1, n)))
    [] ty = "array3" -> Brace(<<S(a[1]), S(a[2]), S(a[3])>>)
    [] ty = "set" -> Brace(Map1(S, SortSet(Range(SubSeq(a, 1, n)))))
    [] ty = "map" -> LET kv == KeyVal(a, n \div 2) IN Brace([i \in 1..Len(kv) |-> Pair(S(kv[i][1]), S(kv[i][2]))])
    [] ty = "uset" -> Brace(IF n = 0 THEN <<>> ELSE <<S(a[1])>>)
    [] ty = "umap" -> Brace(IF n = 0 THEN <<>> ELSE <<Pair(S(a[1]), S(a[2]))>>)
    [] ty = "triple" -> Brace(<<S(a[1]), S(a[2]), S(a[3])>>)
    [] ty = "frac" -> FracOf(a[1], NZ(a[2]), s)
    \* components as they are held, whatever they are
    [] ty = "fracraw" -> LET x == a[1] * (n % 2) IN IF s.fpair = 1 THEN Pair(S(x), S(a[2])) ELSE IF s.den = 1 \/ a[2] # 1 THEN S(x) \o "/" \o S(a[2]) ELSE S(x)
    [] ty = "mod7" -> ModOf(a[1], 7, s)
    [] ty = "modx" -> ModOf(a[1], Abs(a[2]) + 1, s)
    [] ty = "poly" -> PolyOf(Map1(S, SubSeq(a, 1, n + 1)), [i \in 1..(n + 1) |-> a[i] = 0], s)
    [] ty = "vec2" -> Pair(S(a[1]), S(a[2]))
    [] ty = "mat" -> Brace(<<Brace(<<S(a[1]), S(a[2]), S(a[3])>>), Brace(<<S(a[4]), S(a[5]), S(a[6])>>)>>)
    [] ty = "sym" -> "((" \o S(a[1]) \o "+" \o S(a[2]) \o ")*" \o S(a[3]) \o ")"
    [] ty = "rotor" -> Brace(<<S(a[1]), S(a[2]), S(a[3]), S(a[4])>>)
    [] ty = "cl3vec" -> Brace(<<S(a[1]), S(a[2]), S(a[3]), S(a[4])>>)
    [] ty = "cl3mv" -> Pair(Brace(<<S(a[1]), S(a[2]), S(a[3]), S(a[4])>>), Brace(<<S(a[5]), S(a[6]), S(a[7]), S(a[8])>>))
    [] ty = "b0" -> B0(a, 1)
    [] ty = "b1" -> B1(a, 1)
    [] ty = "b2E" -> B2E(a, 1)
    [] ty = "b2e" -> B2e(a, 1)
    [] ty = "b3" -> B3(a, 1)
    [] ty = "b4" -> B4(a, 1)
    [] ty = "b02E" -> B0(a, 1) \o " + " \o B2E(a, 2)
    [] ty = "b02e" -> B0(a, 1) \o " + " \o B2e(a, 2)
    [] ty = "b22" -> B2E(a, 1) \o " + " \o B2e(a, 4)
    [] ty = "b2E4" -> B2E(a, 1) \o " + " \o B4(a, 4)
    [] ty = "b2e4" -> B2e(a, 1) \o " + " \o B4(a, 4)
    [] ty = "b024" -> B0(a, 1) \o " + " \o B2E(a, 2) \o " + " \o B2e(a, 5) \o " + " \o B4(a, 8)
    [] ty = "b13" -> B1(a, 1) \o " + " \o B3(a, 5)
    [] ty = "pgamv" -> B0(a, 1) \o " + " \o B2E(a, 2) \o " + " \o B2e(a, 5) \o " + " \o B4(a, 8) \o " + " \o B1(a, 9) \o " + " \o B3(a, 13)
    [] ty = "zero" -> "0"
    \* nested
    [] ty = "vecfrac" -> Brace([i \in 1..(n \div 2) |-> FracOf(a[2 * i - 1], NZ(a[2 * i]), s)])
    [] ty = "mapvec" -> LET kv == KeyVal(a, n \div 2) IN Brace([i \in 1..Len(kv) |-> Pair(S(kv[i][1]), Brace(<<S(kv[i][2]), S(a[1])>>))])
    [] ty = "polyfrac" -> LET k == n \div 2 IN PolyOf([i \in 1..(k + 1) |-> FracOf(a[2 * i - 1], NZ(a[2 * i]), s)], [i \in 1..(k + 1) |-> a[2 * i - 1] = 0], s)
    [] ty = "polymod" -> PolyOf([i \in 1..(n + 1) |-> ModOf(a[i], 7, s)], [i \in 1..(n + 1) |-> a[i] % 7 = 0], s)
    [] ty = "pairs" -> Pair(Pair(ModOf(a[1], 7, s), FracOf(a[2], NZ(a[3]), s)), Pair(S(a[4]), Pair(S(a[5]), S(a[6]))))
    [] ty = "matmod" -> Brace(<<Brace(<<ModOf(a[1], 7, s), ModOf(a[2], 7, s)>>)>>)
    [] ty = "vec2frac" -> Pair(FracOf(a[1], NZ(a[2]), s), FracOf(a[3], NZ(a[4]), s))
    [] ty = "setpair" -> Brace(<<Pair(S(a[1]), S(a[2]))>>)
    [] OTHER -> "?"
Types == {"pair", "vector", "array3", "set", "map", "uset", "umap", "triple", "frac", "mod7", "modx", "poly", "vec2", "mat", "sym", "rotor", "cl3vec", "cl3mv", "b0", "b1", "b2E",
          "b2e", "b3", "b4", "b02E", "b02e", "b22", "b2E4", "b2e4", "b024", "b13", "pgamv", "zero", "vecfrac", "mapvec", "polyfrac", "polymod", "pairs", "matmod", "vec2frac", "setpair", "fracraw"}
\* ---- tokenizing: token characters (bytes) by kind; every other byte belongs to a delimiter token
Alnum == (48..57) \cup (65..90) \cup (97..122)
TokC(k) == CASE k = "space" -> (0..255) \ {32} [] k = "comma" -> (0..255) \ {44} [] k = "semi" -> (0..255) \ {59} [] k = "cs" -> (0..255) \ {44, 59}
             [] k = "sc" -> (0..255) \ {32, 44} [] k = "alnum" -> Alnum [] k = "binary" -> {48, 49}
Ws == {9, 10, 11, 12, 13, 32}
Run(s, q, C) == CHOOSE j \in q..Len(s) : (IF j = Len(s) THEN TRUE ELSE s[j + 1] \notin C) /\ \A i \in (q + 1)..j : s[i] \in C
\* a token read at q: white space is skipped, then the longest run; coming to the end of the text ends the stream
Tok(s, q, C) == LET w == Run(s, q, Ws) e == Run(s, w, C) IN [b |-> w, e |-> e, end |-> e = Len(s)]
RECURSIVE Toks(_, _, _)
Toks(s, q, C) == LET t == Tok(s, q, C) d == Tok(s, t.e, (0..255) \ C)
                 IN <<SubSeq(s, t.b + 1, t.e)>> \o (IF t.end \/ d.end THEN <<>> ELSE Toks(s, d.e, C))
\* integers separated by one character each
Dig == 48..57
RECURSIVE Val(_)
Val(d) == IF d = <<>> THEN 0 ELSE 10 * Val(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)] - 48
RECURSIVE IntsFrom(_, _)
IntsFrom(s, q) == LET w == Run(s, q, Ws) neg == s[w + 1] = 45 b == IF neg THEN w + 1 ELSE w e == Run(s, b, Dig) v == Val(SubSeq(s, b + 1, e))
                  IN <<IF neg THEN 0 - v ELSE v>> \o (IF e = Len(s) THEN <<>> ELSE IntsFrom(s, e + 1))
Step(e) ==
  CASE e.op = "begin" -> st' = Default /\ stack' = <<>>
    [] e.op = "push" -> st' = [st EXCEPT ![e.fld] = e.val] /\ stack' = Append(stack, <<e.fld, st[e.fld]>>)
    [] e.op = "pop" -> LET x == stack[Len(stack)] IN st' = [st EXCEPT ![x[1]] = x[2]] /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    [] e.op = "fmt" -> e.text = Text(e.ty, e.a, e.n, st) /\ UNCHANGED <<st, stack>>
    [] e.op = "toks" -> e.toks = Toks(e.s, 0, TokC(e.k)) /\ e.skipws = e.ws0 /\ UNCHANGED <<st, stack>>
    [] e.op = "tok" -> LET t == Tok(e.s, 0, TokC(e.k)) IN e.tok = SubSeq(e.s, t.b + 1, t.e) /\ e.rest = SubSeq(e.s, t.e + 1, Len(e.s)) /\ e.good = B01(~t.end) /\ UNCHANGED <<st, stack>>
    [] e.op = "ints" -> e.vals = IntsFrom(e.s, 0) /\ e.skipws = 1 /\ UNCHANGED <<st, stack>>
    [] OTHER -> FALSE
Init == st = Default /\ stack = <<>> /\ out = [op |-> "init"]
GenInit == Init
Do(e) == Step(e) /\ out' = e
Rand16 == [i \in 1..16 |-> RandomElement(Nums \cup {0 - x : x \in Nums})]
GenNext ==
  IF out.op = "init" THEN Do([op |-> "begin"]) ELSE
  \/ Len(stack) < MaxD /\ \E f \in P(Fields), v \in P(0..1) : Do([op |-> "push", fld |-> f, val |-> v])
  \/ Len(stack) > 0 /\ Do([op |-> "pop"])
  \/ \E t \in P(Types), n \in P(0..10) : \E a \in P({Rand16}) : Do([op |-> "fmt", ty |-> t, a |-> a, n |-> n, text |-> Text(t, a, n, st)])
  \/ \E t \in P({"frac", "fracraw", "polyfrac", "mod7", "modx", "poly", "polymod", "pairs", "matmod", "vecfrac", "vec2frac"}), n \in P(0..6) : \E a \in P({Rand16}) : Do([op |-> "fmt", ty |-> t, a |-> a, n |-> n, text |-> Text(t, a, n, st)])
Next == GenNext
\* the settings alone, for exhaustive exploration
MNext == IF out.op = "init" THEN Do([op |-> "begin"]) ELSE
  \/ Len(stack) < MaxD /\ \E f \in Fields, v \in 0..1 : Do([op |-> "push", fld |-> f, val |-> v])
  \/ Len(stack) > 0 /\ Do([op |-> "pop"])
Slim(e) == [k \in DOMAIN e \ {"text"} |-> e[k]]
\* ---- laws: outside all manipulators the defaults hold; tokens contain token characters only and miss none of them
Laws == /\ (stack = <<>> => st = Default)
        /\ out.op = "push" => st[out.fld] = out.val
RECURSIVE Seqs(_, _)
Seqs(A, n) == IF n = 0 THEN {<<>>} ELSE {Append(s, c) : s \in Seqs(A, n - 1), c \in A}
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
ASSUME TokLaw == \A n \in 0..5 : \A s \in Seqs({32, 44, 97}, n) : \A k \in {"comma", "alnum", "cs"} :
  LET t == Toks(s, 0, TokC(k)) In(x) == x \in TokC(k) \ Ws Nb(x) == x \notin Ws
  IN /\ \A i \in 1..Len(t) : \A j \in 1..Len(t[i]) : t[i][j] \in TokC(k)
     /\ SelectSeq(Cat(t), Nb) = SelectSeq(s, In)
     /\ k = "alnum" => \A i \in 2..(Len(t) - 1) : t[i] # <<>>
=============================================================================
