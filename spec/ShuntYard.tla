------------------------------ MODULE ShuntYard ------------------------------
(* Expressions over an operator table. A table entry is <<precedence, associativity, arity>>: associativity "L"/"R", arity *)
(* 1 or 2; unary right-associative operators are written before their operand, unary left-associative ones after it.      *)
(* A token is <<type, id>>: "x" operand, "o" operator, "f" function, "(" ")" ",".  A postfix token is <<"x"|"f", id, #args>>. *)
EXTENDS Pick, Bitwise
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
\* operator o ends the operand of a pending operator q
Ends(T, o, q) == q # 0 /\ (T[o][1] < T[q][1] \/ (T[o][1] = T[q][1] /\ T[o][2] = "L"))
Binary(T, t) == IF t[1] # "o" THEN FALSE ELSE T[t[2] + 1][3] = 2
Prefix(T, t) == IF t[1] # "o" THEN FALSE ELSE T[t[2] + 1][3] = 1 /\ T[t[2] + 1][2] = "R"
Suffix(T, t) == IF t[1] # "o" THEN FALSE ELSE T[t[2] + 1][3] = 1 /\ T[t[2] + 1][2] = "L"
Fun(id, k) == <<"f", id, k>>
\* the operand of the pending operator q (0: none) that starts at position p: its postfix form and the position after it
RECURSIVE E(_, _, _, _), L(_, _, _, _, _), Args(_, _, _, _)
E(T, s, p, q) ==
  LET t == s[p] IN
  IF t[1] = "x" THEN L(T, s, <<<<"x", t[2], 0>>>>, p + 1, q)
  ELSE IF t[1] = "(" THEN LET r == E(T, s, p + 1, 0) IN L(T, s, r[1], r[2] + 1, q)
  ELSE IF t[1] = "f" THEN
    LET r == IF s[p + 2][1] = ")" THEN <<<<>>, p + 2, 0>> ELSE LET a == E(T, s, p + 2, 0) IN Args(T, s, <<a[1], 1>>, a[2])
    IN L(T, s, Append(r[1], Fun(t[2], r[3])), r[2] + 1, q)
  ELSE LET r == E(T, s, p + 1, t[2] + 1) IN L(T, s, Append(r[1], Fun(t[2], 1)), r[2], q)
Args(T, s, acc, p) == IF s[p][1] # "," THEN <<acc[1], p, acc[2]>> ELSE LET a == E(T, s, p + 1, 0) IN Args(T, s, <<acc[1] \o a[1], acc[2] + 1>>, a[2])
L(T, s, acc, p, q) ==
  IF p > Len(s) THEN <<acc, p>>
  ELSE LET t == s[p] IN
    IF t[1] # "o" THEN <<acc, p>>
    ELSE IF Ends(T, t[2] + 1, q) THEN <<acc, p>>
    ELSE IF Suffix(T, t) THEN L(T, s, Append(acc, Fun(t[2], 1)), p + 1, q)
    ELSE LET r == E(T, s, p + 1, t[2] + 1) IN L(T, s, acc \o r[1] \o <<Fun(t[2], 2)>>, r[2], q)
\* several expressions separated by commas
RECURSIVE Many(_, _, _, _)
Many(T, s, acc, p) == LET r == E(T, s, p, 0) IN IF r[2] > Len(s) THEN acc \o r[1] ELSE Many(T, s, acc \o r[1], r[2] + 1)
Postfix(T, s) == Many(T, s, <<>>, 1)
\* ---- evaluation; an application of an unknown function collects its arguments
RECURSIVE Shift(_, _)
Shift(a, k) == IF k = 0 THEN a ELSE Shift(2 * a, k - 1)
RECURSIVE ShiftR(_, _)
ShiftR(a, k) == IF k = 0 THEN a ELSE ShiftR(a \div 2, k - 1)
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE 1
Quo(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
\* two's complement on 20 bits, sufficient for the operands generated
U(a) == IF a < 0 THEN 1048576 + a ELSE a
Sg(u) == IF u >= 524288 THEN u - 1048576 ELSE u
Isqrt(a) == CHOOSE r \in 0..1024 : r * r <= a /\ (r + 1) * (r + 1) > a
Mod7(a) == a % 10007
Apply(nm, a) ==
  CASE nm = "neg" -> 0 - a[1] [] nm = "mul" -> a[1] * a[2] [] nm = "div" -> Quo(a[1], a[2]) [] nm = "mod" -> a[1] - a[2] * Quo(a[1], a[2])
    [] nm = "add" -> a[1] + a[2] [] nm = "sub" -> a[1] - a[2] [] nm = "shl" -> Shift(a[1], a[2]) [] nm = "shr" -> ShiftR(a[1], a[2])
    [] nm = "le" -> B01(a[1] <= a[2]) [] nm = "ge" -> B01(a[1] >= a[2]) [] nm = "lt" -> B01(a[1] < a[2]) [] nm = "gt" -> B01(a[1] > a[2])
    [] nm = "eq" -> B01(a[1] = a[2]) [] nm = "ne" -> B01(a[1] # a[2]) [] nm = "bnot" -> -1 - a[1]
    [] nm = "band" -> Sg(U(a[1]) & U(a[2])) [] nm = "bxor" -> Sg(U(a[1]) ^^ U(a[2])) [] nm = "bor" -> Sg(U(a[1]) | U(a[2]))
    [] nm = "lnot" -> B01(a[1] = 0) [] nm = "land" -> B01(a[1] # 0 /\ a[2] # 0) [] nm = "lor" -> B01(a[1] # 0 \/ a[2] # 0) [] nm = "lxor" -> B01((a[1] = 0) # (a[2] = 0))
    [] nm = "sqrt" -> Isqrt(a[1]) [] nm = "pow" -> Pow(a[1], a[2])
    [] nm = "mneg" -> Mod7(0 - a[1]) [] nm = "mmul" -> Mod7(a[1] * a[2]) [] nm = "madd" -> Mod7(a[1] + a[2]) [] nm = "msub" -> Mod7(a[1] - a[2])
    [] nm = "mdiv" -> CHOOSE r \in 0..10006 : Mod7(r * a[2]) = a[1]
    [] nm = "f" -> 7
RECURSIVE Eval(_, _, _, _)
Eval(N, v, q, st) ==
  IF q = <<>> THEN st
  ELSE LET t == Head(q) IN
       IF t[1] = "x" THEN Eval(N, v, Tail(q), Append(st, v[t[2] + 1]))
       ELSE LET n == Len(st) k == t[3] IN Eval(N, v, Tail(q), Append(SubSeq(st, 1, n - k), Apply(N[t[2] + 1], SubSeq(st, n - k + 1, n))))
\* free algebra: the value of an application is the text of the application
RECURSIVE Terms(_, _)
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o Join(Tail(q))
Terms(q, st) ==
  IF q = <<>> THEN st
  ELSE LET t == Head(q) IN
       IF t[1] = "x" THEN Terms(Tail(q), Append(st, "x" \o ToString(t[2])))
       ELSE LET n == Len(st) k == t[3] IN Terms(Tail(q), Append(SubSeq(st, 1, n - k), "f" \o ToString(t[2]) \o "(" \o Join(SubSeq(st, n - k + 1, n)) \o ")"))
\* ---- the shipped tables
B(p) == <<p, "L", 2>>
U1(p) == <<p, "R", 1>>
BasicT == <<U1(20), B(11), B(11), B(10), B(10)>>
IntT == <<U1(20), B(11), B(11), B(11), B(10), B(10), B(9), B(9), B(9), B(9), B(8), B(8), B(8), B(8), B(7), B(7), U1(20), B(6), B(5), B(4), U1(20), B(3), B(2), B(1)>>
IntN == <<"neg", "mul", "div", "mod", "add", "sub", "shl", "shr", "rol", "ror", "le", "ge", "lt", "gt", "eq", "ne", "bnot", "band", "bxor", "bor", "lnot", "land", "lxor", "lor", "sqrt", "pow">>
ModN == <<"mneg", "mmul", "mdiv", "madd", "msub">>
BasN == <<"neg", "mul", "div", "add", "sub">>
\* floating point functions at points: round(1000 * f(a)) of sqrt 2, 2^3, e, log 2, ...
Flt == <<
  <<"neg", -3000>>, <<"mul", 6000>>, <<"div", 1500>>, <<"add", 5000>>, <<"sub", 1000>>,
  <<"sqrt", 1732>>, <<"pow", 9000>>, <<"exp", 2718>>, <<"log", 693>>, <<"sin", 841>>, <<"cos", 540>>, <<"tan", 1557>>, <<"sinh", 1175>>, <<"cosh", 1543>>, <<"tanh", 762>>,
  <<"asin", 1571>>, <<"acos", 1047>>, <<"atan", 785>>, <<"atan2", 2678>>, <<"asinh", 881>>, <<"acosh", 1317>>, <<"atanh", 549>> >>
Step(e) ==
  CASE e.f = "conv" -> e.post = Postfix(e.T, e.s) /\ e.terms = Terms(e.post, <<>>)
    [] e.f = "basic" -> e.T = BasicT /\ LET q == Postfix(BasicT, e.s) IN e.post = q /\ e.val = Eval(BasN, e.v, q, <<>>)
    [] e.f = "mod" -> e.T = BasicT /\ LET q == Postfix(BasicT, e.s) IN e.post = q /\ e.val = Eval(ModN, e.v, q, <<>>)
    [] e.f = "int" -> e.T = IntT /\ LET q == Postfix(IntT, e.s) IN e.post = q /\ e.val = Eval(IntN, e.v, q, <<>>)
    [] e.f = "flt" -> e.T = BasicT /\ Len(e.vals) = Len(Flt) /\ \A i \in 1..Len(Flt) : e.vals[i] = Flt[i][2]
    [] OTHER -> FALSE
\* ---- laws, on small trees: reading the fully bracketed text of a tree gives the tree; so does the text with only the
\* brackets that precedence and associativity require
RECURSIVE Trees(_, _)
Ops(T, k) == {o \in 1..Len(T) : T[o][3] = k}
Trees(T, n) == {<<"x", i>> : i \in 0..0} \cup (IF n = 0 THEN {} ELSE
  {<<"u", o, a>> : o \in Ops(T, 1), a \in Trees(T, n - 1)} \cup {<<"b", o, a, b>> : o \in Ops(T, 2), a \in Trees(T, n - 1), b \in Trees(T, n - 1)})
RECURSIVE PostOf(_)
PostOf(t) == IF t[1] = "x" THEN <<<<"x", t[2], 0>>>> ELSE IF t[1] = "u" THEN Append(PostOf(t[3]), Fun(t[2] - 1, 1)) ELSE PostOf(t[3]) \o PostOf(t[4]) \o <<Fun(t[2] - 1, 2)>>
Br(x) == <<<<"(", 0>>>> \o x \o <<<<")", 0>>>>
RECURSIVE Full(_, _)
Full(T, t) == IF t[1] = "x" THEN <<<<"x", t[2]>>>>
  ELSE IF t[1] = "u" THEN (IF T[t[2]][2] = "R" THEN <<<<"o", t[2] - 1>>>> \o Br(Full(T, t[3])) ELSE Br(Full(T, t[3])) \o <<<<"o", t[2] - 1>>>>)
  ELSE Br(Full(T, t[3])) \o <<<<"o", t[2] - 1>>>> \o Br(Full(T, t[4]))
\* the lowest prefix operator left open at the right end of t, if any, would swallow what follows
RECURSIVE Open(_, _), Min(_, _)
Open(T, t) == IF t[1] = "x" THEN {} ELSE IF t[1] = "u" THEN (IF T[t[2]][2] = "R" THEN {t[2]} \cup Open(T, t[3]) ELSE {}) ELSE {t[2]} \cup Open(T, t[4])
\* operators of t reachable from its left end without brackets
RECURSIVE Lefts(_, _)
Lefts(T, t) == IF t[1] = "x" THEN {} ELSE IF t[1] = "u" THEN (IF T[t[2]][2] = "R" THEN {} ELSE {t[2]} \cup Lefts(T, t[3])) ELSE {t[2]} \cup Lefts(T, t[3])
Min(T, t) ==
  IF t[1] = "x" THEN <<<<"x", t[2]>>>>
  ELSE LET o == t[2] Lf(c) == IF \E q \in Open(T, c) : ~Ends(T, o, q) THEN Br(Min(T, c)) ELSE Min(T, c)
           Rt(c) == IF \E x \in Lefts(T, c) : Ends(T, x, o) THEN Br(Min(T, c)) ELSE Min(T, c)
       IN IF t[1] = "b" THEN Lf(t[3]) \o <<<<"o", o - 1>>>> \o Rt(t[4])
          ELSE IF T[o][2] = "R" THEN <<<<"o", o - 1>>>> \o Rt(t[3]) ELSE Lf(t[3]) \o <<<<"o", o - 1>>>>
CONSTANT Dep
LInit == out \in {<<<<a, x, 2>>, <<b, y, 2>>, <<c, "R", 1>>, <<4, "L", 1>>>> : a \in 1..2, b \in 1..2, c \in 1..3, x \in {"L", "R"}, y \in {"L", "R"}} /\ (out[1][1] = out[2][1] => out[1][2] = out[2][2])
LNext == UNCHANGED out
Laws == \A t \in Trees(out, Dep) : Postfix(out, Full(out, t)) = PostOf(t) /\ Postfix(out, Min(out, t)) = PostOf(t)
==============================================================================
