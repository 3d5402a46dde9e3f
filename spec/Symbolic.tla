------------------------------ MODULE Symbolic ------------------------------
(* A value that records the expression it was computed by. A program is a sequence of steps on a stack of expression trees; a tree is written   *)
(* fully parenthesised. Read is an independent reader of such text: the model check shows that it gets back the tree for every small program,  *)
(* so the text determines the expression.                                                                                                       *)
EXTENDS Pick, SequencesExt
CONSTANT MaxN
VARIABLE out
vars == <<out>>
Init == out = [f |-> "init"]
UnOps == {"+", "-", "~", "!"}
BinOps == {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||"}
Chars == [o \in BinOps |-> CASE o = "<<" -> <<"<", "<">> [] o = ">>" -> <<">", ">">> [] o = "&&" -> <<"&", "&">> [] o = "||" -> <<"|", "|">> [] OTHER -> <<o>>]
\* trees: <<kind, label, arguments>>, an atom's label being its characters
Atom(cs) == <<"a", cs, <<>>>>
Un(o, x) == <<"u", <<o>>, <<x>>>>
Bi(o, x, y) == <<"b", <<o>>, <<x, y>>>>
RECURSIVE Text(_)
Text(t) == CASE t[1] = "a" -> t[2] [] t[1] = "u" -> <<"(">> \o t[2] \o Text(t[3][1]) \o <<")">>
  [] t[1] = "b" -> <<"(">> \o Text(t[3][1]) \o Chars[t[2][1]] \o Text(t[3][2]) \o <<")">>
\* one step <<kind, label>> of a program on a stack of trees: "p" push an atom, "u", "b", "d" push a copy of the top, "s" swap the top two
Do(st, s) == LET n == Len(st) IN CASE s[1] = "p" -> Append(st, Atom(s[2])) [] s[1] = "d" -> Append(st, st[n])
  [] s[1] = "s" -> SubSeq(st, 1, n - 2) \o <<st[n], st[n - 1]>>
  [] s[1] = "u" -> Append(SubSeq(st, 1, n - 1), Un(s[2][1], st[n]))
  [] s[1] = "b" -> Append(SubSeq(st, 1, n - 2), Bi(s[2][1], st[n - 1], st[n]))
Run(prog) == FoldLeft(Do, <<>>, prog)
\* ---- the reader: <<tree, next position>>
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Stop == UNION {{Chars[o][1]} : o \in BinOps} \cup {"(", ")", "~", "!"}
Cat(cs, i) == IF i <= Len(cs) THEN cs[i] ELSE ")"
RECURSIVE AtomEnd(_, _)
AtomEnd(cs, i) == IF i > Len(cs) \/ cs[i] \in Stop THEN i ELSE AtomEnd(cs, i + 1)
LitAt(cs, i) == Cat(cs, i) = "-" /\ Cat(cs, i + 1) \in Digits
OpAt(cs, i) == IF \E o \in BinOps : Len(Chars[o]) = 2 /\ Chars[o] = <<Cat(cs, i), Cat(cs, i + 1)>>
  THEN CHOOSE o \in BinOps : Len(Chars[o]) = 2 /\ Chars[o] = <<Cat(cs, i), Cat(cs, i + 1)>> ELSE cs[i]
RECURSIVE Rd(_, _)
Rd(cs, i) ==
  IF Cat(cs, i) # "(" THEN LET j == AtomEnd(cs, IF LitAt(cs, i) THEN i + 1 ELSE i) IN <<Atom(SubSeq(cs, i, j - 1)), j>>
  ELSE IF Cat(cs, i + 1) \in UnOps /\ ~LitAt(cs, i + 1) THEN LET x == Rd(cs, i + 2) IN <<Un(cs[i + 1], x[1]), x[2] + 1>>
  ELSE LET x == Rd(cs, i + 1) IN
    \* a minus sign before a plain number, alone in its parentheses, is an operation
    IF Cat(cs, x[2]) = ")" THEN <<Un("-", Atom(Tail(x[1][2]))), x[2] + 1>>
    ELSE LET o == OpAt(cs, x[2]) y == Rd(cs, x[2] + Len(Chars[o])) IN <<Bi(o, x[1], y[1]), y[2] + 1>>
Read(cs) == Rd(cs, 1)[1]
\* ---- value of a tree: names stand for env (pairs), numbers for themselves
DigitVal == [d \in Digits |-> CHOOSE v \in 0..9 : ToString(v) = d]
AtomVal(cs, env) == IF \E i \in 1..Len(env) : env[i][1] = cs THEN (CHOOSE p \in {env[i] : i \in 1..Len(env)} : p[1] = cs)[2]
  ELSE IF cs[1] = "-" THEN 0 - FoldLeft(LAMBDA r, d : 10 * r + DigitVal[d], 0, Tail(cs)) ELSE FoldLeft(LAMBDA r, d : 10 * r + DigitVal[d], 0, cs)
RECURSIVE Val(_, _)
Val(t, env) == CASE t[1] = "a" -> AtomVal(t[2], env) [] t[1] = "u" -> (IF t[2][1] = "-" THEN 0 - Val(t[3][1], env) ELSE Val(t[3][1], env))
  [] t[1] = "b" -> LET x == Val(t[3][1], env) y == Val(t[3][2], env) IN CASE t[2][1] = "+" -> x + y [] t[2][1] = "-" -> x - y [] t[2][1] = "*" -> x * y
RECURSIVE Ipow(_, _)
Ipow(x, n) == IF n = 0 THEN 1 ELSE x * Ipow(x, n - 1)
V0(cs, env) == Val(Read(cs), env)
Envs(c) == {c[1][i] : i \in 1..Len(c[1])}
Sum(q) == FoldLeft(LAMBDA r, x : r + x, 0, q)
Prod(q) == FoldLeft(LAMBDA r, x : r * x, 1, q)
Call(f, c) == LET r == c[Len(c)] IN CASE
       \* program and the text of every value left on the stack
       f = "run" -> LET st == Run(c[1]) IN Len(r) = Len(st) /\ \A i \in 1..Len(st) : r[i] = Text(st[i]) /\ (Len(r[i]) < 200 => Read(r[i]) = st[i])
       \* generic algorithms over these values, read back under several valuations: environments, inputs, text
    [] f = "pow" -> \A e \in Envs(c) : V0(r, e) = Ipow(V0(c[2], e), c[3])
    [] f = "sum" -> \A e \in Envs(c) : V0(r, e) = Sum([i \in 1..Len(c[2]) |-> V0(c[2][i], e)])
    [] f = "prod" -> \A e \in Envs(c) : V0(r, e) = Prod([i \in 1..Len(c[2]) |-> V0(c[2][i], e)])
    [] f = "poly" -> \A e \in Envs(c) : LET x == V0(c[3], e) IN V0(r, e) = Sum([i \in 1..Len(c[2]) |-> V0(c[2][i], e) * Ipow(x, i - 1)])
    [] f = "matmul" -> \A e \in Envs(c) : \A i \in 1..Len(c[2]), j \in 1..Len(c[3][1]) : V0(r[i][j], e) = Sum([k \in 1..Len(c[3]) |-> V0(c[2][i][k], e) * V0(c[3][k][j], e)])
    [] f = "dot" -> \A e \in Envs(c) : V0(r[1], e) = V0(c[2], e) * V0(c[4], e) + V0(c[3], e) * V0(c[5], e) /\ V0(r[2], e) = V0(c[2], e) * V0(c[5], e) - V0(c[3], e) * V0(c[4], e)
Step(e) == \A i \in 1..Len(e.q) : Call(e.f, e.q[i])
\* ---- every program of up to MaxN steps
LInit == out = <<>>
LAtoms == {<<"x">>, <<"5">>, <<"-", "5">>}
LNext == \/ \E a \in LAtoms : Len(out) < 2 /\ out' = Append(out, Atom(a))
         \/ Len(out) > 0 /\ \E o \in UnOps : out' = Do(out, <<"u", <<o>>>>)
         \/ Len(out) > 1 /\ \E o \in BinOps : out' = Do(out, <<"b", <<o>>>>)
LBound == TLCGet("level") <= MaxN
LReads == \A i \in 1..Len(out) : Read(Text(out[i])) = out[i]
===============================================================================
