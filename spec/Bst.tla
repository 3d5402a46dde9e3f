-------------------------------- MODULE Bst --------------------------------
(* Ordered (multi)set / map: the contract of binary_search_tree and treap.    *)
(* The state is the in-order sequence of entries <<key, value, count>>.       *)
(* Events carry arguments and everything the public API lets a user observe.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Pick
CONSTANTS Keys,      \* keys used when generating behaviours
          MaxLen,    \* bound on entries when generating
          Impls,     \* implementations/configurations the driver knows
          Modes, Cnts
VARIABLES es, mode, desc, nv, out
vars == <<es, mode, desc, nv, out>>

Less(a, b) == IF desc = 1 THEN a > b ELSE a < b
LB(s, k) == Cardinality({i \in DOMAIN s : Less(s[i][1], k)})      \* entries strictly before k
UB(s, k) == Cardinality({i \in DOMAIN s : ~Less(k, s[i][1])})     \* entries not after k
InsAt(s, i, e) == SubSeq(s, 1, i) \o <<e>> \o SubSeq(s, i + 1, Len(s))
RECURSIVE SumC(_)
SumC(s) == IF s = <<>> THEN 0 ELSE Head(s)[3] + SumC(Tail(s))
RECURSIVE Expand(_)
Expand(s) == IF s = <<>> THEN <<>> ELSE [i \in 1..Head(s)[3] |-> Head(s)[2]] \o Expand(Tail(s))
Before(s, i) == SumC(SubSeq(s, 1, i))      \* multiset elements in the first i entries
Idx(s) == [i \in 1..Len(s) |-> i - 1]

\* everything observable about the container as a whole
Obs(s) == [items |-> s, rev |-> Reverse(s), size |-> SumC(s), empty |-> IF s = <<>> THEN 1 ELSE 0,
           kth |-> Expand(s), kthend |-> 1,
           pos |-> IF mode = "count" THEN <<>> ELSE Idx(s) \o <<Len(s)>>,
           root |-> 1, lens |-> Len(s)]

Emit(args, res, s) == out' = args @@ res @@ Obs(s)

New(im, m, d) ==
  /\ es' = <<>> /\ mode' = m /\ desc' = d /\ nv' = 1
  /\ out' = [op |-> "new", impl |-> im, mode |-> m, desc |-> d]

\* insertion: returns the entry it now lives in and its index
Ins(k, c) ==
  LET lb == LB(es, k)  ub == UB(es, k)
      i == IF mode = "store" THEN ub ELSE lb
      new == mode = "store" \/ lb = ub
      cc == IF mode = "count" THEN c ELSE 1
      s == IF new THEN InsAt(es, i, <<k, nv, cc>>)
           ELSE IF mode = "count" THEN [es EXCEPT ![lb + 1] = <<@[1], @[2], @[3] + c>>] ELSE es
  IN /\ es' = s /\ nv' = nv + 1 /\ UNCHANGED <<mode, desc>>
     /\ Emit([op |-> "ins", k |-> k, v |-> nv, c |-> c], [r |-> s[i + 1], ri |-> i], s)

\* unchecked positional insertion, used where the order is not violated
InsB(p, k) ==
  /\ p \in 0..Len(es)
  /\ p > 0 => (IF mode = "store" THEN ~Less(k, es[p][1]) ELSE Less(es[p][1], k))
  /\ p < Len(es) => (IF mode = "store" THEN ~Less(es[p + 1][1], k) ELSE Less(k, es[p + 1][1]))
  /\ LET s == InsAt(es, p, <<k, nv, 1>>)
     IN /\ es' = s /\ nv' = nv + 1 /\ UNCHANGED <<mode, desc>>
        /\ Emit([op |-> "insb", p |-> p, k |-> k, v |-> nv], [r |-> s[p + 1], ri |-> p], s)

Drop(s, i, j) == SubSeq(s, 1, i) \o SubSeq(s, j + 1, Len(s))
DropCnt(s, i, c) == IF mode = "count" /\ c < s[i + 1][3]
                    THEN [s EXCEPT ![i + 1] = <<@[1], @[2], @[3] - c>>] ELSE Drop(s, i, i + 1)
Ers(k, c) ==
  LET lb == LB(es, k)  ub == UB(es, k)
      s == IF lb = ub THEN es ELSE IF mode = "store" THEN Drop(es, lb, ub) ELSE DropCnt(es, lb, c)
  IN /\ es' = s /\ UNCHANGED <<mode, desc, nv>>
     /\ Emit([op |-> "ers", k |-> k, c |-> c], <<>>, s)
ErsAll(k) ==
  LET s == Drop(es, LB(es, k), UB(es, k))
  IN /\ es' = s /\ UNCHANGED <<mode, desc, nv>> /\ Emit([op |-> "ersall", k |-> k], <<>>, s)
ErsAt(i, c) ==
  /\ i \in 0..(Len(es) - 1)
  /\ LET s == DropCnt(es, i, c)
     IN /\ es' = s /\ UNCHANGED <<mode, desc, nv>> /\ Emit([op |-> "ersat", i |-> i, c |-> c], <<>>, s)
ErsR(i, j) ==
  /\ i \in 0..Len(es) /\ j \in i..Len(es)
  /\ LET s == Drop(es, i, j)
     IN /\ es' = s /\ UNCHANGED <<mode, desc, nv>> /\ Emit([op |-> "ersr", i |-> i, j |-> j], <<>>, s)
Clr == /\ es' = <<>> /\ UNCHANGED <<mode, desc, nv>> /\ Emit([op |-> "clr"], <<>>, <<>>)

\* point queries; indices count entries from the beginning, Len(es) is the end
Qry(k) ==
  LET lb == LB(es, k)  ub == UB(es, k)
  IN /\ UNCHANGED <<es, mode, desc, nv>>
     /\ out' = [op |-> "q", k |-> k, cl |-> Before(es, lb), cle |-> Before(es, ub),
                cnt |-> Before(es, ub) - Before(es, lb),
                find |-> IF lb = ub THEN Len(es) ELSE lb, lb |-> lb, ub |-> ub, er |-> <<lb, ub>>]
\* iterator arithmetic from entry i by off (not for counted duplicates)
Add(i, off) ==
  /\ mode # "count" /\ i \in 0..Len(es) /\ (i + off) \in 0..Len(es)
  /\ UNCHANGED <<es, mode, desc, nv>>
  /\ out' = [op |-> "add", i |-> i, off |-> off, r |-> i + off]

\* comparison against a container of the same kind built from a list of keys
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF Less(a[1], b[1]) THEN TRUE ELSE IF Less(b[1], a[1]) THEN FALSE ELSE LexLess(Tail(a), Tail(b))
KeysOf(s) == [i \in DOMAIN s |-> s[i][1]]
RECURSIVE Build(_, _)
Build(acc, ks) == IF ks = <<>> THEN acc
                  ELSE LET k == ks[1]  u == UB(acc, k)
                       IN Build(IF mode = "store" \/ LB(acc, k) = u THEN InsAt(acc, u, <<k, 0, 1>>) ELSE acc, Tail(ks))
Cmp(ks) ==
  LET a == KeysOf(es)  b == KeysOf(Build(<<>>, ks))
      lt == LexLess(a, b)  gt == LexLess(b, a)
      B(x) == IF x THEN 1 ELSE 0
  IN /\ UNCHANGED <<es, mode, desc, nv>>
     /\ out' = [op |-> "cmp", ks |-> ks, eq |-> B(a = b), ne |-> B(a # b), lt |-> B(lt), gt |-> B(gt), le |-> B(~gt), ge |-> B(~lt)]

\* taking over another container of the same kind, with its own order d, built from a list of keys: by assignment, move, swap or construction
RECURSIVE BuildV(_, _, _, _)
BuildV(acc, ks, v, d) == IF ks = <<>> THEN acc
  ELSE LET k == ks[1] before(x, y) == IF d = 1 THEN x > y ELSE x < y
           lb == Cardinality({i \in DOMAIN acc : before(acc[i][1], k)}) ub == Cardinality({i \in DOMAIN acc : ~before(k, acc[i][1])})
       IN BuildV(IF mode = "store" \/ lb = ub THEN InsAt(acc, ub, <<k, v, 1>>) ELSE IF mode = "count" THEN [acc EXCEPT ![lb + 1] = <<@[1], @[2], @[3] + 1>>] ELSE acc, Tail(ks), v + 1, d)
Hows == {"asg", "mov", "swp", "ctr", "mct"}
Take(ks, d, how) ==
  LET u == BuildV(<<>>, ks, nv, d)
  IN /\ es' = u /\ desc' = d /\ nv' = nv + Len(ks) /\ UNCHANGED mode
     /\ Emit([op |-> "take", ks |-> ks, desc |-> d, how |-> how, v |-> nv], [other |-> IF how = "swp" THEN es ELSE IF how \in {"asg", "ctr"} THEN u ELSE <<>>], u)

Step(e) ==
  CASE e.op = "new" -> New(e.impl, e.mode, e.desc)
    [] e.op = "ins" -> Ins(e.k, e.c)
    [] e.op = "insb" -> InsB(e.p, e.k)
    [] e.op = "ers" -> Ers(e.k, e.c)
    [] e.op = "ersall" -> ErsAll(e.k)
    [] e.op = "ersat" -> ErsAt(e.i, e.c)
    [] e.op = "ersr" -> ErsR(e.i, e.j)
    [] e.op = "clr" -> Clr
    [] e.op = "q" -> Qry(e.k)
    [] e.op = "add" -> Add(e.i, e.off)
    [] e.op = "cmp" -> Cmp(e.ks)
    [] e.op = "take" -> Take(e.ks, e.desc, e.how)

\* ---- the specification as a state machine (used for model checking and generation)
Init == es = <<>> /\ mode = "store" /\ desc = 0 /\ nv = 1 /\ out = [op |-> "init"]
GenInit == es = <<>> /\ nv = 1 /\ \E im \in Impls, m \in Modes, d \in {0, 1} :
             mode = m /\ desc = d /\ out = [op |-> "new", impl |-> im, mode |-> m, desc |-> d]
DoIns == Len(es) < MaxLen /\ \E k \in P(Keys), c \in P(Cnts) : Ins(k, c)
DoInsB == Len(es) < MaxLen /\ \E p \in P(0..Len(es)), k \in P(Keys) : InsB(p, k)
\* the keys that can be inserted at a position
DoErs == \E k \in P(Keys), c \in P(Cnts) : Ers(k, c)
DoErsAll == \E k \in P(Keys) : ErsAll(k)
DoErsAt == \E i \in P(0..(Len(es) - 1)), c \in P(Cnts) : ErsAt(i, c)
DoErsR == \E i \in P(0..Len(es)) : \E j \in P(i..(IF i + 3 < Len(es) THEN i + 3 ELSE Len(es))) : ErsR(i, j)
DoQry == \E k \in P(Keys) : Qry(k)
DoAdd == mode # "count" /\ \E i \in P(0..Len(es)) : \E j \in P(0..Len(es)) : Add(i, j - i)
DoCmp == \E n \in P(0..3) : \E ks \in P([1..n -> Keys]) : Cmp(ks)
DoTake == \E n \in P(0..3), d \in P({0, 1}), how \in P(Hows) : n <= MaxLen /\ \E ks \in P([1..n -> Keys]) : Take(ks, d, how)
Next == DoIns \/ DoInsB \/ DoErs \/ DoErsAll \/ DoErsAt \/ DoErsR \/ Clr \/ DoQry \/ DoAdd \/ DoCmp \/ \E d \in {0, 1}, k \in Keys : Take(<<k>>, d, "swp") \/ Take(<<k, 1>>, d, "asg")
\* generation: growth-biased, erasures concentrate on inner nodes
GenNext == \/ DoIns \/ DoIns \/ DoIns \/ DoInsB \/ DoInsB \/ DoErs \/ DoErsAt \/ DoErsAt \/ DoQry \/ DoAdd \/ DoErsAll
           \/ DoErsR \/ (nv % 7 = 0 /\ DoCmp) \/ (nv % 13 = 0 /\ Clr) \/ (nv % 6 = 0 /\ DoTake)
BigNext == \/ DoIns \/ DoIns \/ DoIns \/ DoInsB \/ DoInsB \/ DoErsAt \/ DoErs \/ DoQry \/ DoAdd
           \/ Len(es) > 20 /\ \E i \in P({0, Len(es) \div 3}) : ErsR(i, Len(es) - (Len(es) \div 3))
GenSpec == GenInit /\ [][Next]_vars

\* ---- invariants of the specification
Sorted == \A i \in 1..(Len(es) - 1) : ~Less(es[i + 1][1], es[i][1])
Unique == mode # "store" => \A i, j \in DOMAIN es : i # j => es[i][1] # es[j][1]
CountsOk == \A i \in DOMAIN es : es[i][3] >= 1 /\ (mode # "count" => es[i][3] = 1)
FifoOk == mode = "store" => \A i, j \in DOMAIN es : es[i][2] = es[j][2] => i = j
Small == nv <= MaxLen + 2
Slim(e) == IF e.op = "new" THEN e ELSE
           [f \in (DOMAIN e) \cap {"op", "k", "c", "v", "p", "i", "j", "off", "ks", "desc", "how"} |-> e[f]]
View == <<es, mode, desc, nv>>
=============================================================================
