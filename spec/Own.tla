-------------------------------- MODULE Own --------------------------------
(* Value semantics and ownership of the tree containers: several containers   *)
(* of the same type (slots) that are copied, moved, swapped, cleared, filled  *)
(* and destroyed. Observed after each event: the contents of every slot, the  *)
(* number of live elements, and (with no container left) outstanding memory.  *)
EXTENDS Pick
CONSTANTS Slots, Keys, MaxLen, Impls
VARIABLES st,    \* slot -> [a: alive?, d: descending?, s: contents, m: moved-from?]
          kind,  \* "tree" (ordered, equal keys kept), "seq" (positional), "cnt" (map with multiplicities) or "ign" (map); contents are entries <<key, value, multiplicity>>
          steps, out
vars == <<st, kind, steps, out>>
Dead == [a |-> 0, d |-> 0, s |-> <<>>, m |-> 0]
NS == Cardinality(Slots)
SlotSeq == [i \in 1..NS |-> i]
RECURSIVE SumLen(_, _)
SumLen(t, i) == IF i > NS THEN 0 ELSE Len(t[i].s) + SumLen(t, i + 1)
AllDead(t) == \A i \in Slots : t[i].a = 0
Obs(t) == [con |-> [i \in 1..NS |-> t[i].s], alive |-> [i \in 1..NS |-> t[i].a],
           live |-> SumLen(t, 1), mem |-> IF AllDead(t) THEN 0 ELSE -1]
Emit(args, t) == st' = t /\ out' = args @@ Obs(t) /\ steps' = steps + 1 /\ UNCHANGED kind
KindOf(im) == CASE im \in {"rope", "rope_b"} -> "seq" [] im \in {"bst_c", "treap_c"} -> "cnt" [] im \in {"bst_i", "treap_i"} -> "ign" [] OTHER -> "tree"
Start(im) == /\ st' = [i \in Slots |-> Dead] /\ kind' = KindOf(im) /\ steps' = 0
             /\ out' = [op |-> "start", impl |-> im]
Usable(i) == st[i].a = 1 /\ st[i].m = 0
Before(d, a, b) == IF d = 1 THEN a > b ELSE a < b
UB(s, d, k) == Cardinality({i \in DOMAIN s : ~Before(d, k, s[i][1])})
LB(s, d, k) == Cardinality({i \in DOMAIN s : Before(d, s[i][1], k)})
InsAt(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
RemAt(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))

Make(i, d) == st[i].a = 0 /\ Emit([op |-> "make", i |-> i, d |-> d], [st EXCEPT ![i] = [Dead EXCEPT !.a = 1, !.d = d]])
Destroy(i) == st[i].a = 1 /\ Emit([op |-> "destroy", i |-> i], [st EXCEPT ![i] = Dead])
CopyNew(i, j) == /\ st[i].a = 0 /\ Usable(j)
                 /\ Emit([op |-> "copynew", i |-> i, j |-> j], [st EXCEPT ![i] = st[j]])
CopyAsg(i, j) == /\ st[i].a = 1 /\ Usable(j)
                 /\ Emit([op |-> "copyasg", i |-> i, j |-> j], [st EXCEPT ![i] = st[j]])
\* what a moved-from container holds is not specified beyond being destructible and assignable:
\* nothing, or (for assignment) what the target held
MoveNew(i, j) == /\ st[i].a = 0 /\ Usable(j)
                 /\ Emit([op |-> "movenew", i |-> i, j |-> j],
                         [st EXCEPT ![i] = st[j], ![j] = [@ EXCEPT !.s = <<>>, !.m = 1]])
MoveAsg(i, j) == /\ i # j /\ st[i].a = 1 /\ Usable(j)
                 /\ \E left \in P({<<>>, st[i].s}) :
                      Emit([op |-> "moveasg", i |-> i, j |-> j],
                           [st EXCEPT ![i] = st[j], ![j] = [@ EXCEPT !.s = left, !.m = 1]])
Swap(i, j) == /\ Usable(i) /\ Usable(j)
              /\ Emit([op |-> "swap", i |-> i, j |-> j], [st EXCEPT ![i] = st[j], ![j] = st[i]])
Clear(i) == Usable(i) /\ Emit([op |-> "clear", i |-> i], [st EXCEPT ![i] = [@ EXCEPT !.s = <<>>]])
Ins(i, k, p) == /\ Usable(i)
                /\ LET s == st[i].s q == IF kind = "seq" THEN p % (Len(s) + 1) ELSE UB(s, st[i].d, k) lb == IF kind = "seq" THEN 0 ELSE LB(s, st[i].d, k)
                       had == kind \in {"cnt", "ign"} /\ lb < q
                       e == <<k, IF kind \in {"cnt", "ign"} THEN p ELSE 0, IF kind = "cnt" THEN p % 4 ELSE 1>>
                   IN Emit([op |-> "ins", i |-> i, k |-> k, p |-> p], [st EXCEPT ![i] = [@ EXCEPT !.s = IF ~had THEN InsAt(s, q, e) ELSE IF kind = "cnt" THEN [s EXCEPT ![q] = <<@[1], @[2], @[3] + (p % 4)>>] ELSE s]])
\* changes the mapped value of an entry through an iterator
SetV(i, p, v) == /\ Usable(i) /\ st[i].s # <<>> /\ kind \in {"cnt", "ign"}
                 /\ Emit([op |-> "setv", i |-> i, p |-> p, k |-> v], [st EXCEPT ![i] = [@ EXCEPT !.s = [@ EXCEPT ![(p % Len(@)) + 1] = <<@[1], v, @[3]>>]]])
\* removes the entry at a position, or one of its multiplicity
DelC(i, p, c) == /\ Usable(i) /\ st[i].s # <<>> /\ kind = "cnt"
                 /\ LET s == st[i].s q == p % Len(s) IN Emit([op |-> "delc", i |-> i, p |-> p, k |-> c], [st EXCEPT ![i] = [@ EXCEPT !.s = IF c < s[q + 1][3] THEN [s EXCEPT ![q + 1] = <<@[1], @[2], @[3] - c>>] ELSE RemAt(s, q)]])
Del(i, p) == /\ Usable(i) /\ st[i].s # <<>>
             /\ Emit([op |-> "del", i |-> i, p |-> p], [st EXCEPT ![i] = [@ EXCEPT !.s = RemAt(@, p % Len(@))]])
\* removes every element with a key (tree) or a middle range (sequence)
DelMany(i, k) ==
  /\ Usable(i)
  /\ LET s == st[i].s  lo == IF kind = "seq" THEN Len(s) \div 3 ELSE LB(s, st[i].d, k)
         hi == IF kind = "seq" THEN (2 * Len(s)) \div 3 ELSE UB(s, st[i].d, k)
     IN Emit([op |-> "delmany", i |-> i, k |-> k], [st EXCEPT ![i] = [@ EXCEPT !.s = SubSeq(s, 1, lo) \o SubSeq(s, hi + 1, Len(s))]])
EndAll == Emit([op |-> "end"], [i \in Slots |-> Dead])

Step(e) ==
  CASE e.op = "start" -> Start(e.impl)
    [] e.op = "make" -> Make(e.i, e.d)
    [] e.op = "destroy" -> Destroy(e.i)
    [] e.op = "copynew" -> CopyNew(e.i, e.j)
    [] e.op = "copyasg" -> CopyAsg(e.i, e.j)
    [] e.op = "movenew" -> MoveNew(e.i, e.j)
    [] e.op = "moveasg" -> MoveAsg(e.i, e.j)
    [] e.op = "swap" -> Swap(e.i, e.j)
    [] e.op = "clear" -> Clear(e.i)
    [] e.op = "ins" -> Ins(e.i, e.k, e.p)
    [] e.op = "del" -> Del(e.i, e.p)
    [] e.op = "setv" -> SetV(e.i, e.p, e.k)
    [] e.op = "delc" -> DelC(e.i, e.p, e.k)
    [] e.op = "delmany" -> DelMany(e.i, e.k)
    [] e.op = "end" -> EndAll
Init == st = [i \in Slots |-> Dead] /\ kind = "tree" /\ steps = 0 /\ out = [op |-> "init"]
GenInit == st = [i \in Slots |-> Dead] /\ steps = 0 /\ \E im \in Impls : kind = KindOf(im) /\ out = [op |-> "start", impl |-> im]
DoMake == \E i \in P({x \in Slots : st[x].a = 0}), d \in P({0, 1}) : Make(i, IF kind = "seq" THEN 0 ELSE d)
DoDestroy == \E i \in P({x \in Slots : st[x].a = 1}) : Destroy(i)
DoNew == \E i \in P({x \in Slots : st[x].a = 0}), j \in P({x \in Slots : Usable(x)}) : CopyNew(i, j)
DoMoveNew == \E i \in P({x \in Slots : st[x].a = 0}), j \in P({x \in Slots : Usable(x)}) : MoveNew(i, j)
DoAsg == \E i \in P({x \in Slots : st[x].a = 1}), j \in P({x \in Slots : Usable(x)}) : CopyAsg(i, j)
DoMoveAsg == \E i \in P({x \in Slots : st[x].a = 1}), j \in P({x \in Slots : Usable(x)}) : MoveAsg(i, j)
DoSwap == \E i \in P({x \in Slots : Usable(x)}), j \in P({x \in Slots : Usable(x)}) : Swap(i, j)
DoClear == \E i \in P({x \in Slots : Usable(x)}) : Clear(i)
DoIns == \E i \in P({x \in Slots : Usable(x)}), k \in P(Keys), p \in P(0..MaxLen) : Len(st[i].s) < MaxLen /\ Ins(i, k, p)
DoDel == \E i \in P({x \in Slots : Usable(x)}), p \in P(0..MaxLen) : Del(i, p)
DoDelMany == \E i \in P({x \in Slots : Usable(x)}), k \in P(Keys) : DelMany(i, k)
DoSetV == \E i \in P({x \in Slots : Usable(x)}), k \in P(Keys), p \in P(0..MaxLen) : SetV(i, p, k)
DoDelC == \E i \in P({x \in Slots : Usable(x)}), k \in P(Keys), p \in P(0..MaxLen) : DelC(i, p, k)
Next == DoMake \/ DoDestroy \/ DoNew \/ DoMoveNew \/ DoAsg \/ DoMoveAsg \/ DoSwap \/ DoClear \/ DoIns \/ DoDel \/ DoDelMany \/ DoDelC
GenNext == \/ DoMake \/ DoDestroy \/ DoNew \/ DoMoveNew \/ DoAsg \/ DoMoveAsg \/ DoSwap \/ DoClear \/ DoDel \/ DoDelMany \/ DoSetV \/ DoSetV \/ DoDelC
           \/ DoIns \/ DoIns \/ DoIns \/ DoIns \/ DoIns \/ DoIns \/ (steps % 23 = 22 /\ EndAll)
TreeOrdered == kind # "seq" => \A x \in Slots : \A i \in 1..(Len(st[x].s) - 1) : ~Before(st[x].d, st[x].s[i + 1][1], st[x].s[i][1])
DeadEmpty == \A x \in Slots : st[x].a = 0 => st[x] = Dead
LiveOk == out.op \notin {"init", "start"} => out.live = SumLen(st, 1)
View == <<st, kind>>
Slim(e) == [f \in (DOMAIN e) \cap {"op", "impl", "i", "j", "k", "p", "d"} |-> e[f]]
=============================================================================
