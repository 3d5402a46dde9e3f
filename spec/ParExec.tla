------------------------------ MODULE ParExec ------------------------------
(* Parallel execution. The environment's view: a monitor m of which callback each thread is inside and what became  *)
(* of each job. Ok/After say which callback events are allowed next and what they lead to; recorded executions of  *)
(* the real code have to be accepted. The model below runs the locking algorithm itself, all interleavings, and    *)
(* shows that the monitor accepts every behaviour and that it terminates with all jobs collected.                  *)
EXTENDS Pick
CONSTANTS MaxJ, MaxT
VARIABLES m, out, pc, lk, good
vars == <<m, out, pc, lk, good>>
Job(j) == 10 * j + 3                                \* what the worker returns for job j
\* ---- the monitor: jobs 1..n; given = number handed out; st[j]: 0 not begun, 1 running, 2 executed, 3 being collected, 4 collected
\* ins: the callbacks under way, as <<thread, callback, argument>>; wk: number of workers made; busy: workers at work
New(n, t) == [n |-> n, th |-> t, given |-> 0, st |-> [j \in 1..n |-> 0], ins |-> {}, wk |-> 0, made |-> 0, done |-> FALSE]
Inside(M, C) == {x \in M.ins : x[2] \in C}
Threads(M) == IF M.th > 1 THEN M.th ELSE 1
Prov == {"has", "next"}
Idle(M, t) == \A x \in M.ins : x[1] # t
\* e = [op, t, arg, res]
Ok(M, e) ==
  LET j == e.arg IN
  CASE e.op = "has(" -> ~M.done /\ Idle(M, e.t) /\ Inside(M, Prov) = {}
    [] e.op = "has)" -> <<e.t, "has", 0>> \in M.ins /\ e.res = (IF M.given < M.n THEN 1 ELSE 0)
    [] e.op = "next(" -> ~M.done /\ Idle(M, e.t) /\ Inside(M, Prov) = {} /\ M.given < M.n
    [] e.op = "next)" -> <<e.t, "next", 0>> \in M.ins /\ e.res = M.given + 1
    [] e.op = "create(" -> ~M.done /\ Idle(M, e.t) /\ Inside(M, {"create"}) = {} /\ M.made < Threads(M)
    [] e.op = "create)" -> <<e.t, "create", 0>> \in M.ins /\ e.res = M.made + 1
    \* a worker executes a job that was handed out, not run by anybody before, and works for one thread at a time
    [] e.op = "exec(" -> /\ ~M.done /\ Idle(M, e.t) /\ j \in 1..M.given /\ M.st[j] = 0 /\ e.wk \in 1..M.made
                         /\ \A x \in Inside(M, {"exec"}) : x[4] # e.wk
    [] e.op = "exec)" -> <<e.t, "exec", j, e.wk>> \in M.ins /\ e.res = Job(j)
    [] e.op = "coll(" -> ~M.done /\ Idle(M, e.t) /\ Inside(M, {"coll"}) = {} /\ j \in 1..M.n /\ M.st[j] = 2 /\ e.res = Job(j)
    [] e.op = "coll)" -> <<e.t, "coll", j>> \in M.ins
    [] e.op = "return" -> ~M.done /\ M.ins = {} /\ (\A k \in 1..M.n : M.st[k] = 4) /\ M.made = Threads(M) /\ e.res = 1
    \* blocks under LOCK: one thread at a time, each block once
    [] e.op = "lin" -> ~M.done /\ Idle(M, e.t) /\ Inside(M, {"lock"}) = {} /\ <<e.arg, e.res>> \notin M.st
    [] e.op = "lout" -> <<e.t, "lock", e.arg, e.res>> \in M.ins
    [] e.op = "lcaught" -> Idle(M, e.t) /\ <<e.arg, e.res>> \in M.st
    [] e.op = "lend" -> ~M.done /\ M.ins = {} /\ Cardinality(M.st) = M.n
    [] OTHER -> FALSE
After(M, e) ==
  LET j == e.arg IN
  CASE e.op = "has(" -> [M EXCEPT !.ins = @ \cup {<<e.t, "has", 0>>}]
    [] e.op = "has)" -> [M EXCEPT !.ins = @ \ {<<e.t, "has", 0>>}]
    [] e.op = "next(" -> [M EXCEPT !.ins = @ \cup {<<e.t, "next", 0>>}]
    [] e.op = "next)" -> [M EXCEPT !.ins = @ \ {<<e.t, "next", 0>>}, !.given = @ + 1]
    [] e.op = "create(" -> [M EXCEPT !.ins = @ \cup {<<e.t, "create", 0>>}]
    [] e.op = "create)" -> [M EXCEPT !.ins = @ \ {<<e.t, "create", 0>>}, !.made = @ + 1]
    [] e.op = "exec(" -> [M EXCEPT !.ins = @ \cup {<<e.t, "exec", j, e.wk>>}, !.st[j] = 1]
    [] e.op = "exec)" -> [M EXCEPT !.ins = @ \ {<<e.t, "exec", j, e.wk>>}, !.st[j] = 2]
    [] e.op = "coll(" -> [M EXCEPT !.ins = @ \cup {<<e.t, "coll", j>>}, !.st[j] = 3]
    [] e.op = "coll)" -> [M EXCEPT !.ins = @ \ {<<e.t, "coll", j>>}, !.st[j] = 4]
    [] e.op = "lin" -> [M EXCEPT !.ins = @ \cup {<<e.t, "lock", e.arg, e.res>>}, !.st = @ \cup {<<e.arg, e.res>>}]
    [] e.op = "lout" -> [M EXCEPT !.ins = @ \ {<<e.t, "lock", e.arg, e.res>>}]
    [] e.op = "lcaught" -> M
    [] e.op \in {"return", "lend"} -> [M EXCEPT !.done = TRUE]
\* ---- the range provider: consecutive pieces of the given length, the last one possibly shorter
Pieces(b, e, len, q) ==
  IF b >= e THEN q = <<>>
  ELSE /\ Len(q) = (e - b + len - 1) \div len
       /\ \A i \in 1..Len(q) : q[i][1] = b + (i - 1) * len /\ q[i][2] = (IF b + i * len < e THEN b + i * len ELSE e)
RECURSIVE Total(_, _)
Total(b, e) == IF b >= e THEN 0 ELSE b + Total(b + 1, e)
Step(e) ==
  /\ UNCHANGED <<pc, lk, good>>
  /\ CASE e.op = "start" -> m' = New(e.n, e.th)
       \* st: the blocks entered
       [] e.op = "lstart" -> m' = [New(0, e.th) EXCEPT !.n = e.n, !.st = {}]
       [] e.op = "range" -> Pieces(e.b, e.e, e.len, e.q) /\ m' = m
       [] e.op = "sum" -> e.res = Total(e.b, e.e) /\ m' = m
       [] OTHER -> Ok(m, e) /\ m' = After(m, e)
\* ---- the algorithm: each thread makes its worker, then takes, runs and collects jobs; lk: holder of each lock (0 = free)
Init == m = New(0, 0) /\ out = [op |-> "init"] /\ pc = <<>> /\ lk = [l \in {"w", "p", "c"} |-> 0] /\ good = TRUE
MInit == \E n \in 0..MaxJ, t \in 0..MaxT :
  /\ m = New(n, t) /\ out = [op |-> "start", n |-> n, th |-> t] /\ lk = [l \in {"w", "p", "c"} |-> 0] /\ good = TRUE
  /\ pc = [i \in 1..(IF t > 1 THEN t ELSE 1) |-> [at |-> "lockw", j |-> 0, w |-> 0]]
GenInit == MInit
Ev(op, t, arg, res, wk) == [op |-> op, t |-> t, arg |-> arg, res |-> res, wk |-> wk]
Do(e) == out' = e /\ good' = Ok(m, e) /\ m' = After(m, e)
Quiet == UNCHANGED <<m, out, good>>
At(t, x) == pc[t].at = x
Go(t, x) == pc' = [pc EXCEPT ![t].at = x]
Lock(t, l, x) == lk[l] = 0 /\ lk' = [lk EXCEPT ![l] = t] /\ Go(t, x) /\ Quiet
Unlock(t, l, x) == lk' = [lk EXCEPT ![l] = 0] /\ Go(t, x) /\ Quiet
ThStep(t) ==
  \/ At(t, "lockw") /\ Lock(t, "w", "create")
  \/ At(t, "create") /\ Do(Ev("create(", t, 0, 0, 0)) /\ Go(t, "create2") /\ UNCHANGED lk
  \/ At(t, "create2") /\ Do(Ev("create)", t, 0, m.made + 1, 0)) /\ pc' = [pc EXCEPT ![t].at = "unlockw", ![t].w = m.made + 1] /\ UNCHANGED lk
  \/ At(t, "unlockw") /\ Unlock(t, "w", "lockp")
  \/ At(t, "lockp") /\ Lock(t, "p", "has")
  \/ At(t, "has") /\ Do(Ev("has(", t, 0, 0, 0)) /\ Go(t, "has2") /\ UNCHANGED lk
  \/ At(t, "has2") /\ LET r == IF m.given < m.n THEN 1 ELSE 0 IN Do(Ev("has)", t, 0, r, 0)) /\ Go(t, IF r = 1 THEN "next" ELSE "quit") /\ UNCHANGED lk
  \/ At(t, "quit") /\ Unlock(t, "p", "done")
  \/ At(t, "next") /\ Do(Ev("next(", t, 0, 0, 0)) /\ Go(t, "next2") /\ UNCHANGED lk
  \/ At(t, "next2") /\ Do(Ev("next)", t, 0, m.given + 1, 0)) /\ pc' = [pc EXCEPT ![t].at = "unlockp", ![t].j = m.given + 1] /\ UNCHANGED lk
  \/ At(t, "unlockp") /\ Unlock(t, "p", "exec")
  \/ At(t, "exec") /\ Do(Ev("exec(", t, pc[t].j, 0, pc[t].w)) /\ Go(t, "exec2") /\ UNCHANGED lk
  \/ At(t, "exec2") /\ Do(Ev("exec)", t, pc[t].j, Job(pc[t].j), pc[t].w)) /\ Go(t, "lockc") /\ UNCHANGED lk
  \/ At(t, "lockc") /\ Lock(t, "c", "coll")
  \/ At(t, "coll") /\ Do(Ev("coll(", t, pc[t].j, Job(pc[t].j), 0)) /\ Go(t, "coll2") /\ UNCHANGED lk
  \/ At(t, "coll2") /\ Do(Ev("coll)", t, pc[t].j, 0, 0)) /\ Go(t, "unlockc") /\ UNCHANGED lk
  \/ At(t, "unlockc") /\ Unlock(t, "c", "lockp")
Ret == (\A t \in DOMAIN pc : At(t, "done")) /\ ~m.done /\ Do(Ev("return", 0, 0, 1, 0)) /\ UNCHANGED <<pc, lk>>
MNext == Ret \/ \E t \in P(DOMAIN pc) : ThStep(t)
\* for schedules: a step, or nothing once all is done (histories have a fixed length)
GenNext == \/ \E t \in P({u \in DOMAIN pc : pc[u].at # "done" /\ (\A l \in {"w", "p", "c"} : At(u, "lock" \o l) => lk[l] = 0)}) : ThStep(t)
           \/ (\A t \in DOMAIN pc : At(t, "done")) /\ ~m.done /\ Ret
           \/ m.done /\ out' = [op |-> "idle", t |-> 0] /\ UNCHANGED <<m, pc, lk, good>>
Slim(e) == [k \in DOMAIN e \cap {"op", "t", "n", "th"} |-> e[k]]
Next == MNext
Spec == MInit /\ [][MNext]_vars /\ WF_vars(MNext)
\* ---- what the model guarantees
Accepted == good
Exclusive == \A C \in {Prov, {"create"}, {"coll"}} : Cardinality(Inside(m, C)) <= 1
Once == \A j \in 1..m.n : (m.st[j] > 0 => j <= m.given) /\ (m.done => m.st[j] = 4)
NeverStuck == m.done \/ ENABLED MNext
Terminates == <>(m.done)
=============================================================================
