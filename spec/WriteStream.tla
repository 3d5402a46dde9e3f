---------------------------- MODULE WriteStream ----------------------------
(* A writer appends the textual form of each value to the output. A buffer may keep back the end of it, but flushing  *)
(* or destroying the writer brings everything to the device, whose content is then exactly what was written so far    *)
(* (a device of limited size keeps the beginning).                                                                    *)
EXTENDS Pick
CONSTANTS MaxL, Sym, Caps
VARIABLES o, kind, cap, lim, buf, dev, out
vars == <<o, kind, cap, lim, buf, dev, out>>
\* kinds: 0 file, 1 stream, 2 string, 4 buffered, 5 simple, 6 simple stream, 7 fast
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN <<>> ELSE <<c>> \o Rep(c, n - 1)
\* ---- integers: v is the canonical decimal text; at least len digits
IntF(v, len) == LET neg == v[1] = 45 d == IF neg THEN Tail(v) ELSE v
               IN (IF neg THEN <<45>> ELSE <<>>) \o (IF len = 0 /\ d = <<48>> THEN <<>> ELSE Rep(48, len - Len(d)) \o d)
RECURSIVE IntText(_)
IntText(n) == IF n < 0 THEN <<45>> \o IntText(0 - n) ELSE IF n < 10 THEN <<48 + n>> ELSE IntText(n \div 10) \o <<48 + (n % 10)>>
\* ---- decimal numbers: digits d[1] d[2] ... with the point after the first x digits (x may be <= 0 or beyond the end)
Digit(d, i) == IF i \in 1..Len(d) THEN d[i] ELSE 48
RECURSIVE Inc(_)
Inc(q) == IF q = <<>> THEN <<49>> ELSE LET n == Len(q) IN IF q[n] = 57 THEN Append(Inc(SubSeq(q, 1, n - 1)), 48) ELSE [q EXCEPT ![n] = @ + 1]
\* the digits up to the k-th after the point: integer part of at least one digit, k digits
Cut(d, x, k) == [i \in 1..((IF x < 1 THEN 1 ELSE x) + k) |-> Digit(d, i - (IF x < 1 THEN 1 - x ELSE 0))]
\* what follows: -1, 0, 1 as it is below, at or above half a unit
Half(d, x, k) == LET i == x + k + 1 c == Digit(d, i) IN IF c # 53 THEN (IF c < 53 THEN -1 ELSE 1) ELSE IF \E j \in (IF i < 1 THEN 1 ELSE i + 1)..Len(d) : d[j] # 48 THEN 1 ELSE 0
Rounded(d, x, k) == {Cut(d, x, k) : z \in {y \in {0} : Half(d, x, k) <= 0}} \cup {Inc(Cut(d, x, k)) : z \in {y \in {0} : Half(d, x, k) >= 0}}
Point(q, k) == IF k = 0 THEN q ELSE SubSeq(q, 1, Len(q) - k) \o <<46>> \o SubSeq(q, Len(q) - k + 1, Len(q))
Fixed(neg, d, x, k) == {(IF neg = 1 THEN <<45>> ELSE <<>>) \o Point(q, k) : q \in Rounded(d, x, k)}
\* d has a non-zero first digit here, or is empty for zero
SciOf(q, g, k) == LET up == Len(q) > k + 1 m == IF up THEN SubSeq(q, 1, k + 1) ELSE q h == IF up THEN g + 1 ELSE g
                  IN Point(m, k) \o <<101>> \o <<IF h < 0 THEN 45 ELSE 43>> \o IntF(IntText(IF h < 0 THEN 0 - h ELSE h), 3)
Sci(neg, d, x, k) == {(IF neg = 1 THEN <<45>> ELSE <<>>) \o SciOf(q, IF d = <<>> THEN 0 ELSE x - 1, k) : q \in Rounded(d, 1, k)}
\* ---- textual forms an operation may append
Forms(e) ==
  CASE e.op = "char" -> {<<e.c>>}
    [] e.op \in {"write", "string", "cstr", "fmt"} -> {e.bytes}
    [] e.op = "int" -> {IntF(e.v, e.len)}
    [] e.op = "flt" -> IF e.sci = 1 THEN Sci(e.neg, e.d, e.x, e.prec) ELSE Fixed(e.neg, e.d, e.x, e.prec)
    [] OTHER -> {<<>>}
Lim(s) == IF lim < 0 \/ lim > Len(s) THEN s ELSE SubSeq(s, 1, lim)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* e.out, the device's content, is recorded when the writer is flushed or destroyed; then nothing may be missing
Step(e) ==
  IF e.op = "open" THEN o' = <<>> /\ kind' = e.kind /\ cap' = e.cap /\ lim' = e.lim /\ UNCHANGED <<buf, dev>>
  ELSE /\ UNCHANGED <<kind, cap, lim, buf, dev>>
       /\ CASE e.op \in {"flush", "close"} -> e.out = Lim(o) /\ o' = o
            [] e.op = "reserve" -> e.r <= cap /\ e.r >= Min2(e.n, cap) /\ o' = o
            [] e.op = "fmt" -> (e.null = 1) = (e.n > cap) /\ o' = (IF e.null = 1 THEN o ELSE o \o e.bytes)
            \* reading back: the values that were written, each followed by a blank
            [] e.op = "back" -> Len(e.got) = Len(e.want) /\ (\A i \in 1..Len(e.want) : e.got[i] = e.want[i]) /\ o' = o
            \* a floating-point form with a tie has two allowed texts: the output itself tells which
            [] e.op = "flt" -> \E t \in Forms(e) : t = e.text /\ o' = o \o t
            [] OTHER -> \E t \in Forms(e) : o' = o \o t
Init == o = <<>> /\ kind = 0 /\ cap = 0 /\ lim = -1 /\ buf = <<>> /\ dev = <<>> /\ out = [op |-> "init"]
GenInit == Init
\* ---- the buffering algorithm: a full buffer is sent on before the next byte
RECURSIVE Put(_, _, _)
Put(b, d, t) == IF t = <<>> THEN <<b, d>> ELSE IF Len(b) >= cap THEN Put(<<Head(t)>>, d \o b, Tail(t)) ELSE Put(Append(b, Head(t)), d, Tail(t))
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, c) : s \in Seqs(n - 1), c \in Sym}
Texts == UNION {Seqs(n) : n \in 0..Min2(MaxL, 3)}
Texts0 == {t \in Texts : \A i \in 1..Len(t) : t[i] # 0}
New == \E k \in P({0, 1, 2, 4, 5, 6, 7}), u \in P(0..2), c \in P(Caps), l \in P({-1, 0, 2, MaxL * 4}) :
         LET e == [op |-> "open", kind |-> k, under |-> u, cap |-> c, lim |-> IF k = 2 \/ (k \in 4..6 /\ u = 2) THEN (IF l < 0 THEN 7 ELSE l) ELSE -1]
         IN o' = <<>> /\ kind' = k /\ cap' = (IF k <= 2 THEN 0 ELSE c) /\ lim' = e.lim /\ buf' = <<>> /\ dev' = <<>> /\ out' = e
App(e, t) == LET r == IF kind <= 2 THEN <<<<>>, dev \o t>> ELSE Put(buf, dev, t) IN o' = o \o t /\ buf' = r[1] /\ dev' = r[2] /\ out' = e /\ UNCHANGED <<kind, cap, lim>>
Ints == IF MaxL <= 1 THEN {-1, 12} ELSE {-10, -1, 0, 7, 12, 100}
Pdec == IF MaxL <= 1 THEN {[d |-> <<57, 57>>, x |-> 1]} ELSE {[d |-> <<>>, x |-> 0], [d |-> <<57, 57>>, x |-> 1], [d |-> <<49>>, x |-> -1], [d |-> <<49, 50, 53>>, x |-> 3], [d |-> <<57, 57, 53>>, x |-> 0]}
GenNext ==
  IF out.op = "init" THEN New
  ELSE IF out.op = "close" THEN out' = [op |-> "none"] /\ UNCHANGED <<o, kind, cap, lim, buf, dev>>
  ELSE IF out.op = "none" THEN FALSE ELSE
  \/ \E c \in P(Sym) : App([op |-> "char", c |-> c], <<c>>)
  \/ kind \in {0, 1, 2, 4, 5} /\ \E t \in P(Texts) : App([op |-> "write", bytes |-> t], t)
  \/ kind \in {5, 6, 7} /\ \E t \in P(Texts) : App([op |-> "string", bytes |-> t], t)
  \/ kind \in {5, 7} /\ \E t \in P(Texts0) : App([op |-> "cstr", bytes |-> t], t)
  \/ kind \in {5, 6, 7} /\ \E n \in P(Ints), l \in P(0..3), w \in P(0..2) : LET z == IF kind = 6 THEN 1 ELSE l IN App([op |-> "int", v |-> IntText(n), len |-> z, w |-> w], IntF(IntText(n), z))
  \/ kind \in {5, 7} /\ \E f \in P(Pdec), g \in P(0..1), k \in P(0..2), s \in P(0..1) :
       LET e == [op |-> "flt", neg |-> g, d |-> f.d, x |-> f.x, prec |-> k, sci |-> s, fl |-> 0] IN \E t \in P(Forms(e)) : f.d # <<>> /\ App([text |-> t] @@ e, t)
  \/ kind \in {4, 5, 7} /\ \E n \in P(0..(cap + 2)), t \in P(Texts0) : LET e == [op |-> "fmt", n |-> n, bytes |-> IF n > cap THEN <<>> ELSE SubSeq(t, 1, Min2(n, Len(t))), null |-> B01(n > cap)] IN App(e, e.bytes)
  \/ kind \in {4, 5, 7} /\ \E n \in P(0..(cap + 2)) : out' = [op |-> "reserve", n |-> n, r |-> cap] /\ UNCHANGED <<o, kind, cap, lim, buf, dev>>
  \/ \E c \in P({"flush", "close", "flush"}) : buf' = <<>> /\ dev' = dev \o buf /\ out' = [op |-> c, out |-> Lim(o)] /\ UNCHANGED <<o, kind, cap, lim>>
Next == GenNext
Slim(e) == [k \in DOMAIN e \ {"out", "text", "r", "null"} |-> e[k]]
Laws == /\ dev \o buf = o /\ Len(buf) <= cap
        /\ out.op \in {"flush", "close"} => Lim(dev) = out.out
        /\ out.op = "flt" => \A t \in Forms(out) : Len(t) >= 1 + out.prec
Short == Len(o) <= MaxL * 2
=============================================================================
