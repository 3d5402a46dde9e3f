---------------------------- MODULE ReadStream ----------------------------
(* A reader is a position in a byte sequence. Every operation, at whatever layer and with whatever buffer,          *)
(* is a function of the bytes from that position on; the buffer is visible only through reserve, data, skip and      *)
(* through block reads longer than the buffer, which may stop early. failed: an operation got less than it asked for. *)
EXTENDS Pick
CONSTANTS MaxL, Sym, Caps
VARIABLES inp, p, fail, kind, cap, av, last, out
vars == <<inp, p, fail, kind, cap, av, last, out>>
\* kinds: 0 file, 1 stream, 2 string, 3 c-string, 4 buffered, 5 simple, 6 simple stream, 7 fast
Min2(a, b) == IF a < b THEN a ELSE b
N == Len(inp)
Rem == N - p
Ws == 0..32
Dig == 48..57
\* end of the run of bytes from class C that starts at q
Run(q, C) == CHOOSE j \in q..N : (IF j = N THEN TRUE ELSE inp[j + 1] \notin C) /\ \A i \in (q + 1)..j : inp[i] \in C
Is(q, C) == q < N /\ (IF q < N THEN inp[q + 1] \in C ELSE FALSE)
Bytes(a, b) == SubSeq(inp, a + 1, b)
AfterSign(q) == IF Is(q, {43, 45}) THEN q + 1 ELSE q
Neg(q) == Is(q, {45})
\* decimal text without leading zeros
RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ (IF d # <<>> THEN d[1] = 48 ELSE FALSE) THEN Strip(Tail(d)) ELSE d
Canon(neg, d) == LET s == Strip(d) IN IF s = <<>> THEN <<48>> ELSE IF neg THEN <<45>> \o s ELSE s
RECURSIVE RStrip(_)
RStrip(d) == IF d # <<>> /\ (IF d # <<>> THEN d[Len(d)] = 48 ELSE FALSE) THEN RStrip(SubSeq(d, 1, Len(d) - 1)) ELSE d
RECURSIVE Val(_)
Val(d) == IF d = <<>> THEN 0 ELSE 10 * Val(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)] - 48
\* ---- a floating-point literal from q on: [sign] digits [. digits] [e [sign] digits]
Flt(q0) ==
  LET q == AfterSign(q0) a == Run(q, Dig)
      pt == Is(a, {46}) b == IF pt THEN Run(a + 1, Dig) ELSE a
      ex == Is(b, {69, 101}) c == IF ex THEN AfterSign(b + 1) ELSE b d == IF ex THEN Run(c, Dig) ELSE b
      I == Bytes(q, a) F == IF pt THEN Bytes(a + 1, b) ELSE <<>> X == IF ex THEN Strip(Bytes(c, d)) ELSE <<>>
      M == Strip(I \o F)
  IN [end |-> d, neg |-> Neg(q0), man |-> RStrip(M), big |-> Len(X) > 3,
      \* exponent of the first significant digit
      exp |-> (IF Len(X) > 3 THEN 0 ELSE (IF ex /\ Neg(b + 1) THEN 0 - Val(X) ELSE Val(X))) + Len(M) - 1 - Len(F)]
\* v: [neg, digits of the value printed with Len(dig) significant digits, exponent]; judged when the literal has fewer digits
FltOk(t, e, maxd, maxe) ==
  IF t.man = <<>> THEN RStrip(e.dig) = <<>>
  ELSE (Len(t.man) <= maxd /\ ~t.big /\ t.exp \in (0 - maxe)..maxe) => /\ e.neg = B01(t.neg) /\ RStrip(e.dig) = t.man /\ e.exp = t.exp
\* ---- the effect of an operation: new position, whether it came to the end of the input, which results it allows
R(q, touch, ok) == [q |-> q, touch |-> touch, ok |-> ok]
Eff(e) ==
  LET w == Run(p, Ws) IN
  CASE e.op = "read_char" -> R(Min2(p + 1, N), p = N, e.r = (IF p < N THEN inp[p + 1] ELSE -1))
    \* a block read gets everything asked for, unless the input ends or a buffer is smaller than that
    [] e.op = "read" -> LET k == Len(e.bytes) IN
         R(p + k, k < e.n, k <= Min2(e.n, Rem) /\ e.bytes = Bytes(p, p + k) /\ (k = Min2(e.n, Rem) \/ (kind >= 4 /\ e.n > cap /\ k >= Min2(cap, Rem))))
    [] e.op = "unread" -> R(p - 1, FALSE, last = "read_char")
    [] e.op = "skip" -> IF kind = 7 THEN R(Min2(p + e.n, N), FALSE, TRUE)
                        ELSE R(p + e.r, FALSE, e.r \in 0..Min2(e.n, Rem) /\ e.r >= Min2(e.n, av))
    [] e.op = "advance" -> R(p + e.n, FALSE, e.n <= e.have /\ e.have \in av..Min2(cap, Rem) /\ e.r = 0)
    [] e.op = "reserve" -> R(p, FALSE, e.r <= Min2(cap, Rem) /\ e.r >= Min2(e.n, Min2(cap, Rem)) /\ e.r >= av)
    [] e.op = "data" -> LET k == Len(e.bytes) IN
         R(p, e.null = 1, /\ k <= Min2(cap, Rem) /\ k >= av /\ (e.null = 1) = (k < e.n) /\ (e.null = 1 => k = Min2(cap, Rem))
                          /\ e.bytes = Bytes(p, p + k) /\ e.term = 0)
    [] e.op = "read_line" -> LET j == Run(p, (0..255) \ {e.c}) IN R(Min2(j + 1, N), j = N, e.bytes = Bytes(p, j))
    [] e.op = "read_string" -> LET j == Run(w, 33..255) IN R(j, j = N, e.bytes = Bytes(w, j))
    [] e.op = "skip_ws" -> R(w, w = N, TRUE)
    [] e.op = "read_sign" -> R(AfterSign(p), p = N, e.r = (IF Neg(p) THEN -1 ELSE 1))
    [] e.op = "read_digits" -> LET j == Run(p, Dig) IN R(j, j = N, e.r = Canon(FALSE, Bytes(p, j)) /\ e.cnt = j - p)
    [] e.op \in {"read_int", "read_l", "read_ll"} -> LET j == Run(AfterSign(w), Dig) IN R(j, j = N, e.r = Canon(Neg(w), Bytes(AfterSign(w), j)))
    [] e.op = "read_double" -> LET t == Flt(w) IN R(t.end, t.end = N, FltOk(t, e, 9, 200))
    [] e.op = "read_float" -> LET t == Flt(w) IN R(t.end, t.end = N, FltOk(t, e, 5, 25))
    [] OTHER -> R(p, FALSE, FALSE)
Max0(x) == IF x < 0 THEN 0 ELSE x
Known(e, q) == CASE e.op = "reserve" -> e.r [] e.op = "data" -> Len(e.bytes) [] OTHER -> Max0(av - (q - p))
Open(e) == inp' = e.inp /\ p' = 0 /\ fail' = FALSE /\ kind' = e.kind /\ cap' = e.cap /\ av' = 0 /\ last' = ""
Take(e, f) == /\ p' = f.q /\ fail' = (fail \/ f.touch) /\ av' = Known(e, f.q) /\ UNCHANGED <<inp, kind, cap>>
              /\ last' = (IF e.op = "read_char" /\ ~f.touch THEN "read_char" ELSE "")
Step(e) ==
  IF e.op = "open" THEN Open(e) /\ e.fl \in {1, -1}
  ELSE LET f == Eff(e) IN f.ok /\ Take(e, f) /\ (e.fl = -1 \/ e.fl = B01(~(fail \/ f.touch)))
Init == inp = <<>> /\ p = 0 /\ fail = FALSE /\ kind = 0 /\ cap = 0 /\ av = 0 /\ last = "" /\ out = [op |-> "init"]
GenInit == Init
\* ---- behaviours: some result every operation may have
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, c) : s \in Seqs(n - 1), c \in Sym}
New == \E k \in P(0..7), u \in P(0..3), c \in P(Caps), n \in P(0..MaxL) : \E s \in P(IF n <= 3 THEN Seqs(n) ELSE {[i \in 1..n |-> RandomElement(Sym)]}) :
         LET e == [op |-> "open", kind |-> k, under |-> u, cap |-> c, inp |-> s, fl |-> 1] IN Open(e) /\ out' = e
Ops == [b \in 0..7 |-> IF b <= 3 THEN {"read_char", "read"}
        ELSE IF b = 4 THEN {"read_char", "read", "unread", "skip", "reserve", "data", "advance"}
        ELSE IF b = 6 THEN {"read_char", "read_string", "read_line", "read_int", "read_l", "read_ll", "read_double", "read_float"}
        ELSE {"read_char", "read", "unread", "skip", "reserve", "data", "advance", "read_line", "read_string", "skip_ws", "read_sign", "read_digits", "read_int", "read_ll", "read_l", "read_double", "read_float"} \ (IF b = 7 THEN {"read", "read_line"} ELSE {})]
\* the fullest result
Res(o, n, c) ==
  LET w == Run(p, Ws) base == [op |-> o, n |-> n, c |-> c, fl |-> -1] k == Min2(IF kind >= 4 THEN cap ELSE n, Min2(n, Rem)) IN
  CASE o = "read_char" -> [r |-> IF p < N THEN inp[p + 1] ELSE -1] @@ base
    [] o = "read" -> [bytes |-> Bytes(p, p + k)] @@ base
    [] o = "unread" -> base
    [] o = "skip" -> [r |-> Min2(n, av)] @@ base
    [] o = "advance" -> [r |-> 0, have |-> av] @@ [base EXCEPT !.n = Min2(n, av)]
    [] o = "reserve" -> [r |-> Min2(cap, Rem)] @@ base
    [] o = "data" -> [null |-> B01(Min2(cap, Rem) < n), bytes |-> Bytes(p, p + Min2(cap, Rem)), term |-> 0] @@ base
    [] o = "read_line" -> [bytes |-> Bytes(p, Run(p, (0..255) \ {c}))] @@ base
    [] o = "read_string" -> [bytes |-> Bytes(w, Run(w, 33..255))] @@ base
    [] o = "skip_ws" -> base
    [] o = "read_sign" -> [r |-> IF Neg(p) THEN -1 ELSE 1] @@ base
    [] o = "read_digits" -> LET j == Run(p, Dig) IN [r |-> Canon(FALSE, Bytes(p, j)), cnt |-> j - p] @@ base
    [] o \in {"read_int", "read_l", "read_ll"} -> LET j == Run(AfterSign(w), Dig) IN [r |-> Canon(Neg(w), Bytes(AfterSign(w), j))] @@ base
    [] o \in {"read_double", "read_float"} -> LET t == Flt(w) IN [neg |-> B01(t.neg), dig |-> t.man, exp |-> t.exp] @@ base
GenNext == IF out.op = "init" THEN New
           ELSE \E o \in P(Ops[kind] \ (IF last = "read_char" THEN {} ELSE {"unread"})) : \E n \in P(IF o \in {"read", "skip", "advance", "reserve", "data"} THEN 0..(MaxL + 1) ELSE {0}), c \in P(IF o = "read_line" THEN Sym ELSE {0}) :
                  LET e == Res(o, n, c) f == Eff(e) IN Take(e, f) /\ out' = [e EXCEPT !.fl = B01(~(fail \/ f.touch))]
Next == GenNext
Slim(e) == [k \in DOMAIN e \cap {"op", "n", "c", "kind", "under", "cap", "inp"} |-> e[k]]
\* ---- laws: the results are allowed, positions stay inside, bytes already seen determine the rest, failing is at the end
Laws == p \in 0..N /\ av \in 0..Rem
Sound == [][out'.op # "open" => Eff(out').ok /\ (out'.op \notin {"unread"} => p' >= p) /\ (fail => fail')]_vars
\* reading character by character tells the same story as any token read
Agree == [][out'.op = "read_string" /\ out.op # "init" => \A i \in 1..Len(out'.bytes) : out'.bytes[i] \in 33..255]_vars
=============================================================================
