------------------------------- MODULE Random -------------------------------
(* Mersenne Twister MT19937 (Matsumoto, Nishimura 2002), xorshift64* and xorshift1024* (Vigna) as state machines on      *)
(* words of 32 and 64 bits; ranges drawn from them.                                                                     *)
EXTENDS Pick, Big, SequencesExt
CONSTANT MaxW
VARIABLES mt, pos, x64, s16, p16, slot, out
vars == <<mt, pos, x64, s16, p16, slot, out>>
Hex(h, l) == BAdd(BMul(B(h), B(65536)), B(l))
MA == Hex(39176, 45279)
TB == Hex(40236, 22144)
TC == Hex(61382, 0)
F1 == B(1812433253)
F2 == B(1664525)
F3 == B(1566083941)
Top == BPow2(31)
W32(x) == BWrap(x, 32)
W64(x) == BWrap(x, 64)
\* ---- MT19937: x[k+624] = x[k+397] ^ (upper bit of x[k], lower bits of x[k+1]) A
Tw(m, u, v) == LET y == BAdd(IF BLe(Top, u) THEN Top ELSE B(0), BWrap(v, 31)) IN BXor(BXor(m, BShr(y, 1)), IF BWrap(y, 1) = B(0) THEN B(0) ELSE MA)
Block(o) ==
  LET a == TLCEval([k \in 1..227 |-> Tw(o[k + 397], o[k], o[k + 1])])
      b == TLCEval([k \in 1..227 |-> Tw(a[k], o[k + 227], o[k + 228])])
      c == TLCEval([k \in 1..169 |-> Tw(b[k], o[k + 454], o[k + 455])])
      d == Tw(b[170], o[624], a[1])
  IN TLCEval([k \in 1..624 |-> IF k <= 227 THEN a[k] ELSE IF k <= 454 THEN b[k - 227] ELSE IF k <= 623 THEN c[k - 454] ELSE d])
Temper(y0) == LET y1 == BXor(y0, BShr(y0, 11)) y2 == BXor(y1, BAnd(BShl(y1, 7), TB)) y3 == BXor(y2, BAnd(BShl(y2, 15), TC)) IN BXor(y3, BShr(y3, 18))
Scr(x) == BXor(x, BShr(x, 30))
Init1(s) == LET St(a, i) == Append(a, W32(BAdd(BMul(F1, Scr(a[i])), B(i)))) IN FoldLeft(St, <<W32(s)>>, [i \in 1..623 |-> i])
\* init_by_array: state <<a, i, j>>, 0-based i and j
InitA(key) ==
  LET L == Len(key) n == IF L > 624 THEN L ELSE 624
      Wrap1(a, i, j) == IF i + 1 >= 624 THEN <<[a EXCEPT ![1] = a[624]], 1, j>> ELSE <<a, i + 1, j>>
      St1(z, q) == LET a == z[1] i == z[2] j == z[3] x == W32(BAdd(BXor(a[i + 1], W32(BMul(Scr(a[i]), F2))), BAdd(key[j + 1], B(j))))
                   IN Wrap1([a EXCEPT ![i + 1] = x], i, (j + 1) % L)
      St2(z, q) == LET a == z[1] i == z[2] x == W32(BSub(BXor(a[i + 1], W32(BMul(Scr(a[i]), F3))), B(i))) IN Wrap1([a EXCEPT ![i + 1] = x], i, 0)
      y == FoldLeft(St1, <<Init1(B(19650218)), 1, 0>>, [q \in 1..n |-> q])
      z == FoldLeft(St2, y, [q \in 1..623 |-> q])
  IN [z[1] EXCEPT ![1] = Top]
\* the k-th draw from here on: <<state, position>> after it is (m, p + 1), renewing the block when it is used up
Adv(z) == IF z[2] = 624 THEN <<Block(z[1]), 1>> ELSE <<z[1], z[2] + 1>>
Val(z) == Temper(z[1][z[2]])
RECURSIVE Outs(_, _, _)
\* n draws: <<values, state>>
Outs(z, n, acc) == IF n = 0 THEN <<acc, z>> ELSE LET y == TLCEval(Adv(z)) IN Outs(y, n - 1, Append(acc, Val(y)))
RECURSIVE OnesTo(_)
OnesTo(n) == LET k == Len(BBits(n)) IN BSub(BPow2(k), B(1))
RECURSIVE FirstIn(_, _, _)
FirstIn(z, n, mask) == LET y == TLCEval(Adv(z)) v == BAnd(Val(y), mask) IN IF BLe(v, n) THEN <<v, y>> ELSE FirstIn(y, n, mask)
\* ---- xorshift
X64(x) == LET a == BXor(x, BShr(x, 12)) b == BXor(a, W64(BShl(a, 25))) IN BXor(b, BShr(b, 27))
M64 == <<1, <<8717, 3633, 6577, 5821, 268>>>>
M1024 == <<1, <<2981, 7665, 4972, 1783, 118>>>>
Out64(x) == W64(BMul(x, M64))
S16(s) == LET St(a, i) == <<X64(a[1]), Append(a[2], Out64(X64(a[1])))>> IN FoldLeft(St, <<s, <<>>>>, [i \in 1..16 |-> i])[2]
N16(s, p) == LET q == (p + 1) % 16 s0 == s[p + 1] s1 == s[q + 1] t == BXor(s1, W64(BShl(s1, 31))) u == BXor(t, BShr(t, 11)) v == BXor(s0, BShr(s0, 30)) IN <<[s EXCEPT ![q + 1] = BXor(v, u)], q>>
Out16(z) == W64(BMul(z[1][z[2] + 1], M1024))
RECURSIVE Draw64(_, _, _), Draw16(_, _, _)
Draw64(x, n, acc) == IF n = 0 THEN <<acc, x>> ELSE LET y == X64(x) IN Draw64(y, n - 1, Append(acc, Out64(y)))
Draw16(z, n, acc) == IF n = 0 THEN <<acc, z>> ELSE LET y == TLCEval(N16(z[1], z[2])) IN Draw16(y, n - 1, Append(acc, Out16(y)))
\* ---- ranges: words of b bits onto lo..hi, both inclusive
Width(lo, hi) == BAdd(BSub(hi, lo), B(1))
InRange(v, lo, hi) == BAdd(lo, BMod(v, Width(lo, hi)))
\* the largest multiple of w not above 2^b; written 0 when it is 2^b itself
Biggest(w, b) == LET m == BMul(w, BDiv(BPow2(b), w)) IN BWrap(m, b)
\* the position of the draw used: the first below the multiple, or the 20th
Accept(vs, lo, hi, b) == LET w == Width(lo, hi) m == BMul(w, BDiv(BPow2(b), w)) ok == {i \in 1..Len(vs) : BLt(vs[i], m)} IN IF ok = {} THEN 20 ELSE LET i == CHOOSE i \in ok : \A j \in ok : i <= j IN IF i > 20 THEN 20 ELSE i
Uni64(lo, hi) == LET d == Draw64(x64, 20, <<>>)[1] IN Accept(d, lo, hi, 64)
Uni16(lo, hi) == LET d == Draw16(<<s16, p16>>, 20, <<>>)[1] IN Accept(d, lo, hi, 64)
KMT == UNCHANGED <<mt, pos>>
KX == UNCHANGED x64
KS == UNCHANGED <<s16, p16>>
KSlot == UNCHANGED slot
MTTo(z) == mt' = z[1] /\ pos' = z[2]
STo(z) == s16' = z[1] /\ p16' = z[2]
Cur == <<mt, pos>>
S64(n) == BPow2(n)
Step(e) ==
  CASE e.op = "open" -> mt' = <<>> /\ pos' = 0 /\ x64' = B(0) /\ s16' = <<>> /\ p16' = 0 /\ slot' = <<>>
    \* Mersenne Twister
    [] e.op = "seed" -> mt' = Block(Init1(e.s)) /\ pos' = 0 /\ KX /\ KS /\ KSlot
    [] e.op = "seeda" -> mt' = Block(InitA(e.key)) /\ pos' = 0 /\ KX /\ KS /\ KSlot
    [] e.op = "ints" -> LET r == Outs(Cur, e.n, <<>>) IN e.v = r[1] /\ MTTo(r[2]) /\ KX /\ KS /\ KSlot
    [] e.op = "below" -> LET r == FirstIn(Cur, e.n, OnesTo(e.n)) IN e.v = r[1] /\ BIn(e.v, B(0), e.n) /\ MTTo(r[2]) /\ KX /\ KS /\ KSlot
    \* reals, scaled to integers: rand * (2^32-1), randExc * 2^32, randDblExc * 2^33, rand53 * 2^53
    [] e.op = "real" ->
         LET z == Adv(Cur) x == Val(z) z2 == Adv(z) y == Val(z2) IN
         IF e.k = "53" THEN e.v = BAdd(BMul(BShr(x, 5), BPow2(26)), BShr(y, 6)) /\ MTTo(z2) /\ KX /\ KS /\ KSlot
         ELSE /\ e.v = (CASE e.k = "inc" -> x [] e.k = "exc" -> x [] e.k = "dbl" -> BAdd(BMul(x, B(2)), B(1))) /\ e.inside = 1 /\ MTTo(z) /\ KX /\ KS /\ KSlot
    [] e.op = "norm" -> e.finite = 1 /\ MTTo(Adv(Adv(Cur))) /\ KX /\ KS /\ KSlot
    \* saving (array or text) and loading into this or another generator
    [] e.op = "save" -> slot' = Cur /\ KMT /\ KX /\ KS
    [] e.op = "load" -> MTTo(slot) /\ KX /\ KS /\ KSlot
    \* xorshift64*
    [] e.op = "seed64" -> x64' = e.s /\ KMT /\ KS /\ KSlot
    [] e.op = "next64" -> LET r == Draw64(x64, e.n, <<>>) IN e.v = r[1] /\ x64' = r[2] /\ KMT /\ KS /\ KSlot
    [] e.op = "range64" -> x64' = X64(x64) /\ e.v = InRange(Out64(x64'), e.lo, e.hi) /\ KMT /\ KS /\ KSlot
    [] e.op = "uni64" -> LET k == Uni64(e.lo, e.hi) r == Draw64(x64, k, <<>>) IN e.v = InRange(r[1][k], e.lo, e.hi) /\ BIn(e.v, e.lo, e.hi) /\ x64' = r[2] /\ KMT /\ KS /\ KSlot
    [] e.op = "dbl64" -> x64' = X64(x64) /\ e.inside = 1 /\ BLe(BAbs(BSub(e.v, BShr(Out64(x64'), 24))), B(1)) /\ KMT /\ KS /\ KSlot
    \* xorshift1024*
    [] e.op = "seed16" -> s16' = S16(e.s) /\ p16' = 0 /\ KMT /\ KX /\ KSlot
    [] e.op = "seed16a" -> s16' = e.key /\ p16' = 0 /\ KMT /\ KX /\ KSlot
    [] e.op = "next16" -> LET r == Draw16(<<s16, p16>>, e.n, <<>>) IN e.v = r[1] /\ STo(r[2]) /\ KMT /\ KX /\ KSlot
    [] e.op = "range16" -> LET z == N16(s16, p16) IN e.v = InRange(Out16(z), e.lo, e.hi) /\ STo(z) /\ KMT /\ KX /\ KSlot
    [] e.op = "uni16" -> LET k == Uni16(e.lo, e.hi) r == Draw16(<<s16, p16>>, k, <<>>) IN e.v = InRange(r[1][k], e.lo, e.hi) /\ STo(r[2]) /\ KMT /\ KX /\ KSlot
    [] e.op = "dbl16" -> LET z == N16(s16, p16) IN e.inside = 1 /\ BLe(BAbs(BSub(e.v, BShr(Out16(z), 24))), B(1)) /\ STo(z) /\ KMT /\ KX /\ KSlot
    \* helpers on words of e.b bits
    [] e.op = "tor" -> e.r = InRange(e.x, e.lo, e.hi) /\ BIn(e.r, e.lo, e.hi) /\ KMT /\ KX /\ KS /\ KSlot
    [] e.op = "mult" -> e.r = (IF e.w = B(0) THEN B(0) ELSE Biggest(e.w, e.b)) /\ KMT /\ KX /\ KS /\ KSlot
    [] e.op = "uni" -> LET k == Accept(e.vs, e.lo, e.hi, e.b) IN e.used = k /\ e.r = InRange(e.vs[k], e.lo, e.hi) /\ KMT /\ KX /\ KS /\ KSlot
    [] e.op = "unit" -> e.inside = 1 /\ BLe(BAbs(BSub(e.v, BDiv(BMul(e.x, BPow2(20)), BSub(BPow2(e.b), B(1))))), B(1)) /\ (e.x = BSub(BPow2(e.b), B(1)) => e.one = 1) /\ (e.x = B(0) => e.v = B(0)) /\ KMT /\ KX /\ KS /\ KSlot
    \* two generators with the same history
    [] e.op = "same" -> e.eq = 1 /\ KMT /\ KX /\ KS /\ KSlot
    [] OTHER -> FALSE
Init == mt = <<>> /\ pos = 0 /\ x64 = B(0) /\ s16 = <<>> /\ p16 = 0 /\ slot = <<>> /\ out = [op |-> "init"]
\* ---- laws: published test values (mt19937ar.out), and uniformity of accepted draws on narrow words
LInit == Init
LNext == IF pos < MaxW THEN pos' = pos + 1 /\ UNCHANGED <<mt, x64, s16, p16, slot, out>> ELSE FALSE
Golden == LET z == <<Block(InitA(<<B(291), B(564), B(837), B(1110)>>)), 0>>
          IN Outs(z, 5, <<>>)[1] = <<<<1, <<5299, 6759, 10>>>>, <<1, <<5823, 5594, 9>>>>, <<1, <<9528, 7728, 4>>>>, <<1, <<8783, 721, 41>>>>, <<1, <<6476, 2897, 42>>>>>>
Uniform == LET w == pos + 1 m == w * (256 \div w) IN
  /\ pos < 256 => Biggest(B(w), 8) = B(m % 256)
  /\ pos < 256 => \A r \in 0..(w - 1) : Cardinality({v \in 0..(m - 1) : InRange(B(v), B(0), B(pos)) = B(r)}) = 256 \div w
ASSUME Golden
=============================================================================
