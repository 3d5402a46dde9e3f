------------------------------- MODULE BigLaws -------------------------------
(* The evaluator of Big's operators agrees with their definitions, and the definitions satisfy the laws of integers. *)
EXTENDS Big, FiniteSets, TLC
CONSTANTS Num, Extra
VARIABLES a, b
Small == {PInt(n) : n \in {0 - 10001, 0 - 7, 0 - 1, 0, 1, 2, 3, 4, 8, 16, 9999, 10000, 65536, 2147483647}} \cup {PInt(0 - 2147483647 - 1)}
RECURSIVE RL(_)
RL(n) == IF n = 0 THEN <<RandomElement(1..9999)>> ELSE <<RandomElement({0, 1, 9999} \cup 0..9999)>> \o RL(n - 1)
Wide == {<<s, RL(n)>> : s \in {-1, 1}, n \in 0..Num} \cup {<<1, RL(n)>> : n \in 0..Extra}
LInit == a = PInt(0) /\ b \in Small \cup Wide
LNext == a' \in Small \cup Wide /\ b' = b
Nat2 == a[1] >= 0 /\ b[1] >= 0
Laws ==
  /\ BigOK(a) /\ BNeg(a) = PNeg(a) /\ BAdd(a, b) = PAdd(a, b) /\ BSub(a, b) = PSub(a, b) /\ BMul(a, b) = PMul(a, b) /\ BCmp(a, b) = PCmp(a, b) /\ BGcd(a, b) = PGcd(a, b)
  /\ BAdd(BMul(a, b), a) = BMul(a, BAdd(b, B(1))) /\ BSub(BAdd(a, b), b) = a
  /\ b[1] # 0 => BQuo(a, b) = PQuo(a, b) /\ BRem(a, b) = PRem(a, b) /\ BAdd(BMul(BQuo(a, b), b), BRem(a, b)) = a
  /\ b[1] > 0 => BMod(a, b) = PMod(a, b) /\ BDiv(a, b) = PDiv(a, b)
  /\ b[1] > 0 /\ a[1] >= 0 /\ Len(a[2]) < 3 => BPowMod(b, a, b) = PPowMod(b, a, b) /\ BPowMod(B(3), a, b) = PPowMod(B(3), a, b)
  /\ Nat2 => BAnd(a, b) = PAnd(a, b) /\ BOr(a, b) = POr(a, b) /\ BXor(a, b) = PXor(a, b)
  /\ b = B(1) => /\ a[1] >= 0 => BBits(a) = PBits(a) /\ BVal(BBits(a)) = a /\ PVal(PBits(a)) = a
                 /\ \A n \in {1, 5, 32, 64} : BShl(a, n) = PShl(a, n) /\ BShr(a, n) = PShr(a, n) /\ BWrap(a, n) = PWrap(a, n) /\ BWrapS(a, n) = PWrapS(a, n) /\ BPow2(n) = PPow2(n)
                 /\ \A n \in 0..4 : BPow(a, n) = PPow(a, n)
                 /\ a[1] >= 0 => \A k \in 1..3 : BRoot(a, k) = PRoot(a, k)
  /\ LET v == <<a, b, BMul(a, b)>> w == <<b, BNeg(a), B(0), B(1), a>> u == BVMod(v, B(10007)) IN /\ BConv(v, w) = PConv(v, w) /\ BConv(u, <<B(3), B(0), B(10006)>>) = PConv(u, <<B(3), B(0), B(10006)>>) /\ BVMod(w, B(10007)) = PVMod(w, B(10007))
                                                                                /\ BConv(v, <<>>) = <<>> /\ BConv(<<>>, w) = <<>> /\ BConv(<<a>>, w) = PConv(<<a>>, w)
  /\ \A n \in {0, 1, -1, 9999, 10000, -10000, 2147483647} : B(n) = PInt(n) /\ BToInt(B(n)) = n /\ PToInt(PInt(n)) = n
==============================================================================
