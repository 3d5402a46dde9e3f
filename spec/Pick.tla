---- MODULE Pick ----
(* Choice of action parameters: every value when exploring exhaustively,     *)
(* one random value when generating behaviours (cfg: P <- RandP).            *)
EXTENDS TLC, Integers, Sequences, FiniteSets
P(S) == S
RandP(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
B01(x) == IF x THEN 1 ELSE 0
====
