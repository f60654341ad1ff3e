----------------------------- MODULE MultiBit ------------------------------
(* C04: vector of small types, written in any order, extended on demand.   *)
EXTENDS SymSeq
VARIABLES seq,     \* the types written; positions never written are 0
          built    \* a rank directory of the present content exists
MBInit == seq = << >> /\ built = FALSE

Grown(s, n) == [k \in 1..(IF n > Len(s) THEN n ELSE Len(s)) |-> IF k <= Len(s) THEN s[k] ELSE 0]
Written(s, x, t) == [Grown(s, x + 1) EXCEPT ![x + 1] = t]

Set(x, t)   == seq' = Written(seq, x, t) /\ built' = FALSE
SetMany(l)  == seq' = FoldLeft(LAMBDA s, p : Written(s, p[1], p[2]), seq, l) /\ built' = FALSE
Extend(l)   == seq' = seq \o l /\ built' = FALSE
GrowTo(x)   == seq' = Grown(seq, x + 1) /\ built' = FALSE
Build       == built' = TRUE /\ UNCHANGED seq
=============================================================================
