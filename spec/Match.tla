-------------------------------- MODULE Match ------------------------------
(* C16: the occurrences of a key in a text.                                *)
EXTENDS Naturals, Integers, Sequences, SequencesExt
OccursAt(k, t, p) == /\ p + Len(k) <= Len(t)
                     /\ k # << >> => t[p + 1] = k[1]              \* (implied by the next line: spares TLC most of it)
                     /\ \A d \in 1..Len(k) : t[p + d] = k[d]
\* all positions of occurrences, increasing
Occ(k, t) == SelectSeq([j \in 1..Len(t) |-> j - 1], LAMBDA p : OccursAt(k, t, p))
=============================================================================
