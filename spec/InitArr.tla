------------------------------ MODULE InitArr ------------------------------
(* C14: an initializable array as a function from indices to values.       *)
EXTENDS Naturals, Integers, Sequences, SequencesExt
VARIABLE arr
IInit == arr = << >>
\* constructed, or initialised as a whole
InitAll(n, x) == arr' = [k \in 1..n |-> x]
FromList(l)   == arr' = l
Set(k, x)     == k < Len(arr) /\ arr' = [arr EXCEPT ![k + 1] = x]
SetMany(l)    == /\ \A j \in 1..Len(l) : l[j][1] < Len(arr)
                 /\ arr' = FoldLeft(LAMBDA s, p : [s EXCEPT ![p[1] + 1] = p[2]], arr, l)
=============================================================================
