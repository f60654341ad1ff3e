------------------------------- MODULE Oracle ------------------------------
(* C15: the factor oracle of a text (Allauzen, Crochemore, Raffinot 1999). *)
(* A state is the length k of the prefix it stands for, 0..n; tr[k+1] maps *)
(* the characters of its outgoing transitions to their targets, sup[k+1]   *)
(* is its supply link.                                                     *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC
Start == [tr |-> << [c \in {} |-> 0] >>, sup |-> << -1 >>]
RECURSIVE Climb(_, _, _, _, _)
Climb(tr, sup, k, c, new) ==
    IF k = -1 THEN <<tr, k>>
    ELSE IF c \in DOMAIN tr[k + 1] THEN <<tr, k>>
    ELSE Climb([tr EXCEPT ![k + 1] = (c :> new) @@ @], sup, sup[k + 1], c, new)
\* appends one character on-line
AddChar(o, c) ==
    LET m   == Len(o.tr) - 1
        t1  == Append([o.tr EXCEPT ![m + 1] = (c :> (m + 1)) @@ @], [x \in {} |-> 0])
        w   == Climb(t1, o.sup, o.sup[m + 1], c, m + 1)
    IN [tr |-> w[1], sup |-> Append(o.sup, IF w[2] = -1 THEN 0 ELSE w[1][w[2] + 1][c])]
OracleOf(t) == FoldLeft(AddChar, Start, t).tr
\* number of characters of q that the oracle tr reads from its start
Reads(tr, q) == FoldLeft(LAMBDA a, c : IF a[3] /\ c \in DOMAIN tr[a[1] + 1] THEN <<tr[a[1] + 1][c], a[2] + 1, TRUE>> ELSE <<a[1], a[2], FALSE>>, <<0, 0, TRUE>>, q)[2]
Accepts(tr, q) == Reads(tr, q) = Len(q)
\* ---- the definition by shortest words, for the comparison in OracleMC
Sub(t, a, b) == SubSeq(t, a + 1, b)                     \* t[a..b)
IsFactor(q, t) == \E a \in 0..(Len(t) - Len(q)) : Len(q) <= Len(t) /\ Sub(t, a, a + Len(q)) = q
=============================================================================
