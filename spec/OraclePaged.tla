----------------------------- MODULE OraclePaged ---------------------------
(* Oracle.tla for long texts: transitions and supply links in pages.       *)
(* PagedMC: the same oracle and the same readings.                         *)
EXTENDS Paged, TLC
Start == [n |-> 0, tr |-> << << [c \in {} |-> 0] >> >>, sup |-> << << -1 >> >>]
RECURSIVE Climb(_, _, _, _, _)
Climb(tr, sup, k, c, new) ==
    IF k = -1 THEN <<tr, k>>
    ELSE IF c \in DOMAIN Get(tr, k) THEN <<tr, k>>
    ELSE Climb(Put(tr, k, (c :> new) @@ Get(tr, k)), sup, Get(sup, k), c, new)
AddChar(o, c) ==
    LET m   == o.n
        t1  == Add(Put(o.tr, m, (c :> (m + 1)) @@ Get(o.tr, m)), m + 1, [x \in {} |-> 0])
        w   == Climb(t1, o.sup, Get(o.sup, m), c, m + 1)
    IN [n |-> m + 1, tr |-> w[1], sup |-> Add(o.sup, m + 1, IF w[2] = -1 THEN 0 ELSE Get(w[1], w[2])[c])]
OracleOf(t) == FoldLeft(AddChar, Start, t).tr
Reads(tr, q) == FoldLeft(LAMBDA a, c : IF a[3] /\ c \in DOMAIN Get(tr, a[1]) THEN <<Get(tr, a[1])[c], a[2] + 1, TRUE>> ELSE <<a[1], a[2], FALSE>>, <<0, 0, TRUE>>, q)[2]
=============================================================================
