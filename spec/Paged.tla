-------------------------------- MODULE Paged ------------------------------
(* Long sequences in pages of PageSize, so that changing or adding one      *)
(* element copies one page and the list of pages only. Indices from 0.     *)
(* PagedMC: the operations are the ones on plain sequences.                *)
EXTENDS Naturals, Integers, Sequences, SequencesExt
CONSTANT PageSize
Get(p, k) == p[(k \div PageSize) + 1][(k % PageSize) + 1]
Put(p, k, v) == [p EXCEPT ![(k \div PageSize) + 1][(k % PageSize) + 1] = v]
\* appends to a paged sequence of n elements
Add(p, n, v) == IF n % PageSize = 0 THEN Append(p, << v >>) ELSE [p EXCEPT ![Len(p)] = Append(@, v)]
Const(n, v) == [j \in 1..((n + PageSize - 1) \div PageSize) |->
                  [d \in 1..(IF j * PageSize <= n THEN PageSize ELSE n - ((j - 1) * PageSize)) |-> v]]
Size(p) == IF p = << >> THEN 0 ELSE ((Len(p) - 1) * PageSize) + Len(p[Len(p)])
=============================================================================
