----------------------------- MODULE SortTrace -----------------------------
(* C13: one sort of positions [a, b) of a sequence, as a step from the     *)
(* sequence before to the sequence after.                                  *)
EXTENDS TraceBase, SequencesExt
VARIABLE seq
LessThan(cmp, m, x, y) == CASE cmp \in {"default", "less"} -> x < y
                            [] cmp = "greater" -> x > y
                            [] cmp = "mod" -> x % m < y % m
                            [] OTHER -> FALSE
Part(s, a, b) == {s[k] : k \in (a+1)..b}
Count(s, a, b) == FoldLeft(LAMBDA n, x : [n EXCEPT ![x] = @ + 1], TLCEval([x \in Part(s, a, b) |-> 0]), SubSeq(s, a + 1, b))
\* counting how often each value occurs is not needed where all values differ
IsPermutation(s, t, a, b) == LET D == Part(s, a, b) IN
    IF Cardinality(D) = b - a THEN Part(t, a, b) = D ELSE Count(s, a, b) = Count(t, a, b)
IsSort(cmp, m, a, b, s, t) ==
    /\ Len(s) = Len(t)
    /\ \A k \in 1..Len(s) : (k <= a \/ k > b) => t[k] = s[k]              \* outside untouched
    /\ IsPermutation(s, t, a, b)                                          \* a permutation
    /\ \A k \in (a+1)..(b-1) : ~LessThan(cmp, m, t[k+1], t[k])            \* ordered
Sort == /\ Op("sort") /\ E.a <= E.b /\ E.b <= Len(E.in)
        /\ IsSort(E.cmp, E.m, E.a, E.b, E.in, E.out) = TRUE   \* (as a value: TLC takes apart a formula of an action recursively)
        /\ seq' = E.out
TraceInit == TraceStart /\ seq = << >>
TraceNext == Sort \/ (Finished /\ UNCHANGED seq)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, seq>>
=============================================================================
