------------------------------ MODULE SymSeq -------------------------------
(* C04, C05: a sequence over a small alphabet, and the rank of a position: *)
(* how many earlier positions hold the symbol it holds.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

\* positions are 0-based, sequences 1-based
RankAt(s, x) == Cardinality({k \in 1..x : s[k] = s[x + 1]})

Symbols(s) == {s[k] : k \in 1..Len(s)}

\* r is the table of the ranks of all positions, with -1 where the symbol is in Skip
\* (declaratively: r[k] = RankAt(s, k-1)); one pass with a counter per symbol
IsRankTable(s, r, Skip) ==
    /\ Len(r) = Len(s)
    /\ LET Step(acc, k) ==
            IF ~acc.ok THEN acc
            ELSE IF s[k] \in Skip THEN [acc EXCEPT !.ok = (r[k] = -1)]
            ELSE [ok |-> r[k] = acc.c[s[k]], c |-> [acc.c EXCEPT ![s[k]] = @ + 1]]
       IN FoldLeft(Step, [ok |-> TRUE, c |-> [x \in Symbols(s) |-> 0]], [k \in 1..Len(s) |-> k]).ok

IsRankTableDecl(s, r, Skip) ==
    /\ Len(r) = Len(s)
    /\ \A k \in 1..Len(s) : r[k] = IF s[k] \in Skip THEN -1 ELSE RankAt(s, k - 1)
=============================================================================
