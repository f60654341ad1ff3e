------------------------------ MODULE TrieMap ------------------------------
(* C17: a trie as a map from byte strings to items, together with its      *)
(* nodes: all prefixes of the stored keys followed by the end mark 0.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES map,    \* [stored keys -> item]
          kids    \* [nodes -> set of characters of its edges]; a node is the string on its path
End == 0
TInit == map = [k \in {} |-> 0] /\ kids = (<<>> :> {})
Marked(k) == Append(k, End)
AddPath(ks, k) ==
    LET m   == Marked(k)
        pre == {SubSeq(m, 1, j) : j \in 0..Len(m)}
    IN [n \in (DOMAIN ks) \cup pre |->
          (IF n \in DOMAIN ks THEN ks[n] ELSE {}) \cup
          (IF n \in pre /\ Len(n) < Len(m) THEN {m[Len(n) + 1]} ELSE {})]
Insert(k, x) == /\ map' = (k :> x) @@ map
                /\ kids' = IF k \in DOMAIN map THEN kids ELSE AddPath(kids, k)
Size == Cardinality(DOMAIN kids)
IsTerminal(n) == /\ Len(n) > 0 /\ n[Len(n)] = End /\ SubSeq(n, 1, Len(n) - 1) \in DOMAIN map
EdgesOf(n) == SetToSortSeq(kids[n], <)
View(n) == [d |-> Len(n), t |-> IF IsTerminal(n) THEN 1 ELSE 0, c |-> EdgesOf(n)]
RECURSIVE Dfs(_)
Dfs(n) == FoldLeft(LAMBDA acc, c : acc \o Dfs(Append(n, c)), <<View(n)>>, EdgesOf(n))
\* the longest prefix of k that is a node
Depth(k) == CHOOSE m \in 0..Len(k) : /\ SubSeq(k, 1, m) \in DOMAIN kids
                                     /\ m = Len(k) \/ SubSeq(k, 1, m + 1) \notin DOMAIN kids
=============================================================================
