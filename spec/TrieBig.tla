------------------------------- MODULE TrieBig ------------------------------
(* TrieMap.tla for many keys: the map as a set of pairs.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Mark == 0
Marked(k) == Append(k, Mark)
Keys(ps) == {p[1] : p \in ps}
\* several insertions, the keys different from each other
Put(ps, ks, xs) == LET new == {ks[j] : j \in 1..Len(ks)}
                   IN {p \in ps : p[1] \notin new} \cup {<<ks[j], xs[j]>> : j \in 1..Len(ks)}
Longest(ps) == LET S == {Len(p[1]) : p \in ps} IN CHOOSE n \in S : \A m \in S : m <= n
Prefix(m, j) == SubSeq(m, 1, IF j <= Len(m) THEN j ELSE Len(m))
Nodes(ps) == IF ps = {} THEN {<<>>} ELSE {Prefix(Marked(p[1]), j) : p \in ps, j \in 0..(Longest(ps) + 1)}
=============================================================================
