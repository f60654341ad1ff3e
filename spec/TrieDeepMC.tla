----------------------------- MODULE TrieDeepMC -----------------------------
(* TrieDeep against TrieMap.                                               *)
EXTENDS TrieDeep, TLC
CONSTANTS Items, MaxKeys
Strings == {<<>>, <<0>>, <<1>>, <<0, 0>>, <<1, 2>>, <<1, 1>>, <<1, 1, 2>>, <<1, 2, 0>>}
VARIABLES map, kids, pairs, n
T == INSTANCE TrieMap
RECURSIVE Runs(_)
Runs(s) == IF s = <<>> THEN <<>>
           ELSE LET r == Runs(Tail(s)) IN
                IF r # <<>> /\ r[1][1] = s[1] THEN << <<s[1], r[1][2] + 1>> >> \o Tail(r) ELSE << <<s[1], 1>> >> \o r
Init == T!TInit /\ pairs = {} /\ n = 1
Next == \E k \in Strings, x \in Items : /\ Cardinality(DOMAIN map \cup {k}) <= MaxKeys
                                        /\ T!Insert(k, x) /\ n' = n + NewNodes(pairs, Runs(k)) /\ pairs' = DeepPut(pairs, Runs(k), x)
Spec == Init /\ [][Next]_<<map, kids, pairs, n>>
Same == /\ pairs = {<<Runs(k), map[k]>> : k \in DOMAIN map}
        /\ n = Cardinality(DOMAIN kids)
        /\ \A d \in 0..5 : /\ AtDepth(pairs, d) = Cardinality({p \in DOMAIN kids : Len(p) = d})
                           /\ EndsAt(pairs, d) = Cardinality({p \in DOMAIN kids : Len(p) = d /\ T!IsTerminal(p)})
        /\ \A k \in Strings : Canonical(Runs(k)) /\ Size(Runs(k)) = Len(k)
=============================================================================
