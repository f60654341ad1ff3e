------------------------------ MODULE TrieBigMC -----------------------------
(* TrieBig against TrieMap.                                                *)
EXTENDS TrieBig, TLC
CONSTANTS Strings, Items, MaxKeys
Strs == {<<>>, <<0>>, <<1>>, <<0, 0>>, <<1, 2>>, <<1, 2, 0>>}
VARIABLES map, kids, pairs
T == INSTANCE TrieMap
Init == T!TInit /\ pairs = {}
Next == \E k \in Strings, x \in Items : /\ Cardinality(DOMAIN map \cup {k}) <= MaxKeys
                                        /\ T!Insert(k, x) /\ pairs' = Put(pairs, <<k>>, <<x>>)
Spec == Init /\ [][Next]_<<map, kids, pairs>>
Same == /\ pairs = {<<k, map[k]>> : k \in DOMAIN map}
        /\ Nodes(pairs) = DOMAIN kids
        /\ \A n \in Nodes(pairs) : kids[n] = {c \in 0..2 : Append(n, c) \in Nodes(pairs)}
        /\ {Marked(k) : k \in Keys(pairs)} = {n \in DOMAIN kids : T!IsTerminal(n)}
        /\ \A k \in Strings, l \in Strings : k # l => Put(pairs, <<k, l>>, <<0, 1>>) = Put(Put(pairs, <<k>>, <<0>>), <<l>>, <<1>>)
=============================================================================
