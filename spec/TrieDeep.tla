------------------------------ MODULE TrieDeep ------------------------------
(* TrieMap.tla for keys of many letters: a key is the sequence of its runs *)
(* <<letter, how many>>, neighbours of different letters; the map is a set *)
(* of pairs <<key, item>>. Nodes are not named but counted, depth by depth. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Canonical(k) == /\ \A j \in 1..Len(k) : k[j][2] > 0
                /\ \A j \in 1..(Len(k) - 1) : k[j][1] # k[j + 1][1]
RECURSIVE Size(_)
Size(k) == IF k = <<>> THEN 0 ELSE k[1][2] + Size(Tail(k))
\* the key followed by the end mark
MarkedRuns(k) == IF k # <<>> /\ k[Len(k)][1] = 0 THEN [k EXCEPT ![Len(k)] = <<0, @[2] + 1>>] ELSE Append(k, <<0, 1>>)
\* its first d letters
RECURSIVE Cut(_, _)
Cut(k, d) == IF d = 0 \/ k = <<>> THEN <<>>
             ELSE IF k[1][2] >= d THEN << <<k[1][1], d>> >> ELSE << k[1] >> \o Cut(Tail(k), d - k[1][2])
\* how many letters two keys share at the front
RECURSIVE Shared(_, _)
Shared(k, l) == IF k = <<>> \/ l = <<>> THEN 0
                ELSE IF k[1] = l[1] THEN k[1][2] + Shared(Tail(k), Tail(l))
                ELSE IF k[1][1] # l[1][1] THEN 0 ELSE IF k[1][2] < l[1][2] THEN k[1][2] ELSE l[1][2]
DeepKeys(ps) == {p[1] : p \in ps}
DeepPut(ps, k, x) == {p \in ps : p[1] # k} \cup {<<k, x>>}
AtDepth(ps, d) == Cardinality({Cut(MarkedRuns(k), d) : k \in {m \in DeepKeys(ps) : Size(m) + 1 >= d}} \cup (IF d = 0 THEN {<<>>} ELSE {}))
EndsAt(ps, d) == Cardinality({k \in DeepKeys(ps) : Size(k) + 1 = d})
\* a new key adds the nodes of the letters it does not share with any other
NewNodes(ps, k) == IF k \in DeepKeys(ps) THEN 0
                   ELSE Size(k) + 1 - (LET S == {0} \cup {Shared(MarkedRuns(k), MarkedRuns(l)) : l \in DeepKeys(ps)} IN CHOOSE n \in S : \A m \in S : m <= n)
=============================================================================
