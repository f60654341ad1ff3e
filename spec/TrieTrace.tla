----------------------------- MODULE TrieTrace -----------------------------
EXTENDS TraceBase
VARIABLES map, kids
T == INSTANCE TrieMap
B01(b) == IF b THEN 1 ELSE 0
Count(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
Same == UNCHANGED <<map, kids>>
Ins == Op("ins") /\ T!Insert(E.k, E.x) /\ E.r = E.x /\ E.n = Cardinality(DOMAIN kids')
\* writing through the pointer to a found item
Assign == /\ Op("assign") /\ E.p = B01(E.k \in DOMAIN map) /\ UNCHANGED kids
          /\ map' = IF E.k \in DOMAIN map THEN [map EXCEPT ![E.k] = E.x] ELSE map
Look == /\ Op("look") /\ Same /\ Len(E.r) = Len(E.q)
        /\ \A j \in 1..Len(E.q) : E.r[j] = IF E.q[j] \in DOMAIN map THEN map[E.q[j]] ELSE -1
DfsEv == Op("dfs") /\ Same /\ E.n = T!Size /\ E.v = T!Dfs(<<>>)
BfsEv == /\ Op("bfs") /\ Same /\ E.n = T!Size /\ Len(E.v) = T!Size
         /\ \A j \in 1..(Len(E.v) - 1) : E.v[j].d <= E.v[j + 1].d
         /\ LET w == T!Dfs(<<>>) IN \A x \in {E.v[j] : j \in DOMAIN E.v} : Count(E.v, x) = Count(w, x)
Walk == /\ Op("walk") /\ Same
        /\ LET m == T!Depth(E.k)
               n == SubSeq(E.k, 1, m)
           IN /\ E.m = m /\ E.ok = 1 /\ E.t = B01(T!IsTerminal(n))
              /\ E.sub = Cardinality({x \in DOMAIN kids : Len(x) >= m /\ SubSeq(x, 1, m) = n})
Copy == Op("copy") /\ Same /\ E.n = T!Size
TraceInit == TraceStart /\ T!TInit
TraceNext == Ins \/ Assign \/ Look \/ DfsEv \/ BfsEv \/ Walk \/ Copy \/ (Finished /\ Same)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, map, kids>>
=============================================================================
