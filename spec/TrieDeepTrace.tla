---------------------------- MODULE TrieDeepTrace ---------------------------
(* C17 for keys of many letters (TrieDeepMC: the same map and nodes as in  *)
(* TrieMap).                                                               *)
EXTENDS TraceBase, TrieDeep
VARIABLES pairs, n
Same == UNCHANGED <<pairs, n>>
Ins == /\ Op("dins") /\ Canonical(E.k)
       /\ n' = n + NewNodes(pairs, E.k) /\ pairs' = DeepPut(pairs, E.k, E.x)
       /\ E.r = E.x /\ E.n = n'
Look == /\ Op("dlook") /\ Same
        /\ IF E.r = -1 THEN E.k \notin DeepKeys(pairs) ELSE <<E.k, E.r>> \in pairs
\* as many nodes as there are keys' beginnings, at every depth where they change, and at the depths asked for
Depths == /\ Op("depths") /\ Same
          /\ \A j \in 1..Len(E.d) : E.v[j] = AtDepth(pairs, E.d[j]) /\ E.t[j] = EndsAt(pairs, E.d[j])
          /\ E.all = n /\ \A k \in DeepKeys(pairs) : Size(k) + 1 <= E.max
          /\ \/ pairs = {} /\ E.max = 0
             \/ \E k \in DeepKeys(pairs) : Size(k) + 1 = E.max
TraceInit == TraceStart /\ pairs = {} /\ n = 1
TraceNext == Ins \/ Look \/ Depths \/ (Finished /\ Same)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, pairs, n>>
=============================================================================
