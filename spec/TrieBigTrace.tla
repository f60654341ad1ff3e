---------------------------- MODULE TrieBigTrace ---------------------------
(* C17 for tries of many nodes: the state is the set of pairs <<key, item>>, *)
(* the nodes are the prefixes of the keys followed by the end mark.        *)
(* (TrieBigMC: after every history the same map and nodes as in TrieMap.)  *)
EXTENDS TraceBase, TrieBig
VARIABLES pairs
Same == UNCHANGED pairs
InsAll == /\ Op("insq") /\ Len(E.k) = Len(E.x) /\ Len(E.r) = Len(E.k)
          /\ pairs' = Put(pairs, E.k, E.x)
          /\ (E.r = E.x /\ E.n = Cardinality(Nodes(pairs'))) = TRUE
LookAll == /\ Op("lookq") /\ Same /\ Len(E.r) = Len(E.q)
           /\ LET ks == Keys(pairs) IN
              (\A j \in 1..Len(E.q) : IF E.r[j] = -1 THEN E.q[j] \notin ks ELSE <<E.q[j], E.r[j]>> \in pairs) = TRUE
\* all paths from the root, once each, and which of them end at an item
NodesEv == /\ Op("nodes") /\ Same
           /\ LET ns == Nodes(pairs) IN
              (/\ Len(E.v) = Cardinality(ns) /\ {E.v[j] : j \in 1..Len(E.v)} = ns
               /\ {E.t[j] : j \in 1..Len(E.t)} = {Marked(k) : k \in Keys(pairs)} /\ Len(E.t) = Cardinality(pairs)
               /\ E.dfs = Len(E.v) /\ E.bfs = Len(E.v)) = TRUE
TraceInit == TraceStart /\ pairs = {}
TraceNext == InsAll \/ LookAll \/ NodesEv \/ (Finished /\ Same)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, pairs>>
=============================================================================
