----------------------------- MODULE SamcTrace -----------------------------
(* C18: the automaton of a key set is its characteristic function.         *)
(* C23: the dictionary numbers the keys 0..n-1; the numbering itself is    *)
(* free, but it is one bijection for all look-ups and accesses.            *)
EXTENDS TraceBase
VARIABLES keys,   \* the key set
          tab     \* tab[i+1] the key with identifier i; <<>> while unknown
B01(b) == IF b THEN 1 ELSE 0
Range(s) == {s[j] : j \in DOMAIN s}
Keys == /\ Op("keys") /\ keys' = Range(E.k) /\ Cardinality(keys') = Len(E.k) /\ tab' = <<>>
Acc == /\ Op("acc") /\ UNCHANGED <<keys, tab>> /\ Len(E.r) = Len(E.q)
       /\ \A j \in 1..Len(E.q) : E.r[j] = B01(E.q[j] \in keys)
Ids == /\ Op("ids") /\ UNCHANGED keys /\ tab' = E.s
       /\ Len(E.s) = Cardinality(keys) /\ Range(E.s) = keys
       /\ E.r = [j \in 1..Len(E.s) |-> j - 1]
       /\ tab = <<>> \/ tab = E.s
Look == /\ Op("look") /\ UNCHANGED <<keys, tab>> /\ Len(E.r) = Len(E.q)
        /\ Len(tab) = Cardinality(keys)
        /\ \A j \in 1..Len(E.q) :
              IF E.q[j] \in keys THEN E.r[j] \in 0..(Len(tab) - 1) /\ tab[E.r[j] + 1] = E.q[j]
                                 ELSE E.r[j] = -1
TraceInit == TraceStart /\ keys = {} /\ tab = <<>>
TraceNext == Keys \/ Acc \/ Ids \/ Look \/ (Finished /\ UNCHANGED <<keys, tab>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, i, keys, tab>>
=============================================================================
