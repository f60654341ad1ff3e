------------------------------ MODULE HashMap ------------------------------
(* C09: two compact hash tables as maps from keys (numbers of a fixed      *)
(* universe of different keys) to values.                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANT Objs
VARIABLES nk,      \* size of the universe, keys are 0..nk-1
          map      \* [Objs -> [present keys -> value]]
Empty == [k \in {} |-> 0]
HInit == nk = 0 /\ map = [o \in Objs |-> Empty]
Universe(n) == nk' = n /\ map' = [o \in Objs |-> Empty]
Upd(m, k, x) == [j \in (DOMAIN m) \cup {k} |-> IF j = k THEN x ELSE m[j]]
Del(m, k) == [j \in (DOMAIN m) \ {k} |-> m[j]]
Set(o, k, x) == k \in 0..(nk-1) /\ map' = [map EXCEPT ![o] = Upd(@, k, x)] /\ UNCHANGED nk
Erase(o, k)  == k \in 0..(nk-1) /\ map' = [map EXCEPT ![o] = Del(@, k)] /\ UNCHANGED nk
Reserve(o)   == UNCHANGED <<map, nk>>
Copy(o, p)   == map' = [map EXCEPT ![o] = map[p]] /\ UNCHANGED nk
New(o)       == map' = [map EXCEPT ![o] = Empty] /\ UNCHANGED nk
Size(o)      == Cardinality(DOMAIN map[o])
Has(o, k)    == k \in DOMAIN map[o]
=============================================================================
